package props

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strings"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain/writerhttp"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-core/merkletree"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"github.com/iden3/go-iden3-crypto/babyjub"
	cryptoUtils "github.com/iden3/go-iden3-crypto/utils"

	"verif.local/sim/env"
	"verif.local/sim/simrt"
)

// The environment of an issuing identity: its machine, its storage, the chain
// and the off-chain publisher, and a model of what it must hold.

var idStateCircuit *env.Circuit

const zkLevels = 24

func issSetup() {
	keySetup()
	if idStateCircuit == nil {
		idStateCircuit = env.NewCircuit("idstate", 3)
		simrt.WitnessCalc[string(idStateCircuit.WASM)] = idStateWitness
	}
}

// modelRootUp is the root of a tree with an entry at the end of the siblings.
func modelRootUp(e mentry, sib []*big.Int) mhash {
	d := 0
	for i, s := range sib {
		if s.Sign() != 0 {
			d = i + 1
		}
	}
	k := e.leaf()
	for i := d - 1; i >= 0; i-- {
		if bit(e.hi, i) {
			k = mposeidon(sib[i], h2big(k))
		} else {
			k = mposeidon(h2big(k), sib[i])
		}
	}
	return k
}

func mstate(cl, rv, rt mhash) mhash { return mposeidon(h2big(cl), h2big(rv), h2big(rt)) }

func leafEntry(e *merkletree.Entry) mentry { return newEntryModel(e.Data) }

func rootLeaf(h mhash) mentry {
	return leafEntry(claims.NewLeafRootsTree(merkletree.Hash(h)).Entry())
}

func revLeaf(nonce uint32) mentry {
	return leafEntry(claims.NewLeafRevocationsTree(nonce, 0xffffffff).Entry())
}

// ownsGenesis decides that the private key is the operational key of the
// genesis state behind the id.
func ownsGenesis(id, sk, claimsRoot *big.Int, siblings []*big.Int) error {
	if len(siblings) != zkLevels+1 {
		return errors.New("wrong number of siblings")
	}
	s := babyjub.PrivKeyScalar(*sk)
	c := claims.NewClaimKeyBabyJub(s.Public(), claims.BabyJubKeyTypeAuthorizeKSign)
	root := modelRootUp(leafEntry(c.Entry()), siblings)
	if h2big(root).Cmp(claimsRoot) != 0 {
		return errors.New("the key is not in the genesis claims")
	}
	st := merkletree.Hash(mstate(root, mhash{}, mroot([]mentry{rootLeaf(root)}, 0)))
	if core.IdGenesisFromIdenState(&st).BigInt().Cmp(id) != 0 {
		return errors.New("the id is of another genesis")
	}
	return nil
}

// idStateWitness is the relation of the identity state update circuit.
func idStateWitness(in map[string]interface{}) ([]*big.Int, error) {
	get := func(k string) (*big.Int, error) {
		v, ok := in[k].(*big.Int)
		if !ok || v == nil || !cryptoUtils.CheckBigIntInField(v) {
			return nil, fmt.Errorf("witness: bad input %s", k)
		}
		return v, nil
	}
	var vs [5]*big.Int
	for i, k := range []string{"id", "oldIdState", "newIdState", "userPrivateKey", "claimsTreeRoot"} {
		v, err := get(k)
		if err != nil {
			return nil, err
		}
		vs[i] = v
	}
	sib, ok := in["siblings"].([]*big.Int)
	if !ok {
		return nil, errors.New("witness: bad input siblings")
	}
	if err := ownsGenesis(vs[0], vs[3], vs[4], sib); err != nil {
		return nil, fmt.Errorf("witness: %w", err)
	}
	return idStateCircuit.Witness(vs[0], vs[1], vs[2]), nil
}

type issClaim struct {
	c       claims.Claimer
	entry   *merkletree.Entry // as issued
	em      mentry
	nonce   uint32
	in, rev bool
	genesis bool
	exp     int64
	expires bool
}

// issStep is one durable change of the identity.
type issStep struct {
	kind byte // c: claim, r: revocation, p: root
	c    *issClaim
	root mhash
}

// issSnap is what an identity state contains.
type issSnap struct {
	state, cl, rv, rt mhash
	claims, revoked   map[*issClaim]bool
	roots             map[mhash]bool // in the roots tree
}

type issEnv struct {
	r    *Run
	w    *simrt.World
	n    *simrt.Node
	name string
	dir  string
	url  string
	host *simrt.Host

	level  bool
	mem    db.Storage
	offMem db.Storage
	ldb    *db.LevelDbStorage
	ctl    *env.FaultCtl
	st     db.Storage
	wr     *writerhttp.IdenPubOffChainWriteHttp
	ks     *keystore.KeyStore
	kop    int
	ch     *env.Chain
	cfg    issuer.Config
	is     *issuer.Issuer
	id     core.ID
	own    *issuer.IdOwnershipGenesisInputs

	// model
	claims   []*issClaim
	log      []issStep
	genesis  mhash
	snaps    map[mhash]*issSnap
	pubRoot  mhash         // claims root of the last recorded state
	known    *env.ChainTx  // acknowledged transaction whose state is not adopted yet
	last     *env.ChainTx  // the last one sent
	trying   *simrt.Stream // creations fail before one succeeds
	equipped bool          // genesis only, yet loaded with all it takes to publish
	sending  mhash         // state sent to the chain and not adopted yet
	adopted  []proof.IdenStateData
	// rebuildClaims, if set, runs after each restart.
	rebuildClaims func()
	powered       bool // the last crash was a power loss
	stopped       bool // no more background activity
	nextKey       int
}

// newIssEnv prepares the machine; the identity is made by create.
func newIssEnv(r *Run, name string, kop int, ch *env.Chain, level bool) *issEnv {
	e := &issEnv{r: r, w: r.W, name: name, kop: kop, ch: ch, level: level, snaps: map[mhash]*issSnap{}}
	e.n = e.w.NewNode(name)
	e.dir = "/" + name
	e.url = "http://" + name + ".example"
	e.ctl = &env.FaultCtl{W: e.w, S: r.S(name + ".storagefault"), Off: true}
	e.cfg = issuer.Config{MaxLevelsClaimsTree: 140, MaxLevelsRevocationTree: 140, MaxLevelsRootsTree: 140}
	e.nextKey = 1
	return e
}

// zkConf is the configuration of the proofs, as a process makes it at start.
func (e *issEnv) zkConf() *issuer.IdenStateZkProofConf {
	c := idStateCircuit
	conf := &issuer.IdenStateZkProofConf{Levels: zkLevels}
	f := zkutils.NewZkFiles("", e.dir+"/zk", zkutils.ProvingKeyFormatGoBin, c.Hashes(zkutils.ProvingKeyFormatGoBin), true)
	copyZkFiles(&conf.Files, f)
	return conf
}

func (e *issEnv) newKeys() *keystore.KeyStore {
	ms := keystore.MemStorage([]byte{})
	ks, err := keystore.NewKeyStore(&ms, fastKeys)
	e.r.Must(err, "keystore")
	pk, err := ks.ImportKey(keySks[e.kop], []byte("p"))
	e.r.Must(err, "import")
	e.r.Must(ks.UnlockKey(pk, []byte("p")), "unlock")
	return ks
}

// open opens the storage, the keys and the off-chain publisher.
func (e *issEnv) open(missing bool) {
	var base, off db.Storage
	if e.level {
		s, err := db.NewLevelDbStorage(e.dir+"/db", missing)
		if err != nil {
			e.r.About("I01", "open", "the storage does not open: %v", err)
		}
		e.ldb = s
		base, off = s.WithPrefix([]byte("iden:")), s.WithPrefix([]byte("off:"))
	} else {
		if e.mem == nil {
			m := db.NewMemoryStorage()
			e.mem, e.offMem = m.WithPrefix([]byte("iden:")), m.WithPrefix([]byte("off:"))
		}
		base, off = e.mem, e.offMem
	}
	e.st = &env.FaultStore{In: base, Ctl: e.ctl}
	offst := &env.FaultStore{In: off, Ctl: e.ctl}
	e.ks = e.newKeys()
	if e.cfg.GenesisOnly {
		return
	}
	var err error
	if missing {
		e.wr, err = writerhttp.LoadIdenPubOffChainWriteHttp(offst)
	} else {
		e.wr, err = writerhttp.NewIdenPubOffChainWriteHttp(writerhttp.NewConfigDefault(e.url), offst)
	}
	if err != nil && e.ctl.Off {
		e.r.About("I01 O01", "open", "the off-chain publisher does not load: %v", err)
	}
	e.r.Must(err, "publisher")
}

// create makes the identity and the model's genesis.
func (e *issEnv) create(extra []claims.Claimer) {
	r := e.r
	r.Call(e.n, "create", func() {
		if c := idStateCircuit; true {
			fs := e.n.FS
			_ = simrt.MkdirAll(e.dir+"/zk", 0700)
			fs.Put(e.dir+"/zk/proving_key.go.bin", c.PkGoBin)
			fs.Put(e.dir+"/zk/verification_key.json", c.VkJSON)
			fs.Put(e.dir+"/zk/circuit.wasm", c.WASM)
		}
		e.open(false)
		var id *core.ID
		if e.trying != nil {
			id, extra = e.failedCreates(e.trying, extra)
		}
		if id == nil {
			var err error
			if id, err = issuer.Create(e.cfg, &keyPks[e.kop], extra, e.st, e.ks); err != nil {
				r.About("I01", "create", "an identity cannot be created: %v", err)
			}
		}
		e.id = *id
		if e.trying != nil {
			// The claims handed to a creation that fails get other nonces.
			c := make([]claims.Claimer, 0, len(extra))
			for i := e.trying.Draw(3); i > 0; i-- {
				c = append(c, e.newClaim(e.trying, nil))
			}
			e.createAgain(e.trying, c)
		}
		if e.level {
			e.n.FS.Sync()
		}
	})
	pk, err := keyPks[e.kop].Decompress()
	r.Must(err, "key")
	kc := claims.NewClaimKeyBabyJub(pk, claims.BabyJubKeyTypeAuthorizeKSign)
	e.enter(kc, true)
	for _, c := range extra {
		e.enter(c, true)
	}
	cl := e.croot()
	e.log = append(e.log, issStep{kind: 'p', root: cl})
	e.pubRoot = cl
	e.genesis = e.note().state
	g := merkletree.Hash(e.genesis)
	if *core.IdGenesisFromIdenState(&g) != e.id {
		r.About("I01", "genesis", "the identifier is not the one of the genesis state")
	}
	e.host = r.W.Net().Serve(e.name+".example", e.serve)
	e.host.Node = e.n
}

// failedCreates has the storage fail while the identity is created, with one
// key or another and with these claims or fewer; what fails leaves nothing.
// The identity made if a creation succeeds is returned.
func (e *issEnv) failedCreates(s *simrt.Stream, extra []claims.Claimer) (*core.ID, []claims.Claimer) {
	ctl := *e.ctl
	defer func() {
		fired := e.ctl.Fired
		*e.ctl = ctl
		e.ctl.Fired = fired
	}()
	for i := s.Draw(3); i >= 0; i-- {
		e.ctl.NewTx, e.ctl.Get, e.ctl.Commit = []int{0, 0, 150}[s.Draw(3)], []int{0, 60, 200}[s.Draw(3)], []int{800, 800, 300}[s.Draw(3)]
		kop, n := e.kop, len(extra)
		if s.Chance(1, 2) {
			kop = s.Draw(len(keySks))
		}
		if s.Chance(1, 3) {
			n = s.Draw(n + 1)
		}
		e.ctl.Off = false
		f0 := e.ctl.Fired
		id, err := issuer.Create(e.cfg, &keyPks[kop], extra[:n], e.st, e.ks)
		e.ctl.Off = true
		if err == nil {
			if id == nil {
				e.r.About("I01", "create", "creating an identity gives neither an identifier nor an error")
			}
			e.kop = kop
			return id, extra[:n]
		}
		if e.ctl.Fired == f0 {
			e.r.About("I01", "create", "an identity cannot be created: %v", err)
		}
		e.r.Probe("storage_fault")
		e.r.Probe("failed_create")
		if is, err := issuer.Load(e.st, e.ks, e.ch, e.zkConf(), e.wr); err == nil {
			e.r.About("I01", "half-created", "an identity whose creation failed is there (%s)", is.ID())
		}
	}
	return nil, extra
}

// createAgain: an identity is not replaced by another one.
func (e *issEnv) createAgain(s *simrt.Stream, extra []claims.Claimer) {
	was, err := e.st.List(0)
	e.r.Must(err, "contents")
	if _, err := issuer.Create(e.cfg, &keyPks[s.Draw(len(keySks))], extra[:s.Draw(len(extra)+1)], e.st, e.ks); err == nil {
		e.r.About("I01", "replaced", "creating an identity replaces the one that was there")
	}
	now, err := e.st.List(0)
	e.r.Must(err, "contents")
	if fmt.Sprint(now) != fmt.Sprint(was) {
		e.r.About("I01", "replaced", "a refused creation changed the identity that was there")
	}
	e.r.Probe("created_again")
}

// enter adds an issued claim to the model.
func (e *issEnv) enter(c claims.Claimer, genesis bool) *issClaim {
	en := &merkletree.Entry{Data: c.Entry().Data}
	k := &issClaim{c: c, entry: en, em: leafEntry(en), nonce: c.Metadata().RevNonce, in: true, genesis: genesis}
	if m := c.Metadata(); m.Header().Expiration {
		k.exp, k.expires = m.Expiration, true
	}
	e.claims = append(e.claims, k)
	e.keep(append(e.log, issStep{kind: 'c', c: k}))
	return k
}

// checkNonces: no two claims of the identity share a revocation nonce.
func (e *issEnv) checkNonces() {
	seen := map[uint32]*issClaim{}
	for _, c := range e.claims {
		if !c.in {
			continue
		}
		if seen[c.nonce] != nil {
			e.r.About("I02", "nonce", "two claims of the identity have the revocation nonce %d", c.nonce)
		}
		seen[c.nonce] = c
	}
}

func (e *issEnv) serve(path string, body []byte) (int, []byte) {
	if e.n.Dead() || e.wr == nil {
		return 503, []byte("down")
	}
	p := strings.Split(strings.Trim(path, "/"), "/")
	if len(p) < 2 || p[0] != e.id.String() {
		return 404, []byte("unknown identity")
	}
	var q *merkletree.Hash
	if p[1] == "state" && len(p) == 3 {
		var h merkletree.Hash
		if err := h.UnmarshalText([]byte(p[2])); err != nil {
			return 400, []byte("bad state")
		}
		q = &h
	}
	b, err := e.wr.GetPublicData(q)
	if err != nil {
		return 404, []byte("not found")
	}
	j, err := json.Marshal(b)
	if err != nil {
		return 500, []byte(err.Error())
	}
	return 200, j
}

// roots of the model.
func rootOf(steps []issStep, kind byte) mhash {
	var es []mentry
	seen := map[mhash]bool{}
	for _, s := range steps {
		var m mentry
		switch s.kind {
		case 'c':
			m = s.c.em
		case 'r':
			m = revLeaf(s.c.nonce)
		case 'p':
			m = rootLeaf(s.root)
		}
		if s.kind == kind && !seen[m.hi] {
			seen[m.hi] = true
			es = append(es, m)
		}
	}
	return mroot(es, 0)
}

func (e *issEnv) croot() mhash { return rootOf(e.log, 'c') }

func snapOf(steps []issStep) *issSnap {
	s := &issSnap{cl: rootOf(steps, 'c'), rv: rootOf(steps, 'r'), rt: rootOf(steps, 'p'), claims: map[*issClaim]bool{}, revoked: map[*issClaim]bool{}, roots: map[mhash]bool{}}
	s.state = mstate(s.cl, s.rv, s.rt)
	for _, x := range steps {
		switch x.kind {
		case 'c':
			s.claims[x.c] = true
		case 'r':
			s.revoked[x.c] = true
		case 'p':
			s.roots[x.root] = true
		}
	}
	return s
}

// note records the current state as one that may be published, and returns it.
func (e *issEnv) note() *issSnap {
	s := snapOf(e.log)
	e.snaps[s.state] = s
	return s
}

// preparePublish records the state that a publication would make.
func (e *issEnv) preparePublish() issStep {
	cur := e.note()
	st := issStep{kind: 'p', root: cur.cl}
	p := snapOf(append(append([]issStep{}, e.log...), st))
	e.snaps[p.state] = p
	return st
}

func (e *issEnv) actual() *issSnap {
	st, rt := e.is.State()
	return &issSnap{state: mhash(*st), cl: mhash(*rt.ClaimsTreeRoot), rv: mhash(*rt.RevocationsTreeRoot), rt: mhash(*rt.RootsTreeRoot)}
}

// settle compares the identity with the model, where the last steps may or
// may not have happened and, after a power loss, only the first ones need have.
func (e *issEnv) settle(what string, maybe []issStep, power bool) {
	a := e.actual()
	if mstate(a.cl, a.rv, a.rt) != a.state {
		e.r.About("I01 I03", "state", "%s: the state reported is not that of its roots", what)
	}
	match := func(steps []issStep) bool {
		return rootOf(steps, 'c') == a.cl && rootOf(steps, 'r') == a.rv && rootOf(steps, 'p') == a.rt
	}
	for m := 0; m < 1<<uint(len(maybe)); m++ {
		steps := append([]issStep{}, e.log...)
		for i, x := range maybe {
			if m>>uint(i)&1 == 1 {
				steps = append(steps, x)
			}
		}
		if match(steps) {
			e.keep(steps)
			return
		}
	}
	// The nonce of a claim whose issue was cut off is the one stored; what the
	// dead process left in the claim it was given says nothing.
	if len(maybe) == 1 && maybe[0].kind == 'c' && !maybe[0].c.in {
		k := maybe[0].c
		was := *k
		for n := 0; n < len(e.claims)+64; n++ {
			en := &merkletree.Entry{Data: was.entry.Data}
			binary.LittleEndian.PutUint32(en.Data[4][:4], uint32(n))
			k.entry, k.em, k.nonce = en, leafEntry(en), uint32(n)
			if match(append(append([]issStep{}, e.log...), maybe...)) {
				k.c = claims.NewClaimGeneric(&merkletree.Entry{Data: en.Data})
				e.keep(append(append([]issStep{}, e.log...), maybe...))
				return
			}
		}
		*k = was
	}
	if power {
		for k := len(e.log) - 1; k > 0; k-- {
			if match(e.log[:k]) {
				e.keep(append([]issStep{}, e.log[:k]...))
				e.r.Probe("power_lost_steps")
				return
			}
		}
	}
	e.r.About("I01", "lost", "%s: the claims, revocations and roots of the identity are not those it acknowledged (claims %v revocations %v roots %v of %d steps)", what,
		a.cl == rootOf(e.log, 'c'), a.rv == rootOf(e.log, 'r'), a.rt == rootOf(e.log, 'p'), len(e.log))
}

// keep makes the steps the model.
func (e *issEnv) keep(steps []issStep) {
	e.log = steps
	for _, c := range e.claims {
		c.in, c.rev = false, false
	}
	for _, s := range steps {
		switch s.kind {
		case 'c':
			s.c.in = true
		case 'r':
			s.c.rev = true
		}
	}
	e.checkNonces()
	e.note()
}

// load starts the process again.
func (e *issEnv) load(what string) {
	r := e.r
	for try := 0; ; {
		if e.n.Dead() {
			e.n.Restart()
			e.ldb = nil
		}
		if e.ldb != nil {
			e.close()
			continue
		}
		calm := try == 3
		if calm {
			e.calm(true)
			e.n.CrashAfter(0, false)
		}
		var err error
		f0 := e.faultsNow()
		ok := r.Call(e.n, "load", func() {
			e.is = nil
			off := e.ctl.Off
			e.ctl.Off = true
			e.open(true)
			e.ctl.Off = off
			var is *issuer.Issuer
			if e.cfg.GenesisOnly && !e.equipped {
				is, err = issuer.Load(e.st, e.ks, nil, nil, nil)
			} else {
				is, err = issuer.Load(e.st, e.ks, e.ch, e.zkConf(), e.wr)
			}
			if err == nil {
				e.is = is
			}
		})
		if calm {
			e.calm(false)
		}
		if ok && err == nil {
			break
		}
		try++
		if ok && e.faultsNow() == f0 {
			r.About("I01 I04", "load", "%s: the identity does not load: %v", what, err)
		}
	}
	if *e.is.ID() != e.id || *e.is.KeyOperational() != keyPks[e.kop] {
		r.About("I01", "identity", "%s: the identity has another identifier or key", what)
	}
}

func (e *issEnv) close() {
	e.r.Call(e.n, "close", func() {
		if e.ldb != nil {
			e.ldb.Close()
		}
	})
	e.is, e.wr, e.ldb = nil, nil, nil
}

var calmStack = map[*issEnv][2]bool{}

// calm turns the faults off, or back to what they were.
func (e *issEnv) calm(on bool) {
	if on {
		calmStack = map[*issEnv][2]bool{e: {e.ctl.Off, e.ch.Off}}
		e.ctl.Off, e.ch.Off = true, true
		return
	}
	e.ctl.Off, e.ch.Off = calmStack[e][0], calmStack[e][1]
}

// newClaim makes a claim that was not issued yet, or a copy of an issued one.
func (e *issEnv) newClaim(s *simrt.Stream, subject *core.ID) claims.Claimer {
	k := e.nextKey
	e.nextKey++
	var val [claims.ValueSlotLen]byte
	copy(val[:], s.Bytes(6))
	kind := s.Draw(3)
	if kind == 2 && subject == nil {
		kind = 0
	}
	switch kind {
	case 1:
		var ix [claims.IndexSlotLen]byte
		ix[0], ix[40], ix[70] = byte(k), byte(k*3), byte(k*7)
		var hdr = claims.ClaimHeader{Type: claims.NewClaimTypeNum(77), Subject: claims.ClaimSubjectSelf, Expiration: true, Version: s.Chance(1, 2)}
		m := claims.NewMetadata(hdr)
		if subject != nil && s.Chance(1, 2) {
			hdr.Subject = []claims.ClaimSubject{claims.ClaimSubjectOtherIden, claims.ClaimSubjectObject}[s.Draw(2)]
			hdr.SubjectPos = []claims.ClaimSubjectPos{claims.ClaimSubjectPosIndex, claims.ClaimSubjectPosValue}[s.Draw(2)]
			m = claims.NewMetadata(hdr)
			m.Subject = subject
		}
		m.Expiration = e.w.NowNs()/1e9 + int64(s.Draw(8))*400
		if s.Chance(1, 8) {
			m.Expiration = []int64{0, -1, 1, 1<<63 - 1, -1 << 63, 1<<63 - 62135596800, 1 << 40, 253402300800}[s.Draw(8)]
		}
		if hdr.Version {
			m.Version = uint32(s.Draw(5))
		}
		en := &merkletree.Entry{}
		copy(en.Data[2][:], ix[:8])
		copy(en.Data[6][:], val[:8])
		m.Marshal(en)
		c := claims.NewClaimGeneric(en)
		if got := c.Metadata(); !sameMeta(m, *got) {
			e.r.About("I01 I02", "metadata-lost", "the metadata of a claim is not the one written into its entry")
		}
		return c
	case 2:
		var ix [claims.IndexSubjectSlotLen]byte
		ix[0], ix[30] = byte(k), byte(k*5)
		return claims.NewClaimOtherIden(subject, ix, val)
	default:
		var ix [claims.IndexSlotLen]byte
		ix[0], ix[40], ix[70] = byte(k), byte(k*3), byte(k*7)
		return claims.NewClaimBasic(ix, val)
	}
}
