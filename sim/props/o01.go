package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strings"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/readerhttp"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/writerhttp"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"

	"verif.local/sim/env"
	"verif.local/sim/simrt"
)

func init() {
	register(&Prop{ID: "O01", Setup: mtSetup, Run: runO01,
		Rule:        "each run publishes a sequence of identity states (growing revocation and roots trees, sometimes republishing an old one) through the off-chain publisher with a cache of 1-13 (or 130-255) entries, from one or several tasks, while other tasks ask for the last state or a given one and the trees keep growing, with storage faults, crashes and power losses and reloading; every answer must be exactly one publication, the last one must be the last, and each of the newest publications within the cache length must be retrievable. Non-trivial: the cache wrapped around, or a fault, crash or concurrent publication struck.",
		Nontrivial:  []string{"wrapped", "fault", "crash", "overlap"},
		Real:        []string{"idenpuboffchain/writerhttp", "idenpuboffchain", "merkletree", "db", "goleveldb engine"},
		Stub:        []string{"disk", "goroutine scheduler"},
		Assumptions: []string{"the publisher's creation itself is durable", "a cache length of at least one"},
	})
	register(&Prop{ID: "O02", Setup: mtSetup, Run: runO02,
		Rule:        "each run lets 1-3 readers fetch the published data of an identity (a given state or the last one) from an HTTP server in front of the real publisher, over a simulated network that refuses, delays, loses, duplicates and cuts replies, while the server publishes further states, answers 5xx, or answers with damaged, stale, spliced or made up data; a reader returns an error or exactly what was published. Non-trivial: a faulty reply reached a reader.",
		Nontrivial:  []string{"tampered", "net_fault"},
		Real:        []string{"idenpuboffchain/readerhttp", "httpclient", "idenpuboffchain", "idenpuboffchain/writerhttp", "merkletree", "sling"},
		Stub:        []string{"network and HTTP server", "goroutine scheduler"},
		Assumptions: []string{"the hash function is collision free on the inputs used"},
	})
}

// offIden is an identity whose trees grow.
type offIden struct {
	rev, rot *merkletree.MerkleTree
	vers     []*offVer
	nRev     uint32
	nRot     int
	growing  bool
}

type offVer struct {
	pd        *idenpuboffchain.PublicData
	nRev      uint32
	nRot      int
	state     merkletree.Hash
	rots, rvs [][]byte
}

var offSalt = big.NewInt(7919)

func newOffIden(r *Run) *offIden {
	o := &offIden{}
	var err error
	o.rev, err = merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	r.Must(err, "tree")
	o.rot, err = merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	r.Must(err, "tree")
	return o
}

func (o *offIden) claimsRoot(n int) *merkletree.Hash {
	return merkletree.NewHashFromBigInt(new(big.Int).Mul(offSalt, big.NewInt(int64(n+1))))
}

// grow adds nv revocations and nr roots.
func (o *offIden) grow(r *Run, nv, nr int) {
	for i := 0; i < nv; i++ {
		if err := claims.AddLeafRevocationsTree(o.rev, o.nRev, 1); err != nil {
			r.Violate("grow", "revocations tree: %v", err)
		}
		o.nRev++
	}
	for i := 0; i < nr; i++ {
		if err := claims.AddLeafRootsTree(o.rot, o.claimsRoot(o.nRot)); err != nil {
			r.Violate("grow", "roots tree: %v", err)
		}
		o.nRot++
	}
}

// rebuild gives the identity fresh trees with the same content (a task that
// was killed may hold the lock of the old ones).
func (o *offIden) rebuild(r *Run) {
	n := newOffIden(r)
	nv, nr := o.nRev, o.nRot
	n.grow(r, int(nv), nr)
	o.rev, o.rot, o.growing = n.rev, n.rot, false
	for _, v := range o.vers {
		v.pd.RevocationsTree, v.pd.RootsTree = o.rev, o.rot
	}
}

// version records the current state as publishable.
func (o *offIden) version(r *Run) *offVer {
	cl := o.claimsRoot(o.nRot)
	rv, rt := o.rev.RootKey(), o.rot.RootKey()
	v := &offVer{nRev: o.nRev, nRot: o.nRot}
	v.pd = &idenpuboffchain.PublicData{IdenState: core.IdenState(cl, rv, rt), ClaimsTreeRoot: cl,
		RevocationsTreeRoot: rv, RevocationsTree: o.rev, RootsTreeRoot: rt, RootsTree: o.rot}
	v.state = *v.pd.IdenState
	o.vers = append(o.vers, v)
	return v
}

func (o *offIden) byState(h merkletree.Hash) *offVer {
	for _, v := range o.vers {
		if v.state == h {
			return v
		}
	}
	return nil
}

// same checks that imported public data is exactly version v.
func (v *offVer) same(r *Run, pd *idenpuboffchain.PublicData, what string) {
	if *pd.IdenState != v.state || *pd.ClaimsTreeRoot != *v.pd.ClaimsTreeRoot || *pd.RevocationsTreeRoot != *v.pd.RevocationsTreeRoot || *pd.RootsTreeRoot != *v.pd.RootsTreeRoot {
		r.Violate("mixed", "%s: the roots returned are not those published with the state", what)
	}
	if *pd.RevocationsTree.RootKey() != *v.pd.RevocationsTreeRoot || *pd.RootsTree.RootKey() != *v.pd.RootsTreeRoot {
		r.Violate("mixed", "%s: the trees returned are not those published with the state", what)
	}
	for i, t := range []*merkletree.MerkleTree{pd.RevocationsTree, pd.RootsTree} {
		want := int(v.nRev)
		if i == 1 {
			want = v.nRot
		}
		n := 0
		if err := t.Walk(nil, func(nd *merkletree.Node) {
			if nd.Type == merkletree.NodeTypeLeaf {
				n++
			}
		}); err != nil {
			r.Violate("incomplete", "%s: a tree returned cannot be walked: %v", what, err)
		}
		if n != want {
			r.Violate("incomplete", "%s: a tree returned has %d leaves, published with %d", what, n, want)
		}
	}
	// the entries are right and provable
	for k := uint32(0); k < v.nRev+2; k++ {
		e := claims.NewLeafRevocationsTree(k, 1).Entry()
		hi, hv, err := e.HiHv()
		r.Must(err, "hash")
		p, err := pd.RevocationsTree.GenerateProof(hi, nil)
		if err != nil {
			r.Violate("incomplete", "%s: no proof from the tree returned: %v", what, err)
		}
		if p.Existence != (k < v.nRev) || !merkletree.VerifyProof(v.pd.RevocationsTreeRoot, p, hi, hv) {
			r.Violate("altered", "%s: a leaf of the revocations tree is not as published", what)
		}
	}
	for k := 0; k < v.nRot+1; k++ {
		e := claims.NewLeafRootsTree(*v.claimsRootOf(k)).Entry()
		hi, hv, err := e.HiHv()
		r.Must(err, "hash")
		p, err := pd.RootsTree.GenerateProof(hi, nil)
		if err != nil {
			r.Violate("incomplete", "%s: no proof from the tree returned: %v", what, err)
		}
		if p.Existence != (k < v.nRot) || !merkletree.VerifyProof(v.pd.RootsTreeRoot, p, hi, hv) {
			r.Violate("altered", "%s: a leaf of the roots tree is not as published", what)
		}
	}
}

func (v *offVer) claimsRootOf(n int) *merkletree.Hash { return (&offIden{}).claimsRoot(n) }

type offPub struct {
	v        *offVer
	inv, res int64 // res 0: not acknowledged
}

func runO01(r *Run) {
	r.Profile()
	w := r.W
	sh := r.S("shape")
	n := w.NewNode("server")
	level := sh.Chance(1, 2)
	cacheLen := sh.Range(1, 13)
	if sh.Chance(1, 40) {
		cacheLen = sh.Range(130, 255)
	}
	fill := 0
	if sh.Chance(1, 12) { // a long history first
		cacheLen = sh.Range(15, 24)
		fill = cacheLen + sh.Draw(10)
	}
	ctl := &env.FaultCtl{W: w, S: r.S("storagefault")}
	if sh.Chance(1, 3) {
		ctl.NewTx, ctl.Get, ctl.Commit, ctl.CommitAmbiguous = 30, 20, 80, 40
	}
	ctl.Off = true
	id := &core.ID{1}
	var st db.Storage
	var ldb *db.LevelDbStorage
	var wr *writerhttp.IdenPubOffChainWriteHttp
	var mem db.Storage
	openStorage := func(missing bool) {
		if level {
			s, err := db.NewLevelDbStorage("/pub", missing)
			if err != nil {
				r.Violate("open", "the storage does not open: %v", err)
			}
			ldb = s
			st = &env.FaultStore{In: s.WithPrefix([]byte("off")), Ctl: ctl}
		} else {
			if mem == nil {
				mem = db.NewMemoryStorage().WithPrefix([]byte("off"))
			}
			st = &env.FaultStore{In: mem, Ctl: ctl}
		}
	}
	o := newOffIden(r)
	r.Call(n, "create", func() {
		openStorage(false)
		var err error
		wr, err = writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: byte(cacheLen), Url: "http://off.chain"}, st)
		r.Must(err, "create")
		if level {
			n.FS.Sync()
		}
		o.version(r)
	})
	var clock int64
	tick := func() int64 { clock++; return clock }
	var pubs []*offPub
	busy := 0
	load := func(what string) {
		r.Call(n, "load", func() {
			openStorage(true)
			var err error
			wr, err = writerhttp.LoadIdenPubOffChainWriteHttp(st)
			if err != nil {
				r.Violate("load", "%s: the publisher does not load: %v", what, err)
			}
			if wr.Url() != "http://off.chain" {
				r.Violate("load", "%s: the address of the publisher changed", what)
			}
		})
	}
	// content checks an answer against the publication of its state.
	content := func(b *idenpuboffchain.PublicDataBlobs, what string) *offVer {
		v := o.byState(b.IdenState)
		if v == nil {
			r.Violate("invented", "%s: an answer has a state that was never published", what)
		}
		pd, err := idenpuboffchain.NewPublicDataFromBlobs(b)
		if err != nil {
			r.Violate("mixed", "%s: an answer is not consistent: %v", what, err)
		}
		v.same(r, pd, what)
		return v
	}
	// newest reports whether q certainly came after p, both having happened.
	after := func(p, q *offPub) bool { return p.res != 0 && p.res < q.inv }
	// again reports whether x certainly published the state that was the last
	// one already, which makes no state older.
	again := func(x *offPub) bool {
		for _, y := range pubs {
			if y == x || y.v != x.v || y.res == 0 || x.res == 0 || y.res > x.inv {
				continue
			}
			between := false
			for _, z := range pubs {
				if z.v != x.v && (z.res == 0 || z.res > y.inv) && z.inv < x.res {
					between = true
				}
			}
			if !between {
				return true
			}
		}
		return false
	}
	ask := func(v *offVer, what string) {
		w0 := wr
		inv := tick()
		f0 := ctl.Fired
		var q *merkletree.Hash
		if v != nil {
			h := v.state
			q = &h
		}
		b, err := w0.GetPublicData(q)
		res := tick()
		if err != nil {
			if ctl.Fired > f0 {
				r.Probe("fault")
				return
			}
			if v == nil {
				for _, p := range pubs {
					if p.res != 0 && p.res < inv {
						r.Violate("lost", "%s: asking for the last publication fails with %v although one was acknowledged", what, err)
					}
				}
				return
			}
			// is it certainly among the newest?
			for _, p := range pubs {
				if p.v != v || p.res == 0 || p.res >= inv {
					continue
				}
				later := 0
				for _, x := range pubs {
					if x != p && !after(x, p) && x.inv < res && !again(x) {
						later++
					}
				}
				if later < cacheLen {
					r.Violate("lost", "%s: a state published %d publications ago is not found (%v), the cache keeps %d", what, later, err, cacheLen)
				}
			}
			if err != writerhttp.ErrIdenStateNotFound {
				r.Violate("error", "%s: asking for a state that is not there fails with: %v", what, err)
			}
			return
		}
		g := content(b, what)
		if v != nil && g != v {
			r.Violate("other-state", "%s: asked for one state, got another", what)
		}
		ok := false
		var cand []*offPub
		for _, p := range pubs {
			if p.v != g || p.inv >= res {
				continue
			}
			if v != nil {
				ok = true
				continue
			}
			stale := false
			for _, x := range pubs {
				if x.res != 0 && x.res < inv && after(p, x) {
					stale = true
				}
			}
			if !stale {
				ok = true
				cand = append(cand, p)
			}
		}
		if len(cand) == 1 && cand[0].res == 0 {
			cand[0].res = res // it has happened by now
		}
		if !ok {
			if v != nil {
				r.Violate("invented", "%s: a state not published yet is returned", what)
			}
			r.Violate("not-last", "%s: the publication returned as the last one is not the last one", what)
		}
	}
	op := func(s *simrt.Stream, i int) {
		switch s.Weighted(6, 3, 4, 3) {
		case 0: // publish the newest or an older version
			v := o.vers[len(o.vers)-1]
			if s.Chance(1, 5) {
				v = o.vers[s.Draw(len(o.vers))]
			}
			p := &offPub{v: v, inv: tick()}
			pubs = append(pubs, p)
			if len(pubs) > cacheLen {
				r.Probe("wrapped")
			}
			if busy > 0 {
				r.Probe("overlap")
			}
			busy++
			f0, a0 := ctl.Fired, ctl.FiredA
			err := wr.Publish(id, v.pd)
			busy--
			r.Describe("op %d: publish version of %d/%d -> %v", i, v.nRev, v.nRot, err)
			if err != nil {
				if ctl.Fired == f0 {
					r.Violate("publish", "publishing fails: %v", err)
				}
				r.Probe("fault")
				if ctl.FiredA == a0 {
					// it did not happen
					for k, x := range pubs {
						if x == p {
							pubs = append(pubs[:k:k], pubs[k+1:]...)
							break
						}
					}
				}
				return
			}
			if p.res == 0 {
				p.res = tick()
			}
		case 1: // the identity changes
			if o.growing {
				return
			}
			o.growing = true
			o.grow(r, s.Draw(3), 1)
			o.version(r)
			o.growing = false
		case 2:
			ask(nil, fmt.Sprintf("op %d", i))
		case 3:
			ask(o.vers[s.Draw(len(o.vers))], fmt.Sprintf("op %d", i))
		}
		r.State(len(pubs)%7, len(o.vers)%5, cacheLen)
	}
	r.Call(n, "fill", func() {
		for k := 0; k < fill; k++ {
			p := &offPub{v: o.vers[len(o.vers)-1], inv: tick()}
			pubs = append(pubs, p)
			if err := wr.Publish(id, p.v.pd); err != nil {
				r.Violate("publish", "publishing fails: %v", err)
			}
			p.res = tick()
			o.grow(r, 0, 1)
			o.version(r)
		}
		for k := 0; k < fill; k++ {
			ask(o.vers[k], "after a long history")
		}
		if level {
			n.FS.Sync()
		}
	})
	ops := r.Ops(4, 40)
	for ep := 0; len(ops) > 0; ep++ {
		es := r.S(fmt.Sprintf("epoch%d", ep))
		k := es.Range(1, 20)
		if k > len(ops) {
			k = len(ops)
		}
		now := ops[:k]
		ops = ops[k:]
		nt := 1
		conc := es.Chance(1, 2)
		if conc {
			nt = es.Range(2, 3)
		}
		lanes := make([][]int, nt)
		for _, i := range now {
			lanes[i%nt] = append(lanes[i%nt], i)
		}
		mode := es.Weighted(4, 3, 3)
		if !level {
			mode = 0
		}
		if mode > 0 {
			n.CrashAfter(CrashDist(es)*4, mode == 2)
		}
		ctl.Off = conc // faulted calls are told apart only when alone
		var ts []*simrt.Task
		for l := range lanes {
			l := l
			ts = append(ts, w.Go(n, fmt.Sprintf("t%d", l), func() {
				for _, i := range lanes[l] {
					op(r.Op(i), i)
				}
			}))
		}
		r.JoinAll("op", ts...)
		busy = 0
		ctl.Off = true
		what := "after a restart"
		if mode > 0 && !n.Dead() {
			n.Crash(mode == 2)
		}
		if n.Dead() {
			n.Restart()
			r.Probe("crash")
			what = "after a crash"
			r.Call(n, "rebuild", func() { o.rebuild(r) })
		} else if level {
			n.CrashAfter(0, false)
			r.Call(n, "close", func() { ldb.Close() })
		}
		load(what)
		if what == "after a crash" && mode == 2 {
			// the newest publications may be gone; what is left shows where it ends
			what = "after a power loss"
			r.Call(n, "look", func() {
				b, err := wr.GetPublicData(nil)
				if err != nil {
					// nothing is certain to be left
					for _, p := range pubs {
						p.res = 0
					}
					return
				}
				v := content(b, what)
				// the earliest publication that can explain it: what was
				// acknowledged before it is still required, nothing else
				var first *offPub
				for _, p := range pubs {
					if p.v == v && (first == nil || p.inv < first.inv) {
						first = p
					}
				}
				if first == nil {
					r.Violate("invented", "the last publication %s was never made", what)
				}
				for _, p := range pubs {
					if p != first && !after(p, first) {
						p.res = 0
					}
				}
				if first.res == 0 {
					first.res = tick()
				}
			})
		}
		r.Call(n, "readback", func() { ask(nil, what); ask(o.vers[es.Draw(len(o.vers))], what) })
	}
}

func offURL(path string) (state string, ok bool) {
	i := strings.Index(path, "/state/")
	if i >= 0 {
		return path[i+len("/state/"):], true
	}
	return "", strings.HasSuffix(path, "/laststate")
}

func runO02(r *Run) {
	r.Profile()
	w := r.W
	sh := r.S("shape")
	net := w.Net()
	n := w.NewNode("reader")
	var id core.ID
	copy(id[:], []byte{0, 0, 1, 2, 3, 4})
	o := newOffIden(r)
	other := newOffIden(r)
	var wr *writerhttp.IdenPubOffChainWriteHttp
	cacheLen := sh.Range(1, 8)
	r.Call(n, "setup", func() {
		var err error
		wr, err = writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: byte(cacheLen), Url: "http://off.chain"}, db.NewMemoryStorage())
		r.Must(err, "create")
		o.grow(r, sh.Draw(4), sh.Draw(3))
		o.version(r)
		r.Must(wr.Publish(&id, o.vers[0].pd), "publish")
		// another identity's data, or an attacker's
		other.nRev = 1000
		other.grow(r, 2, 1)
		other.version(r)
	})
	if sh.Chance(1, 2) {
		net.Rates = simrt.NetRates{Refuse: 40, ReqLost: 40, RespLost: 40, Truncate: 60, Dup: 40, Err5xx: 40, Slow: 50, MaxDelay: 20e9}
	}
	evil := sh.Chance(1, 2)
	ts := r.S("tamper")
	var tampered, unusable bool
	calls := 0
	blobsOf := func(v *offVer, x *offIden) *idenpuboffchain.PublicDataBlobs {
		var rv, rt bytes.Buffer
		r.Must(x.rev.DumpTree(&rv, v.pd.RevocationsTreeRoot), "dump")
		r.Must(x.rot.DumpTree(&rt, v.pd.RootsTreeRoot), "dump")
		return &idenpuboffchain.PublicDataBlobs{IdenState: v.state, ClaimsTreeRoot: *v.pd.ClaimsTreeRoot, RevocationsTreeRoot: *v.pd.RevocationsTreeRoot,
			RootsTreeRoot: *v.pd.RootsTreeRoot, RevocationsTree: rv.Bytes(), RootsTree: rt.Bytes()}
	}
	net.Serve("off.chain", func(path string, body []byte) (int, []byte) {
		calls++
		st, ok := offURL(path)
		if !ok || !strings.Contains(path, id.String()) {
			return 404, []byte(`{"error":"not found"}`)
		}
		var q *merkletree.Hash
		if st != "" {
			q = &merkletree.Hash{}
			if err := q.UnmarshalText([]byte(st)); err != nil {
				return 400, []byte(`{"error":"bad state"}`)
			}
		}
		b, err := wr.GetPublicData(q)
		if err != nil {
			if q == nil || errors.Is(err, writerhttp.ErrIdenStateNotFound) {
				return 404, []byte(`{"error":"not found"}`)
			}
			return 500, []byte(`{"error":"internal"}`)
		}
		j, err := json.Marshal(b)
		r.Must(err, "json")
		if !evil || !ts.Chance(1, 2) {
			return 200, j
		}
		// the reply is damaged, stale or made up
		tampered = true
		r.Probe("tampered")
		w.Count("fault.tampered_reply")
		must := func() {
			if calls == 1 {
				unusable = true
			}
		}
		nb := *b
		nb.RevocationsTree = append([]byte{}, b.RevocationsTree...)
		nb.RootsTree = append([]byte{}, b.RootsTree...)
		switch ts.Draw(9) {
		case 0: // flip a bit anywhere
			k := ts.Draw(len(j) * 8)
			j[k/8] ^= 1 << uint(k%8)
			return 200, j
		case 1: // flip a bit of a tree
			t := &nb.RevocationsTree
			if ts.Chance(1, 2) {
				t = &nb.RootsTree
			}
			if len(*t) > 0 {
				k := ts.Draw(len(*t) * 8)
				(*t)[k/8] ^= 1 << uint(k%8)
			}
		case 2: // one of the roots or the state
			h := []*merkletree.Hash{&nb.IdenState, &nb.ClaimsTreeRoot, &nb.RevocationsTreeRoot, &nb.RootsTreeRoot}[ts.Draw(4)]
			h[ts.Draw(32)] ^= byte(1 + ts.Draw(255))
			must()
		case 3: // another publication
			nb = *blobsOf(o.vers[ts.Draw(len(o.vers))], o)
		case 4: // a tree of another publication under these roots
			x := blobsOf(o.vers[ts.Draw(len(o.vers))], o)
			if ts.Chance(1, 2) {
				nb.RevocationsTree = x.RevocationsTree
			} else {
				nb.RootsTree = x.RootsTree
			}
		case 5: // consistent data that is not this state
			nb = *blobsOf(other.vers[0], other)
			if ts.Chance(1, 2) {
				nb.IdenState = b.IdenState
			}
		case 6: // a node replaced by another under its key
			t := &nb.RevocationsTree
			if ts.Chance(1, 2) {
				t = &nb.RootsTree
			}
			*t = swapNodes(*t, ts)
		case 7: // a tree cut
			t := &nb.RevocationsTree
			if ts.Chance(1, 2) {
				t = &nb.RootsTree
			}
			if len(*t) > 0 {
				*t = (*t)[:ts.Draw(len(*t))]
			}
		case 8: // other replies
			k := ts.Draw(5)
			must()
			return []int{200, 200, 204, 200, 302}[k], [][]byte{[]byte("{}"), nil, nil, []byte(`{"error":"no"}`), nil}[k]
		}
		j, _ = json.Marshal(&nb)
		return 200, j
	})
	rd := readerhttp.NewIdenPubOffChainHttp()
	published := []*offVer{o.vers[0]}
	conc := sh.Chance(1, 3)
	fetch := func(s *simrt.Stream, i int) {
		var q *merkletree.Hash
		var v *offVer
		if s.Chance(2, 3) {
			v = published[s.Draw(len(published))]
			h := v.state
			q = &h
		}
		tampered = false
		f0 := netFaults(w)
		np := len(published)
		unusable, calls = false, 0
		pd, err := rd.GetPublicData("http://off.chain", &id, q)
		if err == nil && !conc && (unusable || netFaults(w) > f0) {
			r.Violate("passes", "a reply that is not published data, or did not arrive, passed as published data")
		}
		hit := tampered || netFaults(w) > f0 || conc
		if netFaults(w) > f0 {
			r.Probe("net_fault")
		}
		r.Describe("op %d: fetch state=%v tampered=%v err=%v", i, v != nil, tampered, err)
		if err != nil {
			if hit {
				return
			}
			if v != nil {
				for k := len(published) - 1; k >= 0 && k >= len(published)-cacheLen; k-- {
					if published[k] == v {
						r.Violate("fetch", "fetching a state that is there fails: %v", err)
					}
				}
				return
			}
			r.Violate("fetch", "fetching the last state fails: %v", err)
		}
		g := o.byState(*pd.IdenState)
		if v != nil && g != v {
			r.Violate("other-state", "asked for one state, the reader returned another")
		}
		if g == nil {
			g = other.byState(*pd.IdenState)
		}
		if g == nil {
			r.Violate("invented", "the reader returned a state nobody published")
		}
		if g.nRev < 1000 {
			g.same(r, pd, "fetched")
		} else {
			// made up, but it must be what it claims to be
			if *core.IdenState(pd.ClaimsTreeRoot, pd.RevocationsTree.RootKey(), pd.RootsTree.RootKey()) != *pd.IdenState {
				r.Violate("mixed", "the data returned does not make up its state")
			}
		}
		if v == nil && !hit && g != published[len(published)-1] && len(published) == np {
			r.Violate("not-last", "the last state fetched is not the last published")
		}
	}
	ops := r.Ops(2, 12)
	var lane [3][]int
	for _, i := range ops {
		k := 0
		if conc {
			k = r.Op(i).Draw(3)
		}
		lane[k] = append(lane[k], i)
	}
	do := func(i int) {
		s := r.Op(i)
		if s.Chance(1, 3) {
			if o.growing {
				return
			}
			o.growing = true
			defer func() { o.growing = false }()
			o.grow(r, s.Draw(3), 1)
			v := o.version(r)
			published = append(published, v)
			r.Must(wr.Publish(&id, v.pd), "publish")
			r.Describe("op %d: publish", i)
			return
		}
		fetch(s, i)
	}
	var tasks []*simrt.Task
	for k := range lane {
		k := k
		tasks = append(tasks, w.Go(n, fmt.Sprintf("reader%d", k), func() {
			for _, i := range lane[k] {
				do(i)
			}
		}))
	}
	r.JoinAll("fetch", tasks...)
	// once the faults stop, fetching works
	net.Rates = simrt.NetRates{}
	evil = false
	conc = false
	r.Call(n, "final", func() {
		tampered = false
		pd, err := rd.GetPublicData("http://off.chain/", &id, nil)
		if err != nil {
			r.Violate("fetch", "fetching the last state fails after the faults stopped: %v", err)
		}
		g := o.byState(*pd.IdenState)
		if g == nil {
			r.Violate("invented", "the reader returned a state nobody published")
		}
		g.same(r, pd, "fetched")
	})
}

func netFaults(w *simrt.World) (n int64) {
	for k, v := range w.Stats {
		if strings.HasPrefix(k, "fault.net_") && k != "fault.net_slow" && k != "fault.net_duplicate" || strings.HasPrefix(k, "fault.http_") {
			n += v
		}
	}
	return
}

// swapNodes stores the value of one node of a dump under the key of another.
func swapNodes(b []byte, s *simrt.Stream) []byte {
	type kv struct{ k, v []byte }
	var kvs []kv
	for p := 0; p+3 <= len(b); {
		kl, vl := int(b[p]), int(b[p+1])|int(b[p+2])<<8
		vl2 := int(b[p+1])<<8 | int(b[p+2])
		if p+3+kl+vl > len(b) {
			vl = vl2
		}
		if p+3+kl+vl > len(b) {
			return b
		}
		kvs = append(kvs, kv{b[p+3 : p+3+kl], b[p+3+kl : p+3+kl+vl]})
		p += 3 + kl + vl
	}
	n := len(kvs) - 1 // the last one names the root
	if n < 2 {
		return b
	}
	x, y := s.Draw(n), s.Draw(n)
	kvs[x].v = kvs[y].v
	var out []byte
	hl := func(n int) []byte { // the dump's own length encoding
		if len(b) > 3 && int(b[1])|int(b[2])<<8 > len(b) {
			return []byte{byte(n >> 8), byte(n)}
		}
		return []byte{byte(n), byte(n >> 8)}
	}
	for _, e := range kvs {
		out = append(out, byte(len(e.k)))
		out = append(out, hl(len(e.v))...)
		out = append(out, e.k...)
		out = append(out, e.v...)
	}
	return out
}
