package props

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"

	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-crypto/babyjub"

	"verif.local/sim/simrt"
)

func init() {
	register(&Prop{ID: "K01", Setup: keySetup, Run: runK01,
		Rule:        "each run creates and imports keys in a file backed key store, closes and reopens it (also through the garbage collector), while disk writes fail, fill up or stop half way and the process crashes or the machine loses power at a seeded statement; after every restart the store must open and hold every key whose creation had been acknowledged, each unlockable with its own passphrase and no other. Non-trivial: a disk fault or a crash hit a key addition.",
		Nontrivial:  []string{"fault_during_write", "crash_recovered"},
		Real:        []string{"keystore", "babyjub", "scrypt", "secretbox"},
		Stub:        []string{"disk", "flock", "garbage collector"},
		Assumptions: []string{"a file's contents survive power loss only once synced; renames survive in order once a directory or file was synced after them"},
	})
	register(&Prop{ID: "K02", Setup: keySetup, Run: runK02,
		Rule:        "each run lets 2-4 processes on one machine open, use, close, lose references to and crash while holding the same key store file; at no point may two of them hold it open, every acknowledged key must stay, and once nobody holds it the next open must succeed. Non-trivial: an open was refused because another process held the store.",
		Nontrivial:  []string{"refused"},
		Real:        []string{"keystore"},
		Stub:        []string{"disk", "flock (locks belong to inodes, released when the process dies)", "garbage collector"},
		Assumptions: []string{"flock semantics of a local file system"},
	})
	register(&Prop{ID: "K03", Setup: keySetup, Run: runK03,
		Rule:        "each run drives one key store from 1-3 tasks: unlocking with right and wrong passphrases, signing in all forms, exporting, closing, with stored data altered between openings in some runs; a signature comes out only for an unlocked key, always verifies under that key for exactly the signed content, and nothing signs after closing. Non-trivial: a refusal (locked, closed, wrong passphrase, altered data) was exercised.",
		Nontrivial:  []string{"refused"},
		Real:        []string{"keystore", "babyjub", "poseidon", "scrypt", "secretbox"},
		Stub:        []string{"disk", "flock", "goroutine scheduler", "clock"},
		Assumptions: []string{"statements are atomic except for map accesses"},
	})
}

var keySks []babyjub.PrivateKey
var keyPks []babyjub.PublicKeyComp

// for key stores with many keys
var manySks []babyjub.PrivateKey
var manyPks []babyjub.PublicKeyComp

func keySetup() {
	if keySks != nil {
		return
	}
	for i := 0; i < 40; i++ {
		var sk babyjub.PrivateKey
		for j := range sk {
			sk[j] = byte(i*37 + j*11 + 1)
		}
		manySks = append(manySks, sk)
		manyPks = append(manyPks, sk.Public().Compress())
	}
	keySks, keyPks = manySks[:5:5], manyPks[:5:5]
}

var fastKeys = keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1}

const ksPath = "/keys/store.json"

// checkStore opens nothing: it checks an open store against what must be in it.
func checkStore(r *Run, ks *keystore.KeyStore, acked map[int]string, may map[int][]string, what string) {
	held := map[babyjub.PublicKeyComp]bool{}
	for _, k := range ks.Keys() {
		held[k] = true
	}
	for i, pk := range keyPks {
		pk := pk
		pass, must := acked[i]
		if must && !held[pk] {
			r.Violate("lost-key", "%s: an acknowledged key is gone", what)
		}
		if !must && len(may[i]) == 0 && held[pk] {
			r.Violate("ghost-key", "%s: a key that was never added is listed", what)
		}
		if !held[pk] {
			continue
		}
		if err := ks.UnlockKey(&pk, []byte("wrong")); err == nil {
			r.Violate("passphrase", "%s: a key unlocks with a wrong passphrase", what)
		}
		opts := may[i]
		if must {
			opts = append([]string{pass}, opts...)
		}
		ok := false
		for _, p := range opts {
			if ks.UnlockKey(&pk, []byte(p)) == nil {
				ok = true
				sk, err := ks.ExportKey(&pk)
				if err != nil || *sk != keySks[i] {
					r.Violate("key", "%s: the key stored is not the key added (%v)", what, err)
				}
			}
		}
		if !ok {
			r.Violate("passphrase", "%s: a stored key does not unlock with its passphrase", what)
		}
	}
}

func runK01(r *Run) {
	r.Profile()
	w := r.W
	sh := r.S("shape")
	n := w.NewNode("host")
	w.Exec(n, "mkdir", func() { _ = simrt.MkdirAll("/keys", 0700); n.FS.Sync() })
	if sh.Chance(1, 2) {
		n.Faults = r.S("diskfault")
	}
	acked := map[int]string{}
	may := map[int][]string{}
	var ks *keystore.KeyStore
	rates := simrt.DiskRates{}
	open := func(what string) {
		r.Call(n, "open", func() {
			n.Rates = simrt.DiskRates{}
			var err error
			ks, err = keystore.NewKeyStore(keystore.NewFileStorage(ksPath), fastKeys)
			if err != nil {
				r.Violate("open", "%s: the key store does not open: %v", what, err)
			}
			checkStore(r, ks, acked, may, what)
		})
	}
	// an acknowledged write carries every key of the store with it
	settle := func() {
		for _, k := range ks.Keys() {
			for i, pk := range keyPks {
				if k != pk {
					continue
				}
				for _, p := range may[i] {
					if ks.UnlockKey(&k, []byte(p)) == nil {
						acked[i] = p
					}
				}
			}
		}
		for i := range keyPks {
			delete(may, i)
		}
	}
	open("first use")
	over := false
	for _, i := range r.Ops(2, 14) {
		s := r.Op(i)
		rates = simrt.DiskRates{}
		if n.Faults != nil && s.Chance(1, 2) {
			rates = simrt.DiskRates{WriteErr: 150, ShortWrite: 200, SyncErr: 100, OpenErr: 100, RenameErr: 100}
		}
		switch s.Weighted(8, 2, 1) {
		case 0:
			k := s.Draw(len(keySks))
			pass := fmt.Sprintf("p%d", s.Draw(3))
			if s.Chance(1, 3) {
				n.CrashAfter(CrashDist(s)%90+1, s.Chance(1, 2))
			}
			may[k] = append(may[k], pass)
			r.Describe("op %d: add key %d", i, k)
			f0 := faultTotal(w)
			done := r.Call(n, "add", func() {
				n.Rates = rates
				var pk *babyjub.PublicKeyComp
				var err error
				fresh := s.Chance(1, 4)
				if fresh {
					// a new key is the one that the random bytes make
					w.NextRandom(keySks[k][:])
					pk, err = ks.NewKey([]byte(pass))
					w.NextRandom(nil)
				} else {
					pk, err = ks.ImportKey(keySks[k], []byte(pass))
				}
				n.Rates = simrt.DiskRates{}
				if err != nil {
					if faultTotal(w) == f0 {
						r.Violate("add", "adding a key fails without a fault: %v", err)
					}
					r.Probe("fault_during_write")
					// refused: as if never asked, also in memory
					o := may[k]
					now := map[int][]string{}
					for x, y := range may {
						now[x] = y
					}
					now[k] = o[: len(o)-1 : len(o)-1]
					// (the bytes may have reached the disk, so may keeps it)
					checkStore(r, ks, acked, now, "after a refused addition")
					return
				}
				if fresh && *pk != keyPks[k] {
					// made from other random bytes: it has to be there, and that is all
					r.Must(ks.Close(), "close")
					k2, err := keystore.NewKeyStore(keystore.NewFileStorage(ksPath), fastKeys)
					r.Must(err, "open")
					if err := k2.UnlockKey(pk, []byte(pass)); err != nil {
						r.Violate("lost", "a new key is not in the key store opened again: %v", err)
					}
					over = true
					return
				}
				if *pk != keyPks[k] {
					r.Violate("add", "an imported key is reported under another public key")
				}
				delete(may, k)
				acked[k] = pass
				settle()
			})
			n.CrashAfter(0, false)
			if over {
				return
			}
			if !done {
				w.NextRandom(nil)
				n.Restart()
				open("after a crash")
				r.Probe("crash_recovered")
			}
		case 1:
			r.Call(n, "close", func() {
				if err := ks.Close(); err != nil {
					r.Violate("close", "closing the key store: %v", err)
				}
			})
			if n.Faults != nil && s.Chance(1, 2) {
				// an opening during which the disk fails
				r.Call(n, "open", func() {
					n.Rates = simrt.DiskRates{ReadErr: 400, OpenErr: 200}
					f0 := faultTotal(w)
					k, err := keystore.NewKeyStore(keystore.NewFileStorage(ksPath), fastKeys)
					n.Rates = simrt.DiskRates{}
					if err != nil {
						if faultTotal(w) == f0 {
							r.Violate("open", "the key store does not open: %v", err)
						}
						r.Probe("fault_during_open")
						return
					}
					checkStore(r, k, acked, may, "opened while the disk fails")
					r.Must(k.Close(), "close")
				})
			}
			open("after closing")
		case 2:
			n.Crash(s.Chance(1, 2))
			n.Restart()
			open("after a crash at rest")
			r.Probe("crash_recovered")
		}
		r.State(len(acked), len(may))
	}
}

func faultTotal(w *simrt.World) (n int64) {
	for k, v := range w.Stats {
		if len(k) > 11 && k[:11] == "fault.disk_" {
			n += v
		}
	}
	return
}

func runK02(r *Run) {
	r.Profile()
	w := r.W
	sh := r.S("shape")
	host := w.NewNode("p0")
	w.Exec(host, "mkdir", func() { _ = simrt.MkdirAll("/keys", 0700); host.FS.Sync() })
	np := sh.Range(2, 4)
	type proc struct {
		n    *simrt.Node
		ks   *keystore.KeyStore
		fs   *keystore.FileStorage
		old  []*keystore.KeyStore // closed
		lost []*keystore.KeyStore // no longer referenced
		ops  []int
		hold bool
	}
	procs := []*proc{{n: host}}
	for i := 1; i < np; i++ {
		procs = append(procs, &proc{n: w.NewProc(fmt.Sprintf("p%d", i), host)})
	}
	acked := map[int]string{}
	may := map[int][]string{}
	holder := -1
	faulty := sh.Chance(1, 3)
	if faulty {
		for k, p := range procs {
			p.n.Faults = r.S(fmt.Sprintf("diskfault%d", k))
		}
	}
	run := func(k int, s *simrt.Stream) {
		p := procs[k]
		if p.fs == nil || s.Chance(1, 4) && p.ks == nil {
			p.fs = keystore.NewFileStorage(ksPath)
		}
		switch s.Weighted(6, 4, 4, 2, 2, 1) {
		case 5: // forgotten without being closed: held until it is collected
			if p.ks != nil {
				p.lost = append(p.lost, p.ks)
				p.ks = nil
				r.Probe("forgotten")
			}
		case 4: // a key store is used after it was closed
			if len(p.old) == 0 {
				return
			}
			key := s.Draw(len(keySks))
			ks := p.old[s.Draw(len(p.old))]
			if _, err := ks.ImportKey(keySks[key], []byte("late")); err == nil {
				r.Violate("closed", "a closed key store acknowledges a new key")
			}
			r.Probe("used_after_close")
		case 0: // open
			if p.ks != nil {
				return
			}
			had := holder
			f0 := faultTotal(w)
			if faulty && s.Chance(1, 4) {
				p.n.Rates = simrt.DiskRates{ReadErr: 400, OpenErr: 200}
			}
			ks, err := keystore.NewKeyStore(p.fs, fastKeys)
			p.n.Rates = simrt.DiskRates{}
			if err != nil {
				r.Probe("refused")
				if faultTotal(w) > f0 {
					r.Probe("fault_during_open")
					return
				}
				if !errors.Is(err, keystore.ErrStorageLock) {
					r.Violate("open", "opening fails with: %v", err)
				}
				if had == -1 && np == 1 {
					r.Violate("open", "refused although nobody holds it")
				}
				return
			}
			if holder != -1 {
				r.Violate("two-holders", "process %d opened the key store while process %d holds it open", k, holder)
			}
			holder, p.ks = k, ks
			w.Log("p%d holds", k)
			checkStore(r, ks, acked, may, "on opening")
		case 1: // add
			if p.ks == nil {
				return
			}
			key := s.Draw(len(keySks))
			pass := fmt.Sprintf("p%d", s.Draw(2))
			may[key] = append(may[key], pass)
			_, err := p.ks.ImportKey(keySks[key], []byte(pass))
			if err != nil {
				r.Violate("add", "the holder of the key store cannot add a key: %v", err)
			}
			acked[key] = pass
			may[key] = nil
		case 2: // close
			if p.ks == nil {
				return
			}
			ks := p.ks
			p.ks = nil
			holder = -1
			w.Log("p%d closes", k)
			if err := ks.Close(); err != nil {
				r.Violate("close", "closing: %v", err)
			}
			p.old = append(p.old, ks)
			if s.Chance(1, 4) {
				if err := ks.Close(); err != nil {
					w.Log("second close: %v", err)
				}
			}
		case 3: // the collector finds the stores nobody references
			for _, ks := range p.old {
				w.GC(ks)
			}
			p.old = nil
			for len(p.lost) > 0 {
				ks := p.lost[0]
				p.lost = p.lost[1:]
				holder = -1
				w.GC(ks)
			}
			if p.ks != nil && s.Chance(1, 3) {
				ks := p.ks
				p.ks = nil
				holder = -1
				w.GC(ks)
			}
		}
	}
	for _, i := range r.Ops(4, 40) {
		k := r.Op(i).Draw(np)
		procs[k].ops = append(procs[k].ops, i)
	}
	var ts []*simrt.Task
	for k := range procs {
		k := k
		p := procs[k]
		if k > 0 && sh.Chance(1, 4) {
			p.n.CrashAfter(CrashDist(sh), false)
			p.n.OnCrash(func() {
				if holder == k {
					holder = -1
				}
				p.ks, p.lost = nil, nil
			})
		}
		ts = append(ts, w.Go(p.n, "main", func() {
			for _, i := range p.ops {
				run(k, r.Op(i))
			}
		}))
	}
	r.JoinAll("process", ts...)
	// an addition cut off by a crash is settled by the next opening; nobody
	// holds the store once the processes are gone
	for _, p := range procs {
		p.n.Rates = simrt.DiskRates{}
		p.n.CrashAfter(0, false)
		if p.n.Dead() {
			p.n.Restart()
		}
	}
	for k, p := range procs {
		for _, ks := range p.lost {
			ks := ks
			r.Call(p.n, "collect", func() { w.GC(ks) })
		}
		if p.ks != nil {
			r.Call(p.n, "close", func() {
				if err := p.ks.Close(); err != nil {
					r.Violate("close", "closing: %v", err)
				}
				holder = -1
				p.ks = nil
			})
		}
		_ = k
	}
	r.Call(procs[np-1].n, "last", func() {
		ks, err := keystore.NewKeyStore(keystore.NewFileStorage(ksPath), fastKeys)
		if err != nil {
			r.Violate("stuck", "nobody holds the key store, yet it cannot be opened: %v", err)
		}
		checkStore(r, ks, acked, may, "at the end")
	})
}

func runK03(r *Run) {
	r.Profile()
	w := r.W
	sh := r.S("shape")
	n := w.NewNode("host")
	w.Exec(n, "mkdir", func() { _ = simrt.MkdirAll("/keys", 0700); n.FS.Sync() })
	var ks *keystore.KeyStore
	nk := sh.Range(1, 3)
	keySks, keyPks := keySks, keyPks
	if sh.Chance(1, 10) { // many keys, all of them unlocked
		keySks, keyPks, nk = manySks, manyPks, sh.Range(17, 39)
		r.Probe("many_keys")
	}
	mem := sh.Chance(1, 3)
	ms := keystore.MemStorage{}
	storage := func() keystore.Storage {
		if mem {
			return &ms
		}
		return keystore.NewFileStorage(ksPath)
	}
	altered := false
	unlocked := map[int]int64{} // key -> tick of completed unlock
	tried := map[int]bool{}     // an unlock with the right passphrase has begun
	clock := int64(0)
	tick := func() int64 { clock++; return clock }
	closedAt, closing := int64(0), int64(0)
	lastTry, trying := map[int]int64{}, map[int]int{}
	reset := func() {
		unlocked, tried = map[int]int64{}, map[int]bool{}
		closedAt, closing = 0, 0
		lastTry, trying = map[int]int64{}, map[int]int{}
	}
	r.Call(n, "open", func() {
		var err error
		ks, err = keystore.NewKeyStore(storage(), fastKeys)
		if err != nil {
			r.Violate("open", "%v", err)
		}
		for i := 0; i < nk; i++ {
			if _, err := ks.ImportKey(keySks[i], []byte(fmt.Sprintf("p%d", i))); err != nil {
				r.Violate("add", "%v", err)
			}
		}
		if nk > 4 {
			for i := 0; i < nk; i++ {
				if err := ks.UnlockKey(&keyPks[i], []byte(fmt.Sprintf("p%d", i))); err != nil {
					r.Violate("unlock", "a key does not unlock with its passphrase: %v", err)
				}
				tried[i], unlocked[i] = true, tick()
				lastTry[i] = tick()
			}
		}
	})
	// a prefix with room behind it, as a caller may have
	prefix := append(make([]byte, 0, 256), "prefix:"...)
	prefix0 := append([]byte{}, prefix...)
	op := func(s *simrt.Stream) {
		k := s.Draw(nk)
		pk := keyPks[k]
		inv := tick()
		canSign := func(err error, what string) bool {
			if err == nil {
				if !tried[k] {
					r.Violate("gate", "%s works with a key that was never unlocked", what)
				}
				if closedAt != 0 && closedAt < inv && lastTry[k] < closing {
					r.Violate("gate", "%s works after the key store was closed", what)
				}
				return true
			}
			r.Probe("refused")
			if u := unlocked[k]; u != 0 && u < inv && closing == 0 {
				r.Violate("gate", "%s fails with an unlocked key: %v", what, err)
			}
			return false
		}
		switch s.Weighted(4, 2, 3, 3, 3, 2, 1) {
		case 0:
			if !altered {
				tried[k] = true
			}
			lastTry[k] = 1 << 60
			trying[k]++
			err := ks.UnlockKey(&pk, []byte(fmt.Sprintf("p%d", k)))
			if trying[k]--; trying[k] == 0 {
				lastTry[k] = tick()
			}
			if err != nil && !altered && closing == 0 {
				r.Violate("unlock", "a key does not unlock with its passphrase: %v", err)
			}
			if err == nil {
				tried[k] = true
				unlocked[k] = tick()
				if altered {
					sk, err := ks.ExportKey(&pk)
					if err == nil && *sk != keySks[k] {
						r.Violate("key", "altered stored data unlocks a different key under this public key")
					}
				}
			} else {
				r.Probe("refused")
			}
		case 1:
			for _, p := range []string{"", fmt.Sprintf("p%d", k+1), "P0"} {
				if err := ks.UnlockKey(&pk, []byte(p)); err == nil {
					r.Violate("unlock", "a key unlocks with a wrong passphrase")
				}
			}
			r.Probe("refused")
			other := keyPks[len(keyPks)-1]
			if err := ks.UnlockKey(&other, []byte("p0")); err == nil {
				r.Violate("unlock", "a key that is not stored unlocks")
			}
		case 2:
			m := big.NewInt(int64(s.Draw(1000)))
			sig, err := ks.SignElem(&pk, m)
			if canSign(err, "signing an element") {
				ok, err := keystore.VerifySignatureElem(&pk, m, sig)
				if err != nil || !ok {
					r.Violate("signature", "a signature does not verify under its key: %v", err)
				}
				if ok, _ := keystore.VerifySignatureElem(&pk, new(big.Int).Add(m, big.NewInt(1)), sig); ok {
					r.Violate("signature", "a signature verifies for another element")
				}
			}
		case 3:
			msg := s.Bytes(s.Draw(40))
			t0 := simrt.Now().Unix()
			sig, date, err := ks.Sign(&pk, prefix, msg)
			t1 := simrt.Now().Unix()
			if canSign(err, "signing a message") {
				if date < t0 || date > t1 {
					r.Violate("signature", "the date of a signature is not the time it was made")
				}
				ok, err := keystore.VerifySignature(&pk, sig, prefix0[:len(prefix0):len(prefix0)], date, msg)
				if err != nil || !ok {
					r.Violate("signature", "a signed message does not verify: %v", err)
				}
				if ok, err := keystore.VerifySignature(&pk, sig, prefix, date, msg); err != nil || !ok {
					r.Violate("signature", "a signed message does not verify when others verify too: %v", err)
				}
				if ok, _ := keystore.VerifySignature(&pk, sig, prefix, date+1, msg); ok {
					r.Violate("signature", "a signature verifies for another date")
				}
				if ok, _ := keystore.VerifySignature(&pk, sig, prefix, date, append([]byte{1}, msg...)); ok {
					r.Violate("signature", "a signature verifies for another message")
				}
			}
		case 4:
			msg := s.Bytes(s.Draw(40))
			sig, err := ks.SignRaw(&pk, msg)
			if canSign(err, "signing bytes") {
				if ok, err := keystore.VerifySignatureRaw(&pk, sig, msg); err != nil || !ok {
					r.Violate("signature", "signed bytes do not verify: %v", err)
				}
				o := keyPks[(k+1)%len(keyPks)]
				if ok, _ := keystore.VerifySignatureRaw(&o, sig, msg); ok {
					r.Violate("signature", "a signature verifies under another key")
				}
			}
		case 5:
			sk, err := ks.ExportKey(&pk)
			if canSign(err, "exporting") {
				c := *sk
				if c != keySks[k] && closing == 0 {
					r.Violate("key", "the exported key is not the key imported")
				}
			}
		case 6:
			if s.Chance(1, 2) {
				return
			}
			if closing == 0 {
				closing = tick()
			}
			if err := ks.Close(); err != nil {
				w.Log("close: %v", err)
			}
			if closedAt == 0 {
				closedAt = tick()
			}
		}
		if !bytes.Equal(prefix, prefix0) {
			r.Violate("input", "signing changed the caller's prefix")
		}
		r.State(len(unlocked), closing != 0, altered)
	}
	for round := 0; round < sh.Range(1, 3); round++ {
		ntask := sh.Range(1, 3)
		lanes := make([][]int, ntask)
		if round == 0 {
			r.Ops(4, 30)
		}
		for j, i := range r.Blocks {
			if j%3 == round {
				k := r.Op(i).Draw(ntask)
				lanes[k] = append(lanes[k], i)
			}
		}
		var ts []*simrt.Task
		for k := range lanes {
			k := k
			ts = append(ts, w.Go(n, fmt.Sprintf("t%d", k), func() {
				for _, i := range lanes[k] {
					op(r.Op(i))
				}
			}))
		}
		r.JoinAll("user", ts...)
		r.Call(n, "reopen", func() {
			if closedAt == 0 {
				_ = ks.Close()
			}
			reset()
			if sh.Chance(1, 2) {
				altered = true
				var b []byte
				if mem {
					b = append([]byte{}, ms...)
				} else {
					b, _ = n.FS.Peek(ksPath)
					b = append([]byte{}, b...)
				}
				b = alterStore(b, sh)
				w.Count("fault.stored_data_altered")
				if mem {
					ms = b
				} else {
					n.FS.Put(ksPath, b)
				}
			}
			k2, err := keystore.NewKeyStore(storage(), fastKeys)
			if err != nil {
				if !altered {
					r.Violate("open", "%v", err)
				}
				r.Probe("refused")
				ks = nil
				return
			}
			ks = k2
		})
		if ks == nil {
			return
		}
	}
}

// alterStore damages stored key data without touching its cost parameters.
func alterStore(b []byte, s *simrt.Stream) []byte {
	switch s.Draw(3) {
	case 0: // two keys' data swapped
		var at []int
		for i := 0; ; {
			j := bytes.Index(b[i:], []byte(`:{"Salt"`))
			if j < 0 {
				break
			}
			at = append(at, i+j)
			i += j + 1
		}
		if len(at) >= 2 {
			e1 := bytes.IndexByte(b[at[0]:], '}') + at[0] + 1
			e2 := bytes.IndexByte(b[at[1]:], '}') + at[1] + 1
			v1, v2 := string(b[at[0]:e1]), string(b[at[1]:e2])
			return []byte(string(b[:at[0]]) + v2 + string(b[e1:at[1]]) + v1 + string(b[e2:]))
		}
		return b
	case 1: // a hex digit of some ciphertext, salt, nonce or name
		for t := 0; t < 50 && len(b) > 0; t++ {
			i := s.Draw(len(b))
			if b[i] >= 'a' && b[i] <= 'e' && i > 0 && (b[i-1] >= '0' && b[i-1] <= '9' || b[i-1] >= 'a' && b[i-1] <= 'f') {
				b[i]++
				return b
			}
		}
		return b
	default:
		return b[:s.Draw(len(b)+1)]
	}
}
