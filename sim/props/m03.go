package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"

	"verif.local/sim/env"
	"verif.local/sim/simrt"
)

func init() {
	register(&Prop{ID: "M03", Setup: mtSetup, Run: runM03,
		Rule:        "each run grows a source tree, then several times dumps some version of it (tree dump or claims dump) through a writer that may fail or run out of space, and imports the bytes into an empty or non-empty target tree (memory or LevelDB) through a reader that delivers short reads, fails, or ends early, with failing storage calls and crashes; a reported success must mean the complete version arrived (also after reopening the target), a reported failure that the target is as before. Non-trivial: a stream or storage fault or a crash hit a transfer.",
		Nontrivial:  []string{"stream_fault", "storage_fault", "crash_during_import"},
		Real:        []string{"merkletree", "db", "goleveldb engine", "poseidon"},
		Stub:        []string{"disk", "the pipe between dump and import"},
		Assumptions: []string{"bytes that arrive are not altered (an import does not recompute hashes, by design)"},
	})
}

var errPipe = errors.New("simulated broken pipe")

type simWriter struct {
	b     bytes.Buffer
	limit int // -1: none
	hit   bool
	once  bool // works again after one failure
}

func (w *simWriter) Write(p []byte) (int, error) {
	simrt.Gosched()
	if w.limit >= 0 && w.b.Len()+len(p) > w.limit {
		n := w.limit - w.b.Len()
		w.b.Write(p[:n])
		w.hit = true
		w.limit = w.b.Len()
		if w.once {
			w.limit = -1
		}
		return n, errPipe
	}
	return w.b.Write(p)
}

type simReader struct {
	b   []byte
	s   *simrt.Stream
	max int
	end error
	hit bool
}

func (r *simReader) Read(p []byte) (int, error) {
	simrt.Gosched()
	if len(r.b) == 0 {
		if r.end != io.EOF {
			r.hit = true
		}
		return 0, r.end
	}
	n := len(p)
	if r.max > 0 {
		k := 1 + r.s.Draw(r.max)
		if n > k {
			n = k
		}
	}
	if n > len(r.b) {
		n = len(r.b)
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	if len(r.b) == 0 && r.max > 0 && r.s.Chance(1, 2) {
		return n, r.end
	}
	return n, nil
}

func runM03(r *Run) {
	r.Profile()
	sh := r.S("shape")
	node := r.W.NewNode("target")
	level := sh.Chance(1, 2)
	lv := []int{140, 40, 240}[sh.Draw(3)]
	ctl := &env.FaultCtl{W: r.W, S: r.S("storagefault")}
	if sh.Chance(1, 3) {
		ctl.Get, ctl.NewTx, ctl.Commit = 5, 50, 200
	}
	cast := mtCast(sh, []int{4, 9, 16, 40}[sh.Draw(4)])
	var src *merkletree.MerkleTree
	var roots []mhash
	var sets [][]mentry
	r.Call(nil, "source", func() {
		var err error
		src, err = merkletree.NewMerkleTree(db.NewMemoryStorage(), lv)
		r.Must(err, "source")
		roots, sets = []mhash{{}}, [][]mentry{nil}
		var es []mentry
		n := sh.Draw(len(cast) + 1)
		for _, ci := range cast[:n] {
			e := mtPool[ci][sh.Draw(2)]
			if err := src.AddEntry(&merkletree.Entry{Data: e.data}); err != nil {
				r.Violate("add", "%v", err)
			}
			es = append(es[:len(es):len(es)], e)
			roots, sets = append(roots, mhash(*src.RootKey())), append(sets, es)
		}
	})
	var base db.Storage
	var mt *merkletree.MerkleTree
	have := -1 // version the target holds; -2: own entries
	var own []mentry
	var ownRoot mhash
	path := 0
	open := func(missing bool) {
		if level {
			s, err := db.NewLevelDbStorage(fmt.Sprintf("/d%d", path), missing)
			if err != nil {
				r.Violate("open-failed", "%v", err)
			}
			base = s
		} else if !missing {
			base = db.NewMemoryStorage()
		}
		off := ctl.Off
		ctl.Off = true
		var err error
		mt, err = merkletree.NewMerkleTree(&env.FaultStore{In: base, Ctl: ctl}, lv)
		ctl.Off = off
		if err != nil {
			r.Violate("tree-open", "the target tree does not open: %v", err)
		}
	}
	// grow adds one more entry to the target, as a tree that works can.
	grow := func(es []mentry, ci int) {
		ctl.Off = true
		defer func() { ctl.Off = false }()
		e := mtPool[ci][0]
		for _, x := range es {
			if x.hi == e.hi {
				return
			}
		}
		es = append(es[:len(es):len(es)], e)
		if mdepth(es, e) > lv-1 {
			return
		}
		if err := mt.AddEntry(&merkletree.Entry{Data: e.data}); err != nil {
			r.Violate("grow", "the imported tree refuses an addition: %v", err)
		}
		own, ownRoot, have = es, mroot(es, 0), -2
		if got := mhash(*mt.RootKey()); got != ownRoot {
			r.Violate("grow", "the imported tree has a wrong root after an addition")
		}
	}
	cur := func() (mhash, []mentry) {
		switch {
		case have >= 0:
			return roots[have], sets[have]
		case have == -2:
			return ownRoot, own
		}
		return mhash{}, nil
	}
	complete := func(what string, root mhash, es []mentry) {
		off := ctl.Off
		ctl.Off = true
		defer func() { ctl.Off = off }()
		if got := mhash(*mt.RootKey()); got != root {
			r.Violate("root", "%s: the target has root %x, expected %x", what, got[:6], root[:6])
		}
		for _, e := range es {
			hi := merkletree.Hash(e.hi)
			d, err := mt.GetDataByIndex(&hi)
			if err != nil || *d != e.data {
				r.Violate("content", "%s: an entry is missing or wrong in the target: %v", what, err)
			}
		}
		n := 0
		if err := mt.Walk(nil, func(x *merkletree.Node) {
			if x.Type == merkletree.NodeTypeLeaf {
				n++
			}
		}); err != nil || n != len(es) {
			r.Violate("content", "%s: the target holds %d entries of %d (%v)", what, n, len(es), err)
		}
		// it keeps working as a tree
	}
	r.Call(node, "open", func() { open(false) })
	for _, i := range r.Ops(2, 12) {
		s := r.Op(i)
		if s.Chance(1, 4) && have != -1 {
			// a new target
			r.Call(node, "fresh", func() {
				if level {
					base.Close()
				}
				path++
				have = -1
				open(false)
			})
		}
		ver := s.Draw(len(roots))
		if s.Chance(1, 3) {
			ver = len(roots) - 1
		}
		claims := s.Chance(1, 4)
		if claims && have != -1 {
			claims = false
		}
		w := &simWriter{limit: -1}
		rd := &simReader{s: s, end: io.EOF, max: []int{0, 1, 3, 40, 5000}[s.Draw(5)]}
		var derr error
		var lines []string
		r.Call(nil, "dump", func() {
			root := merkletree.Hash(roots[ver])
			rk := &root
			if ver == len(roots)-1 && s.Chance(1, 2) {
				rk = nil
			}
			var ref bytes.Buffer
			if s.Chance(1, 6) { // a root that the tree never had
				un := root
				un[s.Draw(31)] ^= byte(1 + s.Draw(255))
				var err error
				if claims {
					err = src.DumpClaimsIoWriter(&ref, &un)
				} else {
					err = src.DumpTree(&ref, &un)
				}
				if err == nil {
					r.Violate("dump", "a dump (claims=%v) of a root the tree never had reports success", claims)
				}
				r.Probe("unknown_root")
				ref.Reset()
			}
			if claims {
				r.Must(src.DumpClaimsIoWriter(&ref, rk), "dump")
			} else {
				r.Must(src.DumpTree(&ref, rk), "dump")
			}
			if s.Chance(1, 4) {
				w.limit = s.Draw(ref.Len() + 1)
				w.once = s.Chance(1, 3)
			}
			if claims {
				derr = src.DumpClaimsIoWriter(w, rk)
				for _, l := range strings.Split(w.b.String(), "\n") {
					l = strings.Trim(l, "\t\",[]")
					if l != "" {
						lines = append(lines, l)
					}
				}
			} else {
				derr = src.DumpTree(w, rk)
			}
			if w.hit {
				r.Probe("stream_fault")
				if derr == nil {
					r.Violate("dump", "a dump (claims=%v) reports success although its writer failed after %d of %d bytes", claims, w.b.Len(), ref.Len())
				}
			} else if derr != nil {
				r.Violate("dump", "a dump fails: %v", derr)
			}
		})
		b := append([]byte{}, w.b.Bytes()...)
		cut := w.hit
		if !claims && s.Chance(1, 4) && len(b) > 0 {
			k := s.Draw(len(b))
			b = b[:k]
			cut = true
			r.Probe("stream_fault")
			if s.Chance(1, 2) {
				rd.end = errPipe
			}
		}
		rd.b = b
		r.Describe("op %d: version %d (claims=%v) cut=%v bytes=%d into have=%d", i, ver, claims, cut, len(b), have)
		root0, set0 := cur()
		if level && s.Chance(1, 5) {
			node.CrashAfter(CrashDist(s), false)
		}
		var ierr error
		f0 := ctl.Fired
		done := r.Call(node, "import", func() {
			if claims {
				ierr = mt.ImportDumpedClaims(lines)
			} else {
				ierr = mt.ImportTree(rd)
			}
		})
		node.CrashAfter(0, false)
		faulted := ctl.Fired > f0
		if faulted {
			r.Probe("storage_fault")
		}
		if !done {
			r.Probe("crash_during_import")
			node.Restart()
			r.Call(node, "recover", func() {
				ctl.Off = true
				defer func() { ctl.Off = false }()
				open(true)
				got := mhash(*mt.RootKey())
				switch {
				case claims:
					// some of the claims
					var es []mentry
					for _, e := range sets[ver] {
						hi := merkletree.Hash(e.hi)
						if _, err := mt.GetDataByIndex(&hi); err == nil {
							es = append(es, e)
						}
					}
					own, ownRoot, have = es, mroot(es, 0), -2
					complete("after a crash while importing claims", ownRoot, es)
				case got == root0:
					complete("after a crash while importing", root0, set0)
				case got == roots[ver] && !cut:
					have = ver
					complete("after a crash while importing", roots[ver], sets[ver])
				default:
					r.Violate("root", "after a crash while importing the target has root %x", got[:6])
				}
			})
			continue
		}
		r.Call(node, "check", func() {
			switch {
			case claims:
				if ierr != nil && !faulted && !cut {
					r.Violate("import", "importing a claims dump fails: %v", ierr)
				}
				if ierr == nil && !cut {
					have = ver
				} else {
					var es []mentry
					ctl.Off = true
					for _, e := range sets[ver] {
						hi := merkletree.Hash(e.hi)
						if _, err := mt.GetDataByIndex(&hi); err == nil {
							es = append(es, e)
						}
					}
					ctl.Off = false
					own, ownRoot, have = es, mroot(es, 0), -2
				}
			case ierr == nil && cut:
				r.Violate("import", "importing %d bytes of a longer dump reports success", len(b))
			case ierr == nil:
				have = ver
			case !cut && !faulted:
				r.Violate("import", "importing a complete dump fails: %v", ierr)
			}
			root, es := cur()
			complete(fmt.Sprintf("after an import that returned %v", ierr), root, es)
			if s.Chance(1, 2) {
				if level {
					base.Close()
				}
				open(true)
				complete("after reopening", root, es)
			}
			r.State(root)
			if s.Chance(1, 4) {
				grow(es, cast[s.Draw(len(cast))])
			}
		})
	}
}
