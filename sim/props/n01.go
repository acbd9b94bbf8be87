package props

import (
	"fmt"
	"sort"

	noncedb "github.com/iden3/go-iden3-core/utils/noncedb"

	"verif.local/sim/simrt"
)

func init() {
	register(&Prop{ID: "N01", Run: runN01,
		Rule:        "each run shares one nonce database between 1-4 tasks that add nonces (fresh or chosen, with lifetimes from negative to minutes), attach data, look them up, consume them and sweep, while simulated time passes between and inside calls, jumps forward, and (separately marked runs) backward; every answer must be possible for a set of nonces with expiry. Non-trivial: a nonce was consumed or had expired when it was asked for.",
		Nontrivial:  []string{"consumed", "expired"},
		Real:        []string{"utils/noncedb"},
		Stub:        []string{"clock", "goroutine scheduler", "entropy"},
		Assumptions: []string{"statements are atomic except for map accesses"},
	})
}

type nLife struct {
	inv, res   int64 // of the addition
	exp        int64 // expiry second; bounds when the clock moved during the call
	expHi      int64
	obj        *noncedb.NonceObj
	aux        interface{}
	auxRes     []nEvent
	dInv, dRes int64 // successful consumption
	chosen     bool
}

type nEvent struct {
	inv, res int64
	v        interface{}
	ok       bool
}

func runN01(r *Run) {
	r.Profile()
	w := r.W
	sh := r.S("shape")
	node := w.NewNode("n")
	ndb := noncedb.NewNonceDb()
	names := sh.Range(1, 4)
	ntask := sh.Range(1, 4)
	backward := sh.Chance(1, 4)
	strict := !backward || ntask == 1 // else the clock may dip within a call
	lives := map[string][]*nLife{}
	type look struct {
		name       string
		inv, res   int64
		t0, t1     int64
		obj        *noncedb.NonceObj
		ok, delete bool
	}
	var looks []look
	var refused []look
	clock := int64(0)
	tick := func() int64 { clock++; return clock }
	now := func() int64 { return simrt.Now().Unix() }
	maxSeen := int64(0) // latest time the clock ever showed
	op := func(s *simrt.Stream) {
		if n := now(); n > maxSeen {
			maxSeen = n
		}
		name := fmt.Sprintf("n%d", s.Draw(names))
		switch s.Weighted(4, 1, 5, 4, 2, 1, 3, 1) {
		case 0, 1:
			delta := []int64{5, 0, 1, -1, 60, 2}[s.Draw(6)]
			l := &nLife{inv: tick()}
			t0 := now()
			o := ndb.Add(name, delta, nil)
			t1 := now()
			l.res = tick()
			if t1 < t0 {
				t0, t1 = t1, t0
			}
			if o == nil {
				refused = append(refused, look{name: name, inv: l.inv, res: l.res, t0: t0, t1: t1})
				return
			}
			if o.Nonce != name || strict && (o.Expiration < t0+delta || o.Expiration > t1+delta) {
				r.Violate("add", "a nonce added with lifetime %d between %d and %d expires at %d", delta, t0, t1, o.Expiration)
			}
			l.exp, l.obj = o.Expiration, o
			lives[name] = append(lives[name], l)
			w.Log("add %s exp %d", name, l.exp-t0)
		case 2, 3:
			del := s.Chance(2, 5)
			k := look{name: name, inv: tick(), t0: now(), delete: del}
			if del {
				k.obj, k.ok = ndb.SearchAndDelete(name)
			} else {
				k.obj, k.ok = ndb.Search(name)
			}
			k.t1, k.res = now(), tick()
			if k.t1 < k.t0 {
				k.t0, k.t1 = k.t1, k.t0
			}
			w.Log("look %s del=%v -> %v", name, del, k.ok)
			looks = append(looks, k)
		case 4:
			inv := tick()
			v := s.Range(1, 1000)
			ok := ndb.AddAux(name, v)
			w.Log("aux %s -> %v", name, ok)
			_ = inv
		case 5:
			ndb.DeleteOld()
		case 6:
			simrt.Sleep(simDur(int64(s.Draw(8)) * 700e6))
		case 7:
			if backward {
				node.Skew -= int64(s.Range(1, 20)) * 1e9
				w.Count("fault.clock_backward")
			} else {
				node.Skew += int64(s.Range(1, 20)) * 1e9
				w.Count("fault.clock_forward")
			}
		}
	}
	// random nonces never repeat
	r.Call(node, "new", func() {
		seen := map[string]bool{}
		for i := 0; i < 4; i++ {
			o := ndb.New(30, i)
			if o == nil || seen[o.Nonce] || len(o.Nonce) != 66 {
				r.Violate("new", "a new random nonce is missing or repeated: %v", o)
			}
			seen[o.Nonce] = true
			if o.Aux != i {
				r.Violate("new", "a new nonce lost its data")
			}
			if ndb.AddAux(o.Nonce, "x") {
				r.Violate("aux", "data attached to a nonce was replaced")
			}
		}
		// many lookups so that the opportunistic sweep runs during the run
		for i := sh.Draw(128); i > 0; i-- {
			ndb.Search("none")
		}
	})
	lanes := make([][]int, ntask)
	for _, i := range r.Ops(4, 40) {
		k := r.Op(i).Draw(ntask)
		lanes[k] = append(lanes[k], i)
	}
	var ts []*simrt.Task
	for k := range lanes {
		k := k
		if len(lanes[k]) > 0 {
			ts = append(ts, w.Go(node, fmt.Sprintf("t%d", k), func() {
				for _, i := range lanes[k] {
					op(r.Op(i))
				}
			}))
		}
	}
	r.JoinAll("concurrent", ts...)
	// decide
	for _, k := range looks {
		var ls []*nLife
		for _, l := range lives[k.name] {
			ls = append(ls, l)
		}
		if k.ok {
			if k.obj == nil {
				r.Violate("lookup", "a found nonce has no object")
			}
			var l *nLife
			for _, x := range ls {
				if x.obj == k.obj {
					l = x
				}
			}
			if l == nil || l.inv > k.res {
				r.Violate("lookup", "a lookup finds a nonce that was never added")
			}
			if strict && l.exp < k.t0 {
				r.Violate("expired", "a nonce that expired at %d is accepted at %d", l.exp, k.t0)
			}
			if k.delete {
				r.Probe("consumed")
				if l.dInv != 0 {
					r.Violate("replay", "one nonce was consumed twice")
				}
				l.dInv, l.dRes = k.inv, k.res
			}
		}
	}
	for _, k := range looks {
		ls := lives[k.name]
		if k.ok {
			for _, l := range ls {
				if l.obj == k.obj && l.dRes != 0 && l.dRes < k.inv {
					r.Violate("replay", "a nonce is found after it was consumed")
				}
			}
			continue
		}
		// not found: some addition that must be visible?
		for _, l := range ls {
			if l.res >= k.inv {
				continue
			}
			if l.exp < k.t1 || backward && l.exp < maxSeen+40 {
				r.Probe("expired")
				continue
			}
			gone := l.dInv != 0 && l.dInv < k.res
			for _, k2 := range looks {
				// a consumption that reported "expired" cannot be of a live one
				if k2.delete && !k2.ok && k2.obj == l.obj && l.obj != nil && k2.inv < k.res && (backward || l.exp < k2.t1) {
					gone = true
				}
			}
			if !gone {
				r.Violate("lost", "a nonce that is neither expired (by %ds) nor consumed is not found", l.exp-k.t1)
			}
		}
	}
	for _, k := range refused {
		// refused only if one is (or was, until swept) there
		ok := false
		for _, l := range lives[k.name] {
			if l.inv < k.res && (l.dRes == 0 || l.dRes > k.inv) {
				ok = true
			}
		}
		if !ok {
			r.Violate("add", "an addition is refused although the nonce is not in use")
		}
	}
	var ks []string
	for k := range lives {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for i, a := range lives[k] {
			for _, b := range lives[k][i+1:] {
				// two lives of one nonce overlap only if the first was consumed or had expired
				if a.res < b.inv && a.dRes == 0 && a.exp >= maxSeen+40 {
					r.Violate("add", "a nonce in use was added again")
				}
			}
		}
		r.State(k, len(lives[k]))
	}
}
