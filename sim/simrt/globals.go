package simrt

import (
	"reflect"
	"sort"
)

// Package variables of the code under test that hold state.  Every simulated
// process has its own: they are made afresh when it starts and exchanged when
// the scheduler goes from one process to another.

type global struct {
	pkg, order int
	vars       []reflect.Value
	init       func()
}

var (
	globals   []*global
	globalPkg = map[string]int{}
	globalsOK bool
)

// Global announces package variables (pointers to them), the order of their
// initialisation within the package, and what initialises them.
func Global(pkg string, order int, ptrs []interface{}, init func()) {
	n, ok := globalPkg[pkg]
	if !ok {
		n = len(globalPkg)
		globalPkg[pkg] = n
	}
	g := &global{pkg: n, order: order, init: init}
	for _, p := range ptrs {
		g.vars = append(g.vars, reflect.ValueOf(p).Elem())
	}
	globals = append(globals, g)
	globalsOK = false
}

// HasGlobals tells if the code under test keeps state in package variables.
func HasGlobals() bool { return len(globals) > 0 }

type process struct {
	n   *Node
	inc int
}

func (w *World) freshGlobals(p process) {
	cur := w.cur
	w.cur = nil
	w.initing, w.initFor = true, p.n
	for _, g := range globals {
		for _, v := range g.vars {
			v.Set(reflect.Zero(v.Type()))
		}
	}
	for _, g := range globals {
		if g.init != nil {
			func() {
				defer func() { _ = recover() }()
				g.init()
			}()
		}
	}
	w.initing, w.initFor = false, nil
	w.cur = cur
}

// enter makes the package variables those of the task's process.
func (w *World) enter(t *Task) {
	if len(globals) == 0 {
		return
	}
	p := process{t.node, t.inc}
	if w.memory == nil {
		if !globalsOK {
			sort.SliceStable(globals, func(i, j int) bool {
				a, b := globals[i], globals[j]
				return a.pkg < b.pkg || a.pkg == b.pkg && a.order < b.order
			})
			globalsOK = true
		}
		w.memory = map[process][]reflect.Value{}
		w.inMemory = p
		w.freshGlobals(p)
		return
	}
	if p == w.inMemory {
		return
	}
	var old []reflect.Value
	for _, g := range globals {
		for _, v := range g.vars {
			c := reflect.New(v.Type()).Elem()
			c.Set(v)
			old = append(old, c)
		}
	}
	w.memory[w.inMemory] = old
	w.inMemory = p
	mine, ok := w.memory[p]
	if !ok {
		w.freshGlobals(p)
		return
	}
	i := 0
	for _, g := range globals {
		for _, v := range g.vars {
			v.Set(mine[i])
			i++
		}
	}
}
