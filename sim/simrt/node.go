package simrt

import (
	"fmt"
	"reflect"
	"runtime"
)

// Node is a process of the simulated deployment: its tasks die together and
// only its disk survives a crash.
type Node struct {
	Name       string
	w          *World
	Inc        int
	dead       bool
	FS         *FS
	Skew       int64
	crashIn    int64
	crashPower bool
	onCrash    []func()
	Faults     *Stream // disk faults; nil: none
	Rates      DiskRates
	Down       bool // unreachable / network partitioned
}

// DiskRates are chances per 1000 operations.
type DiskRates struct {
	ReadErr, WriteErr, ShortWrite, SyncErr, OpenErr, RenameErr int
}

func (w *World) NewNode(name string) *Node {
	n := &Node{Name: name, w: w}
	n.FS = newFS(n)
	w.Nodes = append(w.Nodes, n)
	return n
}

// NewProc is another process on the same machine: it shares the disk.
func (w *World) NewProc(name string, on *Node) *Node {
	n := &Node{Name: name, w: w, FS: on.FS}
	w.Nodes = append(w.Nodes, n)
	return n
}

// CrashAfter arms a crash k scheduling points from now (0 disarms).
func (n *Node) CrashAfter(k int64, power bool) { n.crashIn = k; n.crashPower = power }
func (n *Node) Armed() bool                    { return n.crashIn > 0 }

// Crash kills every task of the node now.  With power, data not synced to the
// disk is lost or torn.
func (n *Node) Crash(power bool) {
	w := n.w
	n.dead = true
	n.crashIn = 0
	if power {
		w.Stats["fault.power_loss"]++
	} else {
		w.Stats["fault.process_crash"]++
	}
	w.Log("CRASH %s power=%v", n.Name, power)
	for _, t := range w.tasks {
		if t.node == n && !t.finished {
			t.killed = true
			t.crashed = true
			if t.blocked {
				t.blocked = false
				w.runq = append(w.runq, t)
			}
		}
	}
	var keep []finalizer
	for _, f := range w.finals {
		if f.node != n {
			keep = append(keep, f)
		}
	}
	w.finals = keep
	if power {
		for _, m := range w.Nodes {
			if m != n && m.FS == n.FS && !m.dead {
				m.Crash(false) // the other processes of the machine
			}
		}
	}
	n.FS.crash(n, power)
	cs := n.onCrash
	n.onCrash = nil
	for _, f := range cs {
		f()
	}
}

// Restart makes the node's next incarnation usable.
func (n *Node) Restart() {
	n.Inc++
	n.dead = false
	n.crashIn = 0
	n.w.Log("RESTART %s inc=%d", n.Name, n.Inc)
}

func (n *Node) Dead() bool { return n.dead }

// OnCrash registers clean-up of simulator resources.
func (n *Node) OnCrash(f func()) { n.onCrash = append(n.onCrash, f) }

// gone reports that the current task belongs to a node that crashed: whatever
// it still does while unwinding has no effect.
func gone() bool {
	w := W
	if w == nil || w.cur == nil {
		return false
	}
	return w.cur.exiting || w.cur.killed
}

// SetFinalizer records the finalizer; the garbage collector is an event of
// the simulation (World.GC).
func SetFinalizer(obj interface{}, fn interface{}) {
	w := W
	if w == nil || fn == nil {
		if fn == nil && w != nil {
			var keep []finalizer
			for _, f := range w.finals {
				if f.obj != obj {
					keep = append(keep, f)
				}
			}
			w.finals = keep
		}
		return
	}
	v := reflect.ValueOf(fn)
	o := reflect.ValueOf(obj)
	w.finals = append(w.finals, finalizer{node: curNode(), obj: obj, fn: func() { v.Call([]reflect.Value{o}) }})
}

// GC runs the finalizers of an object the program no longer references.
func (w *World) GC(obj interface{}) bool {
	for i, f := range w.finals {
		if f.obj == obj {
			w.finals = append(w.finals[:i:i], w.finals[i+1:]...)
			w.Stats["fault.finalizer_run"]++
			f.fn()
			return true
		}
	}
	return false
}

func Gosched() {
	if W != nil {
		W.yield()
		return
	}
	runtime.Gosched()
}

// GoCall is a go statement.
func GoCall(f interface{}, args ...interface{}) {
	w := W
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
		} else if v := reflect.ValueOf(a); v.Type().ConvertibleTo(pt) && !v.Type().AssignableTo(pt) {
			in[i] = v.Convert(pt)
		} else {
			in[i] = v
		}
	}
	if w != nil && w.initing {
		w.spawn(w.initFor, "init", func() { fv.Call(in) })
		return
	}
	if w == nil || w.cur == nil {
		go fv.Call(in)
		return
	}
	if gone() {
		return
	}
	w.spawn(w.cur.node, fmt.Sprintf("go%d", w.nextID), func() { fv.Call(in) })
}
