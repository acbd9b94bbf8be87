// Package env holds the simulated environment of the code under test.
package env

import (
	"errors"

	"github.com/iden3/go-iden3-core/db"

	"verif.local/sim/simrt"
)

// ErrIO is what an injected storage fault returns.
var ErrIO = errors.New("simulated storage failure")

// FaultCtl decides when the storage fails; rates are per 1000 calls.
type FaultCtl struct {
	W                  *simrt.World
	S                  *simrt.Stream
	Get, NewTx, Commit int
	CommitAmbiguous    int // the commit happens, but an error is reported
	Off                bool
	Fired, FiredA      int
	GetN               int64
}

func (c *FaultCtl) hit(rate int, kind string) bool {
	if c == nil || c.Off || rate <= 0 || !c.W.InTask() {
		return false
	}
	if c.S.Chance(rate, 1000) {
		c.Fired++
		c.W.Stats["fault.storage_"+kind]++
		c.W.Log("FAULT storage %s", kind)
		return true
	}
	return false
}

// FaultStore is a db.Storage over a real backend whose calls may fail.
type FaultStore struct {
	In  db.Storage
	Ctl *FaultCtl
}

func (f *FaultStore) NewTx() (db.Tx, error) {
	if f.Ctl.hit(f.Ctl.NewTx, "newtx_error") {
		return nil, ErrIO
	}
	tx, err := f.In.NewTx()
	if err != nil {
		return nil, err
	}
	return &FaultTx{tx, f.Ctl}, nil
}
func (f *FaultStore) WithPrefix(p []byte) db.Storage { return &FaultStore{f.In.WithPrefix(p), f.Ctl} }
func (f *FaultStore) Get(k []byte) ([]byte, error) {
	if f.Ctl.hit(f.Ctl.Get, "get_error") {
		return nil, ErrIO
	}
	return f.In.Get(k)
}
func (f *FaultStore) List(n int) ([]db.KV, error) {
	if f.Ctl.hit(f.Ctl.Get, "get_error") {
		return nil, ErrIO
	}
	return f.In.List(n)
}
func (f *FaultStore) Close()       { f.In.Close() }
func (f *FaultStore) Info() string { return f.In.Info() }
func (f *FaultStore) Iterate(g func([]byte, []byte) (bool, error)) error {
	if f.Ctl.hit(f.Ctl.Get, "get_error") {
		return ErrIO
	}
	return f.In.Iterate(g)
}

type FaultTx struct {
	In  db.Tx
	ctl *FaultCtl
}

func (t *FaultTx) Get(k []byte) ([]byte, error) {
	if t.ctl.hit(t.ctl.Get, "get_error") {
		return nil, ErrIO
	}
	return t.In.Get(k)
}
func (t *FaultTx) Put(k, v []byte) { t.In.Put(k, v) }
func (t *FaultTx) Add(o db.Tx) {
	if f, ok := o.(*FaultTx); ok {
		o = f.In
	}
	t.In.Add(o)
}
func (t *FaultTx) Commit() error {
	if t.ctl.hit(t.ctl.Commit, "commit_error") {
		t.In.Close()
		return ErrIO
	}
	if err := t.In.Commit(); err != nil {
		return err
	}
	if t.ctl.hit(t.ctl.CommitAmbiguous, "commit_unacknowledged") {
		t.ctl.FiredA++
		return ErrIO
	}
	return nil
}
func (t *FaultTx) Close() { t.In.Close() }
