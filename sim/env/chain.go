package env

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/eth"
	"github.com/iden3/go-iden3-core/merkletree"

	"verif.local/sim/simrt"
)

// ErrRPC is what an injected failure of the connection to the ethereum node
// returns.
var ErrRPC = errors.New("simulated connection failure to the ethereum node")

// Chain models a blockchain with the contract of identity states, and a
// client of it that satisfies IdenPubOnChainer.  The harness mines blocks and
// reorganises them; the client calls fail, get lost or see an older block.
type Chain struct {
	W      *simrt.World
	S      *simrt.Stream
	Vk     *zktypes.Vk
	Blocks []*Block
	Pool   []*ChainTx // not in a block, in nonce order
	Sent   []*ChainTx // everything ever accepted, in nonce order
	Calls  []*ChainTx // every call of InitState and SetState, lost ones too
	byHash map[common.Hash]*ChainTx
	// chances per 1000 calls
	CallErr, SendLost, RespLost, Stale, TxFail, ProveErr int
	Latency                                              int64
	Off                                                  bool
	Fired                                                int
	// OnSend sees what the identity sends when it is sent.
	OnSend func(t *ChainTx)
	// OnSync is told about each query of an identity state, with the answer.
	OnGet func(id *core.ID, d *proof.IdenStateData)
	// OnBlock is told about each new block.
	OnBlock func(b *Block)
	// OnCall is told about each call of the contract, with the block it was
	// answered from.
	OnCall func(seen uint64, data []byte)
	Eth    *EthNode
	// Vers are all the chains there were, in order, and since when.
	Vers  [][]*Block
	VerAt []int64
}

type Block struct {
	N   uint64
	Ts  int64
	Txs []*ChainTx
	Set []stateSet // the states it sets
	// Good are the transactions that succeeded in it.
	Good map[*ChainTx]bool
}

type stateSet struct {
	id core.ID
	st merkletree.Hash
}

type ChainTx struct {
	Tx           *types.Transaction
	Init         bool
	Id           core.ID
	Genesis, New merkletree.Hash
	Proof        *zktypes.Proof
	Old          merkletree.Hash // of the state it replaced, if it succeeded
	Block        *Block
	Failed       bool // its receipt says so
	FailedOnce   bool // so it said in some chain
	OutOfGas     bool // fails whatever the contract says
	Accepted     bool // the node got it
	Acked        bool // the client was told
	nonce        uint64
	From         common.Address
	Foreign      bool // not of the contract
}

// NewChain starts with a genesis block.
func NewChain(w *simrt.World, s *simrt.Stream, vk *zktypes.Vk) *Chain {
	c := &Chain{W: w, S: s, Vk: vk, byHash: map[common.Hash]*ChainTx{}}
	c.Blocks = []*Block{{N: 0, Ts: w.NowNs() / 1e9}}
	c.Vers, c.VerAt = [][]*Block{c.Blocks}, []int64{0}
	w.ProverFault = func() bool { return c.hitAs(c.ProveErr, "prover_miscalculates") }
	return c
}

func (c *Chain) hit(rate int, kind string) bool { return c.hitAs(rate, "chain_"+kind) }

func (c *Chain) hitAs(rate int, kind string) bool {
	if c.Off || rate <= 0 || !c.W.InTask() {
		return false
	}
	if c.S.Chance(rate, 1000) {
		c.Fired++
		c.W.Cur().Faults++
		c.W.Stats["fault."+kind]++
		c.W.Log("FAULT %s", kind)
		return true
	}
	return false
}

func (c *Chain) wait() {
	if c.Latency > 0 {
		c.W.SleepNs(int64(c.S.Draw(8)+1) * c.Latency / 8)
	} else {
		simrt.IoStep()
	}
}

// Head is the last block.
func (c *Chain) Head() *Block { return c.Blocks[len(c.Blocks)-1] }

// hist is the contract's history of an identity up to a block.
func (c *Chain) hist(id *core.ID, upto uint64) []proof.IdenStateData {
	return HistOf(c.Blocks, id, upto)
}

// HistOf is the history of an identity in a chain up to a block.
func HistOf(blocks []*Block, id *core.ID, upto uint64) []proof.IdenStateData {
	var h []proof.IdenStateData
	for _, b := range blocks {
		if b.N > upto {
			break
		}
		for i := range b.Set {
			if b.Set[i].id == *id {
				n := b.Set[i].st
				h = append(h, proof.IdenStateData{BlockN: b.N, BlockTs: b.Ts, IdenState: &n})
			}
		}
	}
	return h
}

// History is the contract's whole history of an identity.
func (c *Chain) History(id *core.ID) []proof.IdenStateData { return c.hist(id, c.Head().N) }

// Last is the identity's state in the contract now (zero if none).
func (c *Chain) Last(id *core.ID) merkletree.Hash {
	h := c.History(id)
	if len(h) == 0 {
		return merkletree.HashZero
	}
	return *h[len(h)-1].IdenState
}

// ValidProof decides the statement the contract checks.
func (c *Chain) ValidProof(p *zktypes.Proof, id *core.ID, old, new_ *merkletree.Hash) bool {
	return simrt.Verify(c.Vk, p, []*big.Int{id.BigInt(), old.BigInt(), new_.BigInt()})
}

func (c *Chain) apply(b *Block, t *ChainTx) {
	h := c.hist(&t.Id, b.N)
	t.Block = b
	t.Failed = t.OutOfGas
	if t.Foreign {
		b.Txs = append(b.Txs, t)
		return
	}
	var old merkletree.Hash
	if t.Init {
		old = t.Genesis
		if len(h) > 0 {
			t.Failed = true
		}
	} else {
		if len(h) == 0 {
			t.Failed = true
		} else {
			old = *h[len(h)-1].IdenState
			if h[len(h)-1].BlockN == b.N {
				t.Failed = true // one update per block
			}
		}
	}
	if !t.Failed && !c.ValidProof(t.Proof, &t.Id, &old, &t.New) {
		t.Failed = true
	}
	t.Old = old
	b.Txs = append(b.Txs, t)
	if !t.Failed {
		b.Set = append(b.Set, stateSet{t.Id, t.New})
	}
	if t.Failed {
		t.FailedOnce = true
		c.W.Stats["chain.tx_failed"]++
	}
}

// Mine makes the next block out of the first n pooled transactions.
func (c *Chain) Mine(n int) {
	now := c.W.NowNs() / 1e9
	h := c.Head()
	if now <= h.Ts {
		now = h.Ts + 1
	}
	b := &Block{N: h.N + 1, Ts: now}
	c.Blocks = append(c.Blocks, b)
	if n > len(c.Pool) {
		n = len(c.Pool)
	}
	take := c.Pool[:n]
	c.Pool = append([]*ChainTx{}, c.Pool[n:]...)
	for _, t := range take {
		c.apply(b, t)
	}
	if c.OnBlock != nil {
		c.OnBlock(b)
	}
	b.Good = map[*ChainTx]bool{}
	for _, t := range b.Txs {
		b.Good[t] = !t.Failed
	}
	c.Vers = append(c.Vers, c.Blocks[:len(c.Blocks):len(c.Blocks)])
	c.VerAt = append(c.VerAt, c.W.NowNs())
	c.W.Stats["chain.blocks"]++
}

// Usurp mines a block in which the state of an identity becomes another one,
// as when somebody else has its key.
func (c *Chain) Usurp(id *core.ID, st merkletree.Hash) {
	c.Mine(0)
	b := c.Head()
	b.Set = append(b.Set, stateSet{*id, st})
	c.W.Stats["fault.chain_usurped"]++
}

// Reorg replaces the last d blocks by d+1 others, which hold the first n of
// the transactions that are then pooled.
func (c *Chain) Reorg(d, n int) {
	if d <= 0 || d >= len(c.Blocks) {
		return
	}
	var back []*ChainTx
	for _, b := range c.Blocks[len(c.Blocks)-d:] {
		for _, t := range b.Txs {
			t.Block, t.Failed = nil, false
			back = append(back, t)
		}
	}
	c.Blocks = append([]*Block{}, c.Blocks[:len(c.Blocks)-d]...)
	if c.Eth != nil {
		c.Eth.reorgs++
	}
	c.Pool = append(back, c.Pool...)
	c.W.Stats["fault.chain_reorg"]++
	c.W.Log("REORG %d blocks, %d transactions back in the pool", d, len(back))
	for i := 0; i <= d; i++ {
		k := 0
		if i == d {
			k = n
		} else if n > 0 {
			k = c.S.Draw(n + 1)
		}
		before := len(c.Pool)
		c.Mine(k)
		n -= before - len(c.Pool)
	}
}

// seen is the head a query is answered from.
func (c *Chain) seen() uint64 {
	n := c.Head().N
	if n > 0 && c.hit(c.Stale, "stale_replica") {
		lag := uint64(c.S.Draw(4) + 1)
		if lag > n {
			lag = n
		}
		return n - lag
	}
	return n
}

func (c *Chain) query() error {
	c.wait()
	if c.hit(c.CallErr, "call_error") {
		c.wait()
		return ErrRPC
	}
	return nil
}

func (c *Chain) done() { c.wait() }

// GetState returns the last state of the identity.
func (c *Chain) GetState(id *core.ID) (*proof.IdenStateData, error) {
	if err := c.query(); err != nil {
		return nil, err
	}
	h := c.hist(id, c.seen())
	var d *proof.IdenStateData
	if len(h) > 0 {
		d = &h[len(h)-1]
	}
	if c.OnGet != nil {
		c.OnGet(id, d)
	}
	c.done()
	if d == nil {
		return nil, idenpubonchain.ErrIdenNotOnChain
	}
	return d, nil
}

// GetStateByBlock returns the state set in that block.
func (c *Chain) GetStateByBlock(id *core.ID, blockN uint64) (*proof.IdenStateData, error) {
	if err := c.query(); err != nil {
		return nil, err
	}
	seen := c.seen()
	h := c.hist(id, seen)
	c.done()
	if blockN > seen || len(h) == 0 || h[0].BlockN > blockN {
		return nil, idenpubonchain.ErrIdenNotOnChainOrBlockTooNew
	}
	for i := range h {
		if h[i].BlockN == blockN {
			return &h[i], nil
		}
	}
	return nil, idenpubonchain.ErrIdenByBlockNotFound
}

// GetStateByTime returns the state set at that block time.
func (c *Chain) GetStateByTime(id *core.ID, ts int64) (*proof.IdenStateData, error) {
	if err := c.query(); err != nil {
		return nil, err
	}
	h := c.hist(id, c.seen())
	c.done()
	if len(h) == 0 || h[0].BlockTs > ts {
		return nil, idenpubonchain.ErrIdenNotOnChainOrTimeTooNew
	}
	for i := range h {
		if h[i].BlockTs == ts {
			return &h[i], nil
		}
	}
	return nil, idenpubonchain.ErrIdenByTimeNotFound
}

func (c *Chain) send(t *ChainTx) (*types.Transaction, error) {
	c.wait()
	t.nonce = uint64(len(c.Sent))
	var data [16]byte
	binary.BigEndian.PutUint64(data[:], uint64(len(c.Calls)))
	t.Tx = types.NewTransaction(t.nonce, common.Address{1}, big.NewInt(0), 1000000, big.NewInt(1), data[:])
	c.Calls = append(c.Calls, t)
	if c.OnSend != nil {
		c.OnSend(t)
	}
	if c.hit(c.CallErr, "call_error") || c.hit(c.SendLost, "request_lost") {
		c.wait()
		return nil, ErrRPC
	}
	t.Accepted = true
	t.OutOfGas = c.hit(c.TxFail, "transaction_fails")
	c.Sent = append(c.Sent, t)
	c.Pool = append(c.Pool, t)
	c.byHash[t.Tx.Hash()] = t
	if c.hit(c.RespLost, "response_lost") {
		c.wait()
		return nil, ErrRPC
	}
	c.done()
	t.Acked = true
	return t.Tx, nil
}

// InitState sends the transaction that introduces the identity.
func (c *Chain) InitState(id *core.ID, genesisState, newState *merkletree.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	return c.send(&ChainTx{Init: true, Id: *id, Genesis: *genesisState, New: *newState, Proof: p})
}

// SetState sends the transaction that updates the identity.
func (c *Chain) SetState(id *core.ID, newState *merkletree.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	return c.send(&ChainTx{Id: *id, New: *newState, Proof: p})
}

// TxConfirmBlocks returns the number of blocks on top of the transaction's.
func (c *Chain) TxConfirmBlocks(tx *types.Transaction) (*big.Int, error) {
	if tx == nil {
		return nil, fmt.Errorf("nil transaction")
	}
	if err := c.query(); err != nil {
		return nil, eth.ErrReceiptNotReceived // as the client does for a failing call
	}
	t := c.byHash[tx.Hash()]
	seen := c.seen()
	if t == nil || t.Block == nil || t.Block.N > seen {
		c.done()
		return nil, eth.ErrReceiptNotReceived
	}
	failed, at := t.Failed, t.Block.N
	c.wait()
	if err := c.query(); err != nil {
		return nil, err
	}
	n := new(big.Int).Sub(new(big.Int).SetUint64(c.seen()), new(big.Int).SetUint64(at))
	c.done()
	if failed {
		return n, eth.ErrReceiptStatusFailed
	}
	return n, nil
}

var _ idenpubonchain.IdenPubOnChainer = (*Chain)(nil)
