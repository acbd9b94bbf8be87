package env

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"os"
	"strings"

	"github.com/ethereum/go-ethereum/accounts"
	"github.com/ethereum/go-ethereum/accounts/abi"
	ethkeystore "github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	ethcore "github.com/ethereum/go-ethereum/core"
	"github.com/ethereum/go-ethereum/core/rawdb"
	"github.com/ethereum/go-ethereum/core/state"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/params"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/ethereum/go-ethereum/rpc"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/eth"
	"github.com/iden3/go-iden3-core/eth/contracts"
	"github.com/iden3/go-iden3-core/merkletree"

	"verif.local/sim/simrt"
)

// The ethereum side: the repository's contracts run in go-ethereum's EVM
// behind JSON-RPC over the simulated network.  The node keeps its blocks and
// pool in a Chain, whose own account of the contract is what the EVM's
// results are compared with.

// EthAccounts are the funded accounts, unlocked in a key store of the process.
var (
	EthAccounts []accounts.Account
	EthKs       *ethkeystore.KeyStore

	genesisState           *state.StateDB
	VerifierAddr, StateAdr common.Address
	stateABI               abi.ABI
	chainCfg               = params.AllEthashProtocolChanges
)

func word(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

func g1Words(p *bn256.G1) []*big.Int {
	b := p.Marshal()
	return []*big.Int{word(b[:32]), word(b[32:])}
}

func g2Words(p *bn256.G2) []*big.Int {
	b := p.Marshal()
	return []*big.Int{word(b[:32]), word(b[32:64]), word(b[64:96]), word(b[96:])}
}

// patchVerifier puts another verification key into the verifier's bytecode.
func patchVerifier(bin string, vk *zktypes.Vk) []byte {
	code := common.FromHex(bin)
	var at, size []int
	for i := 0; i < len(code); i++ {
		if op := code[i]; op >= 0x60 && op <= 0x7f {
			n := int(op) - 0x5f
			if n >= 31 && i+1+n <= len(code) {
				at, size = append(at, i+1), append(size, n)
			}
			i += n
		}
	}
	var ws []*big.Int
	ws = append(ws, g1Words(vk.Alpha)...)
	ws = append(ws, g2Words(vk.Beta)...)
	ws = append(ws, g2Words(vk.Gamma)...)
	ws = append(ws, g2Words(vk.Delta)...)
	for _, p := range vk.IC {
		ws = append(ws, g1Words(p)...)
	}
	// the first two are the field and an error text
	if len(at) < 2+len(ws) {
		panic("the verifier's bytecode is not as expected")
	}
	for i, w := range ws {
		b := w.Bytes()
		p, n := at[i+2], size[i+2]
		if len(b) > n {
			panic("a part of the key does not fit into the bytecode")
		}
		for j := 0; j < n; j++ {
			code[p+j] = 0
		}
		copy(code[p+n-len(b):p+n], b)
	}
	return code
}

// EthSetup prepares the accounts and the deployed contracts, once.
func EthSetup(vk *zktypes.Vk) {
	if genesisState != nil {
		return
	}
	dir, err := os.MkdirTemp("", "ethks")
	must(err)
	defer os.RemoveAll(dir)
	EthKs = ethkeystore.NewKeyStore(dir, 2, 1)
	st, err := state.New(common.Hash{}, state.NewDatabase(rawdb.NewMemoryDatabase()), nil)
	must(err)
	for i := 0; i < 4; i++ {
		k, err := ethcrypto.ToECDSA(ethcrypto.Keccak256([]byte(fmt.Sprintf("account %d", i))))
		must(err)
		a, err := EthKs.ImportECDSA(k, "p")
		must(err)
		must(EthKs.Unlock(a, "p"))
		EthAccounts = append(EthAccounts, a)
		st.AddBalance(a.Address, new(big.Int).Exp(big.NewInt(10), big.NewInt(24), nil))
	}
	stateABI, err = abi.JSON(strings.NewReader(contracts.StateABI))
	must(err)
	deployer := common.Address{0xde}
	hd := &types.Header{Number: new(big.Int), Time: 1, GasLimit: 1e9, Difficulty: big.NewInt(1)}
	create := func(code []byte) common.Address {
		evm := vm.NewEVM(evmContext(hd, deployer), st, chainCfg, vm.Config{})
		st.SetNonce(deployer, st.GetNonce(deployer)+1)
		_, addr, _, err := evm.Create(vm.AccountRef(deployer), code, 1e8, new(big.Int))
		must(err)
		return addr
	}
	VerifierAddr = create(patchVerifier(contracts.VerifierBin, vk))
	arg, err := stateABI.Pack("", VerifierAddr)
	must(err)
	StateAdr = create(append(common.FromHex(contracts.StateBin), arg...))
	st.Finalise(true)
	genesisState = st
}

// pairing is the pairing precompile, memoised.
type pairing struct {
	vm.PrecompiledContract
	memo map[string][]byte
}

func (p *pairing) Run(in []byte) ([]byte, error) {
	if out := p.memo[string(in)]; out != nil {
		return append([]byte{}, out...), nil
	}
	out, err := p.PrecompiledContract.Run(in)
	if err == nil {
		if len(p.memo) > 10000 {
			p.memo = map[string][]byte{}
		}
		p.memo[string(in)] = append([]byte{}, out...)
	}
	return out, err
}

func init() {
	a := common.BytesToAddress([]byte{8})
	vm.PrecompiledContractsIstanbul[a] = &pairing{vm.PrecompiledContractsIstanbul[a], map[string][]byte{}}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func evmContext(h *types.Header, from common.Address) vm.Context {
	return vm.Context{CanTransfer: ethcore.CanTransfer, Transfer: ethcore.Transfer, GetHash: func(uint64) common.Hash { return common.Hash{} },
		Origin: from, GasPrice: big.NewInt(1), BlockNumber: new(big.Int).Set(h.Number), Time: new(big.Int).SetUint64(h.Time), GasLimit: h.GasLimit, Difficulty: h.Difficulty}
}

// EthNode serves a Chain over JSON-RPC, with the contracts in the EVM.
type EthNode struct {
	C       *Chain
	W       *simrt.World
	Host    *simrt.Host
	ext     map[*Block]*ethBlock
	reorgs  uint64
	OldGeth bool // reverted calls return their output, as geth did before 1.9.15
	// Bad is told when the EVM and the model of the contract differ, or the
	// node is sent something nobody asked for.
	Bad func(format string, a ...interface{})
	// Slow is the most a message takes when it is slow; Hang makes requests
	// hang.
	SlowRate int
	SlowMax  int64
	expect   []*ChainTx
	Methods  map[string]int
}

type ethBlock struct {
	hd       *types.Header
	st       *state.StateDB
	receipts map[common.Hash]*types.Receipt
	nonces   map[common.Address]uint64
}

// NewEthNode attaches a node to a chain and serves it.
func NewEthNode(c *Chain, host string) *EthNode {
	e := &EthNode{C: c, W: c.W, ext: map[*Block]*ethBlock{}, Methods: map[string]int{}}
	c.OnBlock = e.exec
	c.Eth = e
	g := c.Blocks[0]
	hd := &types.Header{Number: new(big.Int), Time: uint64(g.Ts), GasLimit: 1e9, Difficulty: big.NewInt(1)}
	e.ext[g] = &ethBlock{hd: hd, st: genesisState, receipts: map[common.Hash]*types.Receipt{}, nonces: map[common.Address]uint64{}}
	e.Host = c.W.Net().Serve(host, e.serve)
	e.Host.Delay = func() int64 {
		if c.Off {
			return -1
		}
		d := int64(0)
		if c.Latency > 0 {
			d = int64(c.S.Draw(8)+1) * c.Latency / 8
		}
		if c.hit(e.SlowRate, "slow_message") {
			d += int64(c.S.Draw(1000)+1) * e.SlowMax / 1000
		}
		return d
	}
	return e
}

// Client dials the node from the current task.
func (e *EthNode) Client(acc int) *eth.Client {
	rc, err := rpc.DialHTTPWithClient("http://"+e.Host.Name, &http.Client{Transport: simrt.RT{}})
	must(err)
	var a *accounts.Account
	if acc >= 0 {
		a = &EthAccounts[acc]
	}
	return eth.NewClient(ethclient.NewClient(rc), a, EthKs)
}

// exec runs a new block's transactions in the EVM.
func (e *EthNode) exec(b *Block) {
	parent := e.ext[e.C.Blocks[b.N-1]]
	hd := &types.Header{ParentHash: parent.hd.Hash(), Number: new(big.Int).SetUint64(b.N), Time: uint64(b.Ts), GasLimit: 1e9, Difficulty: big.NewInt(1),
		Extra: []byte(fmt.Sprint("fork ", e.reorgs))}
	x := &ethBlock{hd: hd, st: parent.st.Copy(), receipts: map[common.Hash]*types.Receipt{}, nonces: map[common.Address]uint64{}}
	for a, n := range parent.nonces {
		x.nonces[a] = n
	}
	hash := hd.Hash()
	gas := uint64(0)
	for i, t := range b.Txs {
		from, err := types.Sender(types.HomesteadSigner{}, t.Tx)
		must(err)
		x.nonces[from] = t.Tx.Nonce() + 1
		failed, used := true, t.Tx.Gas()
		x.st.Prepare(t.Tx.Hash(), hash, i)
		if t.OutOfGas {
			x.st.SetNonce(from, t.Tx.Nonce()+1)
		} else {
			msg, err := t.Tx.AsMessage(types.HomesteadSigner{})
			must(err)
			evm := vm.NewEVM(evmContext(hd, from), x.st, chainCfg, vm.Config{})
			_, used, failed, err = ethcore.ApplyMessage(evm, msg, new(ethcore.GasPool).AddGas(hd.GasLimit))
			must(err)
		}
		x.st.Finalise(true)
		gas += used
		rc := types.NewReceipt(nil, failed, gas)
		rc.TxHash, rc.GasUsed, rc.Logs = t.Tx.Hash(), used, x.st.GetLogs(t.Tx.Hash())
		rc.BlockHash, rc.BlockNumber, rc.TransactionIndex = hash, new(big.Int).SetUint64(b.N), uint(i)
		if t.Tx.To() == nil {
			rc.ContractAddress = ethcrypto.CreateAddress(from, t.Tx.Nonce())
			t.Failed = failed
		}
		if rc.Logs == nil {
			rc.Logs = []*types.Log{}
		}
		x.receipts[t.Tx.Hash()] = rc
		if failed != t.Failed && e.Bad != nil {
			e.Bad("the contract's verdict on a transaction (failed=%v) is not that of the model (failed=%v)", failed, t.Failed)
		}
	}
	e.ext[b] = x
}

// nextNonce counts the account's transactions up to a block, with the pool.
func (e *EthNode) nextNonce(a common.Address, upto uint64, pool bool) uint64 {
	n := e.ext[e.C.Blocks[upto]].nonces[a]
	if pool {
		for _, t := range e.C.Pool {
			if from, _ := types.Sender(types.HomesteadSigner{}, t.Tx); from == a && t.Tx.Nonce() >= n {
				n = t.Tx.Nonce() + 1
			}
		}
	}
	return n
}

type rpcReq struct {
	ID     json.RawMessage   `json:"id"`
	Method string            `json:"method"`
	Params []json.RawMessage `json:"params"`
}

func (e *EthNode) serve(path string, body []byte) (int, []byte) {
	var rq rpcReq
	if err := json.Unmarshal(body, &rq); err != nil {
		return 400, []byte("bad request")
	}
	e.Methods[rq.Method]++
	c := e.C
	fail := func() (int, []byte) {
		switch c.S.Draw(4) {
		case 0:
			return 503, []byte("unavailable")
		case 1:
			return 200, []byte("<html>gateway timeout</html>")
		case 2:
			return 200, []byte(`{"jsonrpc":"2.0","id":` + string(rq.ID) + `}`)
		default:
			return 200, []byte(`{"jsonrpc":"2.0","id":` + string(rq.ID) + `,"error":{"code":-32000,"message":"simulated failure of the ethereum node"}}`)
		}
	}
	if c.hit(c.CallErr, "call_error") {
		return fail()
	}
	send := rq.Method == "eth_sendRawTransaction"
	if send && c.hit(c.SendLost, "request_lost") {
		return fail()
	}
	res, err := e.answer(rq)
	if send && err == nil && c.hit(c.RespLost, "response_lost") {
		return fail()
	}
	out := map[string]interface{}{"jsonrpc": "2.0", "id": rq.ID}
	if err != nil {
		out["error"] = map[string]interface{}{"code": -32000, "message": err.Error()}
	} else {
		out["result"] = res
	}
	b, jerr := json.Marshal(out)
	must(jerr)
	return 200, b
}

func (e *EthNode) answer(rq rpcReq) (interface{}, error) {
	c := e.C
	str := func(i int) string {
		var s string
		if i < len(rq.Params) {
			_ = json.Unmarshal(rq.Params[i], &s)
		}
		return s
	}
	switch rq.Method {
	case "eth_gasPrice":
		return (*hexutil.Big)(minGasPrice), nil
	case "eth_getBalance":
		return (*hexutil.Big)(e.ext[c.Blocks[c.seen()]].st.GetBalance(common.HexToAddress(str(0)))), nil
	case "eth_getTransactionCount":
		seen := c.seen()
		return hexutil.Uint64(e.nextNonce(common.HexToAddress(str(0)), seen, str(1) == "pending" && seen == c.Head().N)), nil
	case "eth_getCode":
		return hexutil.Bytes(e.ext[c.Blocks[c.seen()]].st.GetCode(common.HexToAddress(str(0)))), nil
	case "eth_getBlockByNumber":
		seen := c.seen()
		switch at := str(0); at {
		case "latest":
			return e.ext[c.Blocks[seen]].hd, nil
		case "pending": // the block being made
			hd := types.CopyHeader(e.ext[c.Blocks[seen]].hd)
			hd.ParentHash = hd.Hash()
			hd.Number.Add(hd.Number, big.NewInt(1))
			return hd, nil
		case "earliest":
			return e.ext[c.Blocks[0]].hd, nil
		default:
			n, err := hexutil.DecodeUint64(at)
			if err != nil || n > seen {
				return nil, nil
			}
			return e.ext[c.Blocks[n]].hd, nil
		}
	case "eth_getTransactionReceipt":
		h := common.HexToHash(str(0))
		seen := c.seen()
		for _, b := range c.Blocks[:seen+1] {
			if r := e.ext[b].receipts[h]; r != nil {
				return r, nil
			}
		}
		return nil, nil
	case "eth_call":
		var m struct {
			From common.Address
			To   *common.Address
			Data hexutil.Bytes
		}
		if err := json.Unmarshal(rq.Params[0], &m); err != nil || m.To == nil {
			return nil, fmt.Errorf("invalid argument 0")
		}
		seen := c.seen()
		x := e.ext[c.Blocks[seen]]
		st := x.st.Copy()
		evm := vm.NewEVM(evmContext(x.hd, m.From), st, chainCfg, vm.Config{})
		out, _, err := evm.Call(vm.AccountRef(m.From), *m.To, m.Data, 1e8, new(big.Int))
		if c.OnCall != nil {
			c.OnCall(seen, m.Data)
		}
		if err != nil && !e.OldGeth {
			return nil, fmt.Errorf("execution reverted")
		}
		return hexutil.Bytes(out), nil
	case "eth_sendRawTransaction":
		raw, err := hexutil.Decode(str(0))
		if err != nil {
			return nil, err
		}
		tx := new(types.Transaction)
		if err := rlp.DecodeBytes(raw, tx); err != nil {
			return nil, err
		}
		return e.accept(tx)
	}
	return nil, fmt.Errorf("the method %s does not exist/is not available", rq.Method)
}

// minGasPrice is what the node asks for gas.
var minGasPrice = big.NewInt(1e9)

// accept takes a transaction into the pool.
func (e *EthNode) accept(tx *types.Transaction) (interface{}, error) {
	c := e.C
	from, err := types.Sender(types.HomesteadSigner{}, tx)
	if err != nil {
		return nil, err
	}
	if c.byHash[tx.Hash()] != nil {
		return nil, fmt.Errorf("known transaction: %x", tx.Hash())
	}
	if tx.GasPrice().Cmp(minGasPrice) < 0 {
		return nil, ethcore.ErrUnderpriced
	}
	next := e.nextNonce(from, c.Head().N, true)
	done := e.nextNonce(from, c.Head().N, false)
	switch {
	case tx.Nonce() < done:
		return nil, ethcore.ErrNonceTooLow
	case tx.Nonce() < next:
		return nil, ethcore.ErrReplaceUnderpriced
	case tx.Nonce() > next:
		return nil, ethcore.ErrNonceTooHigh
	}
	t := e.match(tx)
	t.Tx, t.Accepted, t.From = tx, true, from
	t.OutOfGas = c.hit(c.TxFail, "transaction_fails")
	c.Sent = append(c.Sent, t)
	c.Pool = append(c.Pool, t)
	c.byHash[tx.Hash()] = t
	return tx.Hash(), nil
}

// match finds the call that a transaction was made for.
func (e *EthNode) match(tx *types.Transaction) *ChainTx {
	bad := func(f string, a ...interface{}) *ChainTx {
		if e.Bad != nil {
			e.Bad(f, a...)
		}
		return &ChainTx{Foreign: true}
	}
	if tx.To() == nil {
		return &ChainTx{Foreign: true}
	}
	if *tx.To() != StateAdr {
		return bad("a transaction is sent to another address than the contract's")
	}
	d := tx.Data()
	if len(d) < 4 {
		return bad("a transaction calls nothing")
	}
	m, err := stateABI.MethodById(d[:4])
	if err != nil {
		return bad("a transaction calls an unknown method")
	}
	for i := len(e.expect) - 1; i >= 0; i-- {
		t := e.expect[i]
		if t.Accepted {
			continue
		}
		name, args := t.args()
		want, err := stateABI.Pack(name, args...)
		must(err)
		if m.Name == name && string(want) == string(d) {
			return t
		}
	}
	return bad("a transaction (%s %s) is not one that was asked for", m.Name, hex.EncodeToString(d[4:36]))
}

func (t *ChainTx) args() (string, []interface{}) {
	a, b, c := proofWords(t.Proof)
	if t.Init {
		return "initState", []interface{}{t.New.BigInt(), t.Genesis.BigInt(), t.Id.BigInt(), a, b, c}
	}
	return "setState", []interface{}{t.New.BigInt(), t.Id.BigInt(), a, b, c}
}

// proofWords are the words of a proof as the contract takes them.
func proofWords(p *zktypes.Proof) (a [2]*big.Int, b [2][2]*big.Int, c [2]*big.Int) {
	copy(a[:], g1Words(p.A))
	copy(c[:], g1Words(p.C))
	w := g2Words(p.B)
	b[0][0], b[0][1], b[1][0], b[1][1] = w[0], w[1], w[2], w[3]
	return
}

// EthChainer is the repository's client of the contract, over the node; it
// records what is asked of it as Chain's own client does.
type EthChainer struct {
	E     *EthNode
	Inner *idenpubonchain.IdenPubOnChain
	// Seen is told about every query of the last state, with the answer.
}

// Chainer makes a client that sends from an account.
func (e *EthNode) Chainer(acc int) *EthChainer {
	return &EthChainer{E: e, Inner: idenpubonchain.New(e.Client(acc), idenpubonchain.ContractAddresses{IdenStates: StateAdr})}
}

func (x *EthChainer) GetState(id *core.ID) (*proof.IdenStateData, error) {
	d, err := x.Inner.GetState(id)
	if c := x.E.C; c.OnGet != nil && err == nil {
		c.OnGet(id, d)
	}
	return d, err
}

func (x *EthChainer) GetStateByBlock(id *core.ID, n uint64) (*proof.IdenStateData, error) {
	return x.Inner.GetStateByBlock(id, n)
}

func (x *EthChainer) GetStateByTime(id *core.ID, ts int64) (*proof.IdenStateData, error) {
	return x.Inner.GetStateByTime(id, ts)
}

func (x *EthChainer) call(t *ChainTx, f func() (*types.Transaction, error)) (*types.Transaction, error) {
	e, c := x.E, x.E.C
	c.Calls = append(c.Calls, t)
	e.expect = append(e.expect, t)
	if c.OnSend != nil {
		c.OnSend(t)
	}
	tx, err := f()
	if err == nil {
		switch {
		case tx == nil:
			e.bad("a state was sent, but no transaction is returned")
		case !t.Accepted || t.Tx.Hash() != tx.Hash():
			e.bad("the transaction returned is not the one the node accepted")
		default:
			t.Acked = true
		}
	}
	return tx, err
}

func (e *EthNode) bad(f string, a ...interface{}) {
	if e.Bad != nil {
		e.Bad(f, a...)
	}
}

func (x *EthChainer) InitState(id *core.ID, g, n *merkletree.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	return x.call(&ChainTx{Init: true, Id: *id, Genesis: *g, New: *n, Proof: p}, func() (*types.Transaction, error) { return x.Inner.InitState(id, g, n, p) })
}

func (x *EthChainer) SetState(id *core.ID, n *merkletree.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	return x.call(&ChainTx{Id: *id, New: *n, Proof: p}, func() (*types.Transaction, error) { return x.Inner.SetState(id, n, p) })
}

func (x *EthChainer) TxConfirmBlocks(tx *types.Transaction) (*big.Int, error) {
	return x.Inner.TxConfirmBlocks(tx)
}

var _ idenpubonchain.IdenPubOnChainer = (*EthChainer)(nil)

// Balance of an account in a block.
func (e *EthNode) Balance(b *Block, a common.Address) *big.Int { return e.ext[b].st.GetBalance(a) }

// SameCode tells whether the contract of states (or the original verifier) is
// at an address.
func (e *EthNode) SameCode(b *Block, a common.Address, states bool) bool {
	code := e.ext[b].st.GetCode(a)
	if states {
		return string(code) == string(genesisState.GetCode(StateAdr))
	}
	return len(code) == len(genesisState.GetCode(VerifierAddr))
}
