package props

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"strings"

	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"

	"verif.local/sim/env"
	"verif.local/sim/simrt"
)

func init() {
	register(&Prop{ID: "Z01", Setup: zkSetup, Run: runZ01,
		Rule:        "each run lets 1-3 processes of one machine, with 1-2 tasks each, download, load and ask for the proving key, verification key and witness calculator of a circuit in the same or different folders and formats, from an HTTP server that is slow, fails, cuts replies, or answers with damaged files or those of another circuit, while disk writes fail and processes crash or the machine loses power; whatever is handed out must have the configured hash, a checked file never changes afterwards, nothing fails without a fault, and once the faults stop every download succeeds within two minutes. Non-trivial: a bad reply, a crash or two downloaders of one file.",
		Nontrivial:  []string{"tampered", "crash", "contended", "disk_fault"},
		Real:        []string{"utils/zk", "proving and verification key parsers"},
		Stub:        []string{"disk", "flock", "network and HTTP server", "goroutine scheduler", "clock"},
		Assumptions: []string{"nobody else writes into the folder of the files", "a file's contents survive power loss only once synced"},
	})
}

var zkCircuits []*env.Circuit

func zkSetup() {
	if zkCircuits == nil {
		zkCircuits = []*env.Circuit{env.NewCircuit("right", 3), env.NewCircuit("other", 3)}
	}
}

func samePk(a, b *zktypes.Pk) bool { return a == b || reflect.DeepEqual(a, b) }

func sameVk(a, b *zktypes.Vk) bool {
	if len(a.IC) != len(b.IC) || !bytes.Equal(a.Alpha.Marshal(), b.Alpha.Marshal()) || !bytes.Equal(a.Beta.Marshal(), b.Beta.Marshal()) ||
		!bytes.Equal(a.Gamma.Marshal(), b.Gamma.Marshal()) || !bytes.Equal(a.Delta.Marshal(), b.Delta.Marshal()) {
		return false
	}
	for i := range a.IC {
		if !bytes.Equal(a.IC[i].Marshal(), b.IC[i].Marshal()) {
			return false
		}
	}
	return true
}

type zkFilesOf struct {
	z      *zkutils.ZkFiles
	dir    string
	format zkutils.ProvingKeyFormat
	proc   *simrt.Node
	wrong  bool // configured with a hash no file has
}

func runZ01(r *Run) {
	r.Profile()
	w := r.W
	sh := r.S("shape")
	c, other := zkCircuits[0], zkCircuits[1]
	net := w.Net()
	files := func(c *env.Circuit) map[string][]byte {
		return map[string][]byte{"proving_key.json": c.PkJSON, "proving_key.go.bin": c.PkGoBin, "proving_key.bin": c.PkBin, "verification_key.json": c.VkJSON, "circuit.wasm": c.WASM}
	}
	right, bad := files(c), files(other)
	gets := map[string]int{}
	host := net.Serve("files", func(path string, body []byte) (int, []byte) {
		path = strings.TrimPrefix(path, "/zk/")
		gets[path]++
		if b, ok := right[path]; ok {
			return 200, b
		}
		return 404, []byte("not found")
	})
	if sh.Chance(1, 2) {
		net.Chunk = 16 << uint(sh.Draw(9))
		net.ChunkNs = []int64{0, 1e6, 20e6, 100e6}[sh.Draw(4)] * int64(net.Chunk) / 512
	}
	evil := sh.Chance(1, 3)
	if evil {
		ts := r.S("tamper")
		net.Tamper = func(h, path string, status int, reply []byte) (int, []byte) {
			if !ts.Chance(1, 3) {
				return status, reply
			}
			r.Probe("tampered")
			w.Stats["fault.reply_tampered"]++
			w.Cur().Faults++
			b := append([]byte{}, reply...)
			switch ts.Draw(6) {
			case 0:
				if len(b) > 0 {
					b[ts.Draw(len(b))] ^= byte(1 + ts.Draw(255))
				}
			case 1:
				b = b[:ts.Draw(len(b)+1)]
			case 2:
				b = append([]byte{}, bad[strings.TrimPrefix(path, "/zk/")]...)
			case 3:
				b = nil
			case 4:
				b = append(b, b...)
			default:
				return 404, []byte("not found")
			}
			if bytes.Equal(b, reply) {
				b = append(b, ' ')
			}
			return status, b
		}
	}
	netRates := simrt.NetRates{}
	if sh.Chance(1, 3) {
		netRates = simrt.NetRates{Refuse: 60, ReqLost: 40, RespLost: 60, Truncate: 100, Err5xx: 60, Slow: 100, MaxDelay: 20e9}
	}
	net.Rates = netRates
	nProc := sh.Range(1, 3)
	procs := make([]*simrt.Node, nProc)
	procs[0] = w.NewNode("host")
	for i := 1; i < nProc; i++ {
		procs[i] = w.NewProc(fmt.Sprintf("proc%d", i), procs[0])
	}
	fs := procs[0].FS
	diskRates := simrt.DiskRates{}
	if sh.Chance(1, 3) {
		diskRates = simrt.DiskRates{WriteErr: 30, ShortWrite: 20, SyncErr: 30, OpenErr: 30, RenameErr: 30, ReadErr: 20}
		for _, p := range procs {
			p.Faults, p.Rates = r.S("diskfault"), diskRates
		}
	}
	dirs := []string{"/zk", "/zk"}
	if sh.Chance(1, 4) {
		dirs[1] = "/data/other/zk"
	}
	w.Exec(procs[0], "mkdir", func() {
		if sh.Chance(1, 2) {
			_ = simrt.MkdirAll("/zk", 0700)
			fs.Sync()
		}
	})
	formats := []zkutils.ProvingKeyFormat{zkutils.ProvingKeyFormatJSON, zkutils.ProvingKeyFormatGoBin, zkutils.ProvingKeyFormatBin}
	mk := func(s *simrt.Stream) *zkFilesOf {
		f := &zkFilesOf{dir: dirs[s.Draw(2)], format: formats[s.Draw(3)]}
		h := c.Hashes(f.format)
		if s.Chance(1, 12) {
			f.wrong = true
			h = other.Hashes(f.format)
			x := strings.Repeat("0f", 32)
			h.ProvingKey, h.VerificationKey, h.WitnessCalcWASM = x, x, x
		}
		f.z = zkutils.NewZkFiles("http://files/zk", f.dir, f.format, h, s.Chance(1, 2))
		return f
	}
	// files whose hash a call has vouched for
	checked := map[string][]byte{}
	vouch := func(f *zkFilesOf, names ...string) {
		for _, nm := range names {
			if nm == "pk" {
				nm = "proving_key." + string(f.format)
			}
			p := f.dir + "/" + nm
			b, ok := fs.Peek(p)
			if !ok || !bytes.Equal(b, right[nm]) {
				r.Violate("bad-file", "%s is said to be downloaded and checked, but holds something else (present=%v, %d bytes)", p, ok, len(b))
			}
			checked[p] = right[nm]
		}
	}
	intact := func(what string) {
		for _, p := range sorted(checked) {
			b := checked[p]
			g, ok := fs.Peek(p)
			if !ok || !bytes.Equal(g, b) {
				r.Violate("altered", "%s: %s changed after it had been checked (present=%v)", what, p, ok)
			}
		}
	}
	do := func(f *zkFilesOf, s *simrt.Stream, what string, final bool) {
		kind := s.Draw(9)
		if final {
			kind = 0
		}
		f0 := w.Cur().Faults
		var err error
		op := ""
		got := func(ok bool, part string) {
			if err == nil && !ok {
				r.Violate("wrong-content", "%s: %s returned something else than the file with the configured hash", what, part)
			}
		}
		switch kind {
		case 0:
			op = "LoadAll"
			if err = f.z.LoadAll(); err == nil {
				vouch(f, "pk", "verification_key.json", "circuit.wasm")
			}
		case 1:
			op = "DownloadAll"
			if err = f.z.DownloadAll(); err == nil {
				vouch(f, "pk", "verification_key.json", "circuit.wasm")
			}
		case 2:
			op = "DownloadProvingKey"
			if err = f.z.DownloadProvingKey(); err == nil {
				vouch(f, "pk")
			}
		case 3, 4:
			op = "ProvingKey"
			var pk *zktypes.Pk
			pk, err = f.z.ProvingKey()
			want := c.Pk
			if f.format == zkutils.ProvingKeyFormatBin {
				want = c.PkOfBin
			}
			got(err != nil || samePk(pk, want), op)
		case 5:
			op = "VerificationKey"
			var vk *zktypes.Vk
			vk, err = f.z.VerificationKey()
			got(err != nil || sameVk(vk, c.Vk), op)
		case 6:
			op = "WitnessCalcWASM"
			var b []byte
			b, err = f.z.WitnessCalcWASM()
			got(err != nil || bytes.Equal(b, c.WASM), op)
		case 7:
			if evil {
				return
			}
			op = "InsecureDownloadAll"
			if err = f.z.InsecureDownloadAll(); err == nil {
				vouch(f, "pk", "verification_key.json", "circuit.wasm")
			}
			if err == nil && f.wrong {
				return // nothing is checked here
			}
		case 8:
			op = "InsecureCalcHashes"
			var h *zkutils.ZkFilesHashes
			h, err = f.z.InsecureCalcHashes()
			if os.IsNotExist(err) {
				return
			}
			got(err != nil || evil || *h == c.Hashes(f.format), op)
			if err == nil {
				return
			}
		}
		r.Describe("%s: %s dir=%s format=%s wrong=%v err=%v", what, op, f.dir, f.format, f.wrong, err)
		if f.wrong {
			if err == nil {
				r.Violate("unchecked", "%s: %s succeeds although no file has the configured hash", what, op)
			}
			return
		}
		if err != nil && (final || w.Cur().Faults == f0 && !host.Down) {
			r.Violate("fails", "%s: %s fails without a fault: %v", what, op, err)
		}
	}
	var pool []*zkFilesOf
	revive := func() {
		power := w.Stats["fault.power_loss"] > 0
		for _, p := range procs {
			if !p.Dead() {
				continue
			}
			r.Probe("crash")
			p.Restart()
			p.Rates = diskRates
			var keep []*zkFilesOf
			for _, f := range pool {
				if f.proc != p {
					keep = append(keep, f)
				}
			}
			pool = keep
		}
		if power {
			// a rename may be undone by a power loss
			for q := range checked {
				if _, ok := fs.Peek(q); !ok {
					delete(checked, q)
				}
			}
		}
	}
	ops := r.Ops(1, 8)
	for k := 0; k < len(ops); {
		s0 := r.S("round#" + fmt.Sprint(ops[k]))
		if s0.Chance(1, 6) {
			host.Down = !host.Down
		} else if host.Down && s0.Chance(1, 2) {
			host.Down = false
		}
		if s0.Chance(1, 4) {
			procs[s0.Draw(nProc)].CrashAfter(CrashDist(s0), s0.Chance(1, 3))
		}
		m := s0.Range(1, 4)
		var ts []*simrt.Task
		running := map[string]int{}
		for j := 0; j < m && k < len(ops); j++ {
			s := r.Op(ops[k])
			name := fmt.Sprintf("op%d", ops[k])
			k++
			p := procs[s.Draw(nProc)]
			if p.Dead() {
				continue
			}
			var mine []*zkFilesOf
			for _, f := range pool {
				if f.proc == p {
					mine = append(mine, f)
				}
			}
			var f *zkFilesOf
			if s.Chance(1, 3) && len(mine) > 0 {
				f = mine[s.Draw(len(mine))]
			} else {
				f = mk(s)
				f.proc = p
				pool = append(pool, f)
			}
			if running[f.dir]++; running[f.dir] > 1 {
				r.Probe("contended")
			}
			nOps := 1 + s.Draw(3)
			ts = append(ts, w.Go(p, name, func() {
				for q := 0; q < nOps; q++ {
					do(f, s, name, false)
				}
			}))
		}
		r.JoinAll("round", ts...)
		for _, p := range procs {
			p.CrashAfter(0, false)
		}
		revive()
		intact("after a round")
		r.State(len(checked), gets["proving_key.json"], gets["circuit.wasm"], len(pool))
	}
	for k := range w.Stats {
		if strings.HasPrefix(k, "fault.disk") {
			r.Probe("disk_fault")
		}
	}
	// the faults stop
	host.Down, net.Tamper, net.Rates = false, nil, simrt.NetRates{}
	for _, p := range procs {
		p.Rates = simrt.DiskRates{}
	}
	if w.Stats["fault.process_crash"]+w.Stats["fault.power_loss"] > 0 {
		r.Probe("crash")
	}
	t0 := w.NowNs()
	var ts []*simrt.Task
	for _, p := range procs {
		p := p
		for _, d := range []string{"/zk", dirs[1]} {
			f := &zkFilesOf{dir: d, format: formats[sh.Draw(3)]}
			f.z = zkutils.NewZkFiles("http://files/zk", f.dir, f.format, c.Hashes(f.format), sh.Chance(1, 2))
			ts = append(ts, w.Go(p, "final", func() { do(f, sh, "final", true) }))
		}
	}
	for _, f := range pool {
		f := f
		if !f.wrong {
			ts = append(ts, w.Go(f.proc, "final", func() { do(f, sh, "final retry", true) }))
		}
	}
	r.JoinAll("final", ts...)
	if d := w.NowNs() - t0; d > 120e9 {
		r.Violate("slow", "downloading took %d s of simulated time after the faults had stopped", d/1e9)
	}
	intact("at the end")
}
