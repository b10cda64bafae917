// Plays random virtual machines behind the EVMC interface: every run of the
// bridge executes a machine that makes random requests to its host and returns
// a random result. Everything that passes the bridge is recorded.
//
//	evmcbridge OUT COUNT SEED
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"

	"github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	bridge "github.com/Fantom-foundation/Tosca/go/interpreter/evmc"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/ethereum/evmc/v11/bindings/go/evmc"
)

type M = map[string]any
type L = []any

func x(b []byte) string { return hex.EncodeToString(b) }
func n(v int64) string  { return strconv.FormatInt(v, 10) }

// A play is one execution from the outside, with everything nested in it.
type play struct {
	r      *rand.Rand
	events L
	calls  L // requests that have reached the context since the last event
	ans    any
	depth  int
	world  map[tosca.Address]*account
	store  map[string]tosca.Word
	vm     *bridge.EvmcInterpreter
	wrap   tosca.Interpreter
	last   *tosca.Parameters
	seen   any
	ret    any
	left   int
	steps  *bridge.SteppableEvmcInterpreter
}
type account struct {
	nonce uint64
	bal   tosca.Value
	code  []byte
	hash  tosca.Hash
}

var known [6]tosca.Address

func (p *play) bytes(k int) []byte {
	if k == 0 {
		return nil
	}
	b := make([]byte, k)
	p.r.Read(b)
	return b
}
func (p *play) some() []byte { return p.bytes([]int{0, 0, 1, 2, 31, 32, 33, 100}[p.r.Intn(8)]) }
func (p *play) w32() (r [32]byte) {
	switch p.r.Intn(5) {
	case 0:
	case 1:
		r[31] = byte(p.r.Intn(4))
	case 2:
		r[p.r.Intn(32)] = byte(p.r.Intn(256))
	default:
		p.r.Read(r[:])
	}
	return
}
func (p *play) addr() (r [20]byte) { return known[p.r.Intn(len(known))] }
func (p *play) fresh() (r [20]byte) {
	p.r.Read(r[:])
	return
}
func (p *play) i64() int64 {
	l := []int64{0, 1, -1, 2, 255, 1 << 31, 1<<32 + 7, 1<<53 + 1, 1<<63 - 1, -1 << 63, 21000, p.r.Int63()}
	return l[p.r.Intn(len(l))]
}
func (p *play) yes() bool { return p.r.Intn(2) == 0 }

func (p *play) event(e M) {
	e["calls"] = append(L{}, p.calls...)
	e["d"] = p.depth
	p.calls = nil
	p.events = append(p.events, e)
}

// --- the context behind the bridge -----------------------------------------------
type context struct{ p *play }

func (c context) note(name string, a ...any) { c.p.calls = append(c.p.calls, append(L{name}, a...)) }
func (c context) acct(a tosca.Address) account {
	if t := c.p.world[a]; t != nil {
		return *t
	}
	return account{}
}
func (c context) AccountExists(a tosca.Address) bool { return c.p.world[a] != nil }
func (c context) CreateAccount(a tosca.Address, code tosca.Code) bool {
	c.note("CreateAccount")
	return false
}
func (c context) GetBalance(a tosca.Address) tosca.Value     { return c.acct(a).bal }
func (c context) SetBalance(a tosca.Address, v tosca.Value)  { c.note("SetBalance") }
func (c context) GetNonce(a tosca.Address) uint64            { return c.acct(a).nonce }
func (c context) SetNonce(a tosca.Address, v uint64)         { c.note("SetNonce") }
func (c context) GetCode(a tosca.Address) tosca.Code         { return c.acct(a).code }
func (c context) GetCodeHash(a tosca.Address) tosca.Hash     { return c.acct(a).hash }
func (c context) GetCodeSize(a tosca.Address) int            { return len(c.acct(a).code) }
func (c context) SetCode(a tosca.Address, v tosca.Code)      { c.note("SetCode") }
func (c context) CreateSnapshot() tosca.Snapshot             { c.note("CreateSnapshot"); return 0 }
func (c context) RestoreSnapshot(tosca.Snapshot)             { c.note("RestoreSnapshot") }
func (c context) GetLogs() []tosca.Log                       { return nil }
func (c context) HasSelfDestructed(a tosca.Address) bool     { return false }
func (c context) IsAddressInAccessList(a tosca.Address) bool { return false }
func (c context) IsSlotInAccessList(a tosca.Address, k tosca.Key) (bool, bool) {
	return false, false
}
func (c context) GetStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return c.p.store["s"+x(a[:])+x(k[:])]
}
func (c context) GetCommittedStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return tosca.Word{1, 2, 3}
}
func (c context) SetStorage(a tosca.Address, k tosca.Key, v tosca.Word) tosca.StorageStatus {
	c.note("SetStorage", x(a[:]), x(k[:]), x(v[:]))
	c.p.store["s"+x(a[:])+x(k[:])] = v
	s := tosca.GetAllStorageStatuses()[c.p.r.Intn(9)]
	c.p.ans = s.String()
	return s
}
func (c context) GetTransientStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return c.p.store["t"+x(a[:])+x(k[:])]
}
func (c context) SetTransientStorage(a tosca.Address, k tosca.Key, v tosca.Word) {
	c.note("SetTransientStorage", x(a[:]), x(k[:]), x(v[:]))
	c.p.store["t"+x(a[:])+x(k[:])] = v
}
func (c context) SelfDestruct(a, b tosca.Address) bool {
	c.note("SelfDestruct", x(a[:]), x(b[:]))
	r := c.p.yes()
	c.p.ans = r
	return r
}
func (c context) AccessAccount(a tosca.Address) tosca.AccessStatus {
	c.note("AccessAccount", x(a[:]))
	r := c.p.yes()
	c.p.ans = r
	return tosca.AccessStatus(r)
}
func (c context) AccessStorage(a tosca.Address, k tosca.Key) tosca.AccessStatus {
	c.note("AccessStorage", x(a[:]), x(k[:]))
	r := c.p.yes()
	c.p.ans = r
	return tosca.AccessStatus(r)
}
func hashOf(k int64) (r tosca.Hash) {
	for i := range r {
		r[i] = byte(k>>(8*(i%8))) + byte(i*7)
	}
	return
}
func (c context) GetBlockHash(k int64) tosca.Hash { return hashOf(k) }
func hashes(t []tosca.Hash) L {
	l := L{}
	for _, h := range t {
		l = append(l, x(h[:]))
	}
	return l
}
func (c context) EmitLog(l tosca.Log) {
	c.note("EmitLog", x(l.Address[:]), hashes(l.Topics), x(l.Data))
}

var kinds = map[tosca.CallKind]string{tosca.Call: "call", tosca.StaticCall: "staticcall", tosca.DelegateCall: "delegatecall", tosca.CallCode: "callcode", tosca.Create: "create", tosca.Create2: "create2"}

func (c context) Call(kind tosca.CallKind, q tosca.CallParameters) (tosca.CallResult, error) {
	p := c.p
	calls := append(p.calls, L{"Call", kinds[kind], x(q.Sender[:]), x(q.Recipient[:]), x(q.Value[:]), x(q.Input), n(int64(q.Gas)), x(q.Salt[:]), x(q.CodeAddress[:])})
	p.calls = nil
	if p.depth < 4 && p.r.Intn(3) == 0 {
		p.run()
	}
	p.calls = calls
	res := tosca.CallResult{Output: p.some(), GasLeft: tosca.Gas(p.i64()), GasRefund: tosca.Gas(p.i64()), CreatedAddress: p.fresh(), Success: p.yes()}
	p.ans = M{"ok": res.Success, "out": x(res.Output), "gas": n(int64(res.GasLeft)), "ref": n(int64(res.GasRefund)), "created": x(res.CreatedAddress[:]), "err": false}
	if p.r.Intn(12) == 0 {
		p.ans.(M)["err"] = true
		return res, evmc.Error(-1)
	}
	return res, nil
}

// --- the machine in front of it ----------------------------------------------------
func optional(h *evmc.Hash) string {
	if h == nil {
		return "none"
	}
	return x(h[:])
}

func (p *play) requests(h evmc.HostContext) {
	for k := p.r.Intn(8); k > 0 && p.left > 0; k-- {
		p.left--
		p.request(h)
	}
}

func yesno(b bool) string {
	if b {
		return "yes"
	}
	return "no"
}

func (p *play) request(h evmc.HostContext) {
	p.calls, p.ans = nil, ""
	a, b := evmc.Address(p.addr()), evmc.Address(p.addr())
	k, v := evmc.Hash{31: byte(p.r.Intn(3))}, evmc.Hash(p.w32())
	do := func(op string, args L, got any) {
		p.event(M{"e": "host", "op": op, "a": args, "got": got, "ans": p.ans})
	}
	A, B, K, V := x(a[:]), x(b[:]), x(k[:]), x(v[:])
	switch p.r.Intn(18) {
	case 0:
		do("AccountExists", L{A}, yesno(h.AccountExists(a)))
	case 1:
		r := h.GetStorage(a, k)
		do("GetStorage", L{A, K}, x(r[:]))
	case 2, 3:
		do("SetStorage", L{A, K, V}, int(h.SetStorage(a, k, v)))
	case 4:
		r := h.GetTransientStorage(a, k)
		do("GetTransientStorage", L{A, K}, x(r[:]))
	case 5:
		h.SetTransientStorage(a, k, v)
		do("SetTransientStorage", L{A, K, V}, "")
	case 6:
		r := h.GetBalance(a)
		do("GetBalance", L{A}, x(r[:]))
	case 7:
		do("GetCodeSize", L{A}, n(int64(h.GetCodeSize(a))))
	case 8:
		r := h.GetCodeHash(a)
		do("GetCodeHash", L{A}, x(r[:]))
	case 9:
		do("GetCode", L{A}, x(h.GetCode(a)))
	case 10:
		do("Selfdestruct", L{A, B}, yesno(h.Selfdestruct(a, b)))
	case 11:
		t := h.GetTxContext()
		l := L{}
		for _, y := range t.BlobHashes {
			l = append(l, x(y[:]))
		}
		do("GetTxContext", L{}, M{"price": x(t.GasPrice[:]), "origin": x(t.Origin[:]), "coinbase": x(t.Coinbase[:]), "number": n(t.Number), "time": n(t.Timestamp), "limit": n(t.GasLimit), "randao": x(t.PrevRandao[:]),
			"chain": x(t.ChainID[:]), "basefee": x(t.BaseFee[:]), "blobfee": x(t.BlobBaseFee[:]), "blobs": l})
	case 12:
		q := p.i64()
		r := h.GetBlockHash(q)
		w := hashOf(q)
		p.ans = x(w[:])
		do("GetBlockHash", L{n(q)}, x(r[:]))
	case 13:
		t, l := make([]evmc.Hash, p.r.Intn(5)), L{}
		for i := range t {
			t[i] = p.w32()
			l = append(l, x(t[i][:]))
		}
		d := p.some()
		h.EmitLog(a, t, d)
		do("EmitLog", L{A, l, x(d)}, "")
	case 14, 15:
		kind := evmc.CallKind(p.r.Intn(5))
		static := p.r.Intn(3) == 0
		salt, code, in, gas := evmc.Hash(p.w32()), evmc.Address(p.fresh()), p.some(), p.i64()
		out, left, refund, created, err := h.Call(kind, a, b, v, in, gas, p.r.Intn(1025), static, salt, code)
		status := 0
		if e, ok := err.(evmc.Error); ok {
			status = int(e)
		} else if err != nil {
			status = -1
		}
		do("Call", L{int(kind), static, A, B, V, x(in), n(gas), x(salt[:]), x(code[:])}, M{"out": x(out), "gas": n(left), "ref": n(refund), "created": x(created[:]), "status": status})
	case 16:
		do("AccessAccount", L{A}, int(h.AccessAccount(a)))
	case 17:
		do("AccessStorage", L{A, K}, int(h.AccessStorage(a, k)))
	}
}

var statuses = []int{0, 0, 0, 0, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, -1, -2, -3}

var plays sync.Map // playing machines by the address they run for

func machine(m evmc.Message) (evmc.Result, error) {
	q, _ := plays.Load(m.Recipient)
	p := q.(*play)
	top := p.last
	p.seen = M{"rev": int(m.Revision), "kind": int(m.Kind), "static": m.Static, "depth": n(int64(m.Depth)), "gas": n(m.Gas), "rcpt": x(m.Recipient[:]), "sender": x(m.Sender[:]), "input": x(m.Input), "value": x(m.Value[:]),
		"codehash": optional(m.CodeHash), "code": x(m.Code)}
	p.event(M{"e": "run", "p": parameters(top), "m": p.seen, "reached": true})
	p.requests(m.Context)
	s := statuses[p.r.Intn(len(statuses))]
	r := evmc.Result{Output: p.some(), GasLeft: p.i64(), GasRefund: p.i64()}
	p.ret = M{"st": s, "out": x(r.Output), "gas": n(r.GasLeft), "ref": n(r.GasRefund)}
	if s == 0 {
		return r, nil
	}
	return r, evmc.Error(s)
}

func parameters(q *tosca.Parameters) M {
	h := "none"
	if q.CodeHash != nil {
		h = x(q.CodeHash[:])
	}
	return M{"rev": int(q.Revision), "static": q.Static, "depth": n(int64(q.Depth)), "gas": n(int64(q.Gas)), "rcpt": x(q.Recipient[:]), "sender": x(q.Sender[:]), "input": x(q.Input), "value": x(q.Value[:]), "codehash": h, "code": x(q.Code),
		"price": x(q.GasPrice[:]), "origin": x(q.Origin[:]), "coinbase": x(q.Coinbase[:]), "number": n(q.BlockNumber), "time": n(q.Timestamp), "limit": n(int64(q.GasLimit)), "randao": x(q.PrevRandao[:]),
		"chain": x(q.ChainID[:]), "basefee": x(q.BaseFee[:]), "blobfee": x(q.BlobBaseFee[:]), "blobs": hashes(q.BlobHashes)}
}

var revisions = []tosca.Revision{0, 1, 2, 3, 4, 5, 5, 4, 3, 2, 1, 0, 0, 1, 2, 3, 4, 5, 6, 7, 99, -1}

func (p *play) params() *tosca.Parameters {
	q := &tosca.Parameters{Context: context{p}, Kind: tosca.CallKind(p.r.Intn(6)), Static: p.yes(), Depth: p.r.Intn(1025), Gas: tosca.Gas(p.i64()), Recipient: p.fresh(), Sender: p.fresh(), Input: p.some(), Value: p.w32(), Code: p.some()}
	q.BlockParameters = tosca.BlockParameters{ChainID: p.w32(), BlockNumber: p.i64(), Timestamp: p.i64(), Coinbase: p.fresh(), GasLimit: tosca.Gas(p.i64()), PrevRandao: p.w32(), BaseFee: p.w32(), BlobBaseFee: p.w32(),
		Revision: revisions[p.r.Intn(len(revisions))]}
	q.TransactionParameters = tosca.TransactionParameters{Origin: p.fresh(), GasPrice: p.w32()}
	for k := p.r.Intn(4); k > 0; k-- {
		q.BlobHashes = append(q.BlobHashes, p.w32())
	}
	if p.yes() {
		h := tosca.Hash(p.w32())
		q.CodeHash = &h
	}
	return q
}

// run plays one execution; the bridge is asked to run it, and may ask for more.
func (p *play) run() {
	last := p.last
	q := p.params()
	p.last = q
	p.depth++
	plays.Store(evmc.Address(q.Recipient), p)
	p.seen, p.ret = nil, nil
	before := parameters(q)
	r, err := p.vm.Run(*q)
	plays.Delete(evmc.Address(q.Recipient))
	if p.seen == nil {
		p.event(M{"e": "run", "p": before, "m": "none", "reached": false})
		p.ret = M{"st": 0, "out": "", "gas": "0", "ref": "0"}
	}
	p.event(M{"e": "end", "ret": p.ret, "res": M{"ok": r.Success, "out": x(r.Output), "gas": n(int64(r.GasLeft)), "ref": n(int64(r.GasRefund)), "err": err != nil}})
	p.depth--
	p.last, p.seen = last, M{}
}

// --- stepping ------------------------------------------------------------------------
func fields(s *st.State) M {
	l := L{}
	for i := s.Stack.Size() - 1; i >= 0; i-- {
		b := s.Stack.Get(i).Bytes32be()
		l = append(l, x(b[:]))
	}
	m := s.Memory.Clone()
	return M{"st": s.Status.String(), "pc": int(s.Pc), "gas": n(int64(s.Gas)), "ref": n(int64(s.GasRefund)), "stack": l, "mem": x(m.Read(0, uint64(m.Size()))), "last": x(s.LastCallReturnData.ToBytes()), "out": x(s.ReturnData.ToBytes())}
}

func stepping(name string, m evmc.StepParameters) (evmc.StepResult, error) {
	q, _ := plays.Load(m.Recipient)
	p := q.(*play)
	p.seen = M{"rev": int(m.Revision), "kind": int(m.Kind), "static": m.Static, "depth": n(int64(m.Depth)), "gas": n(m.Gas), "rcpt": x(m.Recipient[:]), "sender": x(m.Sender[:]), "input": x(m.Input), "value": x(m.Value[:]),
		"codehash": optional(m.CodeHash), "code": x(m.Code), "ref": n(m.GasRefund), "last": x(m.LastCallResult), "st": int(m.StepStatusCode), "pc": n(int64(m.Pc)), "stack": x(m.Stack), "mem": x(m.Memory), "steps": m.NumSteps}
	r := evmc.StepResult{StepStatusCode: evmc.StepStatus(p.r.Intn(6)), Revision: m.Revision, Pc: uint64(p.r.Intn(65536)), GasLeft: p.i64(), GasRefund: p.i64(), Output: p.some(), Memory: p.bytes(32 * p.r.Intn(4)), LastCallReturnData: p.some()}
	words := p.r.Intn(4)
	if p.r.Intn(5) == 0 {
		words = p.r.Intn(1025)
	}
	l := L{}
	for i := 0; i < words; i++ {
		w := p.w32()
		l = append(l, x(w[:]))
		r.Stack = append(r.Stack, w[:]...)
	}
	odd := p.r.Intn(8) == 0
	if odd {
		r.Stack = append(r.Stack, p.bytes(1+p.r.Intn(31))...)
	}
	p.ret = M{"st": int(r.StepStatusCode), "pc": int(r.Pc), "gas": n(r.GasLeft), "ref": n(r.GasRefund), "out": x(r.Output), "stack": l, "odd": odd, "mem": x(r.Memory), "last": x(r.LastCallReturnData), "err": false}
	if p.r.Intn(10) == 0 {
		p.ret.(M)["err"] = true
		return r, errors.New("failed")
	}
	return r, nil
}

func (p *play) step() {
	q := p.params()
	p.last = q
	plays.Store(evmc.Address(q.Recipient), p)
	s := st.NewState(st.NewCode(q.Code))
	s.Status = st.StatusCode(p.r.Intn(4))
	s.Pc = uint16(p.r.Intn(65536))
	s.Gas, s.GasRefund = tosca.Gas(p.i64()), tosca.Gas(p.i64())
	k := p.r.Intn(4)
	if p.r.Intn(5) == 0 {
		k = p.r.Intn(1025)
	}
	for ; k > 0; k-- {
		w := p.w32()
		s.Stack.Push(common.NewU256FromBytes(w[:]...))
	}
	s.Memory.Set(p.bytes(32 * p.r.Intn(4)))
	s.LastCallReturnData, s.ReturnData = common.NewBytes(p.some()), common.NewBytes(p.some())
	s.Storage.SetCurrent(common.NewU256(1), common.NewU256(2))
	s.CallData = common.NewBytes(p.some())
	s.ReadOnly = p.yes()
	before := fields(s)
	rest := s.Clone()
	p.seen, p.ret = nil, nil
	steps := p.r.Intn(5)
	t, err := p.steps.StepN(*q, s, steps)
	plays.Delete(evmc.Address(q.Recipient))
	e := M{"e": "step", "p": parameters(q), "s": before, "steps": steps, "err": err != nil, "m": "none", "ret": "none", "t": "none", "same": true, "reached": p.seen != nil}
	if p.seen != nil {
		e["m"], e["ret"] = p.seen, p.ret
	}
	if t != nil && err == nil {
		e["t"] = fields(t)
		rest.Status, rest.Pc, rest.Gas, rest.GasRefund, rest.Stack, rest.Memory, rest.LastCallReturnData, rest.ReturnData = t.Status, t.Pc, t.Gas, t.GasRefund, t.Stack, t.Memory, t.LastCallReturnData, t.ReturnData
		e["same"] = len(rest.Diff(t)) == 0
	}
	p.event(e)
}

func newPlay(seed int64, vm *bridge.EvmcInterpreter, steps *bridge.SteppableEvmcInterpreter) *play {
	p := &play{r: rand.New(rand.NewSource(seed)), vm: vm, steps: steps, world: map[tosca.Address]*account{}, store: map[string]tosca.Word{}, left: 40}
	accts := L{}
	for i, a := range known {
		t := account{}
		if i&1 != 0 && p.yes() {
			t.bal = p.w32()
		}
		if i&2 != 0 && p.yes() {
			t.code = p.some()
		}
		if p.r.Intn(3) == 0 {
			t.nonce = uint64(p.r.Intn(3))
		}
		p.r.Read(t.hash[:])
		if p.r.Intn(4) > 0 {
			p.world[a] = &t
		} else {
			t = account{}
		}
		accts = append(accts, L{x(a[:]), n(int64(t.nonce)), x(t.bal[:]), x(t.code), n(int64(len(t.code))), x(t.hash[:])})
	}
	p.events = L{M{"e": "world", "accts": accts, "calls": L{}, "d": 0}}
	return p
}

func main() {
	count, _ := strconv.Atoi(os.Args[2])
	seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
	for i := range known {
		known[i] = tosca.Address{0: byte(i), 19: byte(i * 17)}
	}
	evmc.ScriptedExecute = func(name string, m evmc.Message) (evmc.Result, error) { return machine(m) }
	evmc.ScriptedStep = stepping
	vm, err := bridge.LoadEvmcInterpreter("scripted:vm")
	if err != nil {
		panic(err)
	}
	steps, err := bridge.LoadSteppableEvmcInterpreter("scripted:vm")
	if err != nil {
		panic(err)
	}
	out, err := os.Create(os.Args[1])
	if err != nil {
		panic(err)
	}
	b := bufio.NewWriter(out)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for t := 0; t < 4; t++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := t; i < count; i += 4 {
				p := newPlay(seed*1000003+int64(i), vm, steps)
				func() {
					defer func() {
						if e := recover(); e != nil {
							p.event(M{"e": "panic", "what": fmt.Sprint(e)})
						}
					}()
					if i%3 == 2 {
						p.step()
					} else {
						p.run()
					}
				}()
				j, err := json.Marshal(M{"id": fmt.Sprintf("b%d", i), "ev": p.events})
				if err != nil {
					panic(err)
				}
				mu.Lock()
				b.Write(j)
				b.WriteByte('\n')
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	b.Flush()
	out.Close()
}
