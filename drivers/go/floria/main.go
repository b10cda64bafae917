// Executes transactions with the processor floria on a concrete world state
// and an interpreter that follows scripts, and records everything observable.
//
// usage: floria CASES RUNS
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"sort"

	_ "github.com/Fantom-foundation/Tosca/go/processor/floria"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"golang.org/x/crypto/sha3"
)

type Bytes []int

func (b Bytes) raw() []byte {
	if b == nil {
		return nil
	}
	res := make([]byte, len(b))
	for i, x := range b {
		res[i] = byte(x)
	}
	return res
}
func ints(b []byte) Bytes {
	res := make(Bytes, len(b))
	for i, x := range b {
		res[i] = int(x)
	}
	return res
}
func trim(b []byte) Bytes {
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	return ints(b)
}
func fill(dst []byte, b Bytes) {
	copy(dst[len(dst)-len(b):], b.raw())
}
func (b Bytes) value() (r tosca.Value)  { fill(r[:], b); return }
func (b Bytes) word() (r tosca.Word)    { fill(r[:], b); return }
func (b Bytes) key() (r tosca.Key)      { fill(r[:], b); return }
func (b Bytes) hash() (r tosca.Hash)    { fill(r[:], b); return }
func (b Bytes) addr() (r tosca.Address) { fill(r[:], b); return }
func (b Bytes) num() (r uint64) {
	for _, x := range b {
		r = r<<8 | uint64(x)
	}
	return
}
func num(x uint64) Bytes {
	var b []byte
	for ; x > 0; x >>= 8 {
		b = append([]byte{byte(x)}, b...)
	}
	return ints(b)
}

type Account struct {
	A Bytes      `json:"a"`
	B Bytes      `json:"b"`
	N Bytes      `json:"n"`
	C Bytes      `json:"c"`
	S [][2]Bytes `json:"s"`
}
type Tuple struct {
	A Bytes   `json:"a"`
	K []Bytes `json:"k"`
}
type Tx struct {
	Sender Bytes   `json:"sender"`
	To     Bytes   `json:"to"`
	Create bool    `json:"create"`
	Nonce  Bytes   `json:"nonce"`
	Input  Bytes   `json:"input"`
	Value  Bytes   `json:"value"`
	Gas    Bytes   `json:"gas"`
	Price  Bytes   `json:"price"`
	HasAl  bool    `json:"hasal"`
	Al     []Tuple `json:"al"`
}
type Op struct {
	O     string `json:"o"`
	Kind  int    `json:"kind"`
	To    Bytes  `json:"to"`
	Value Bytes  `json:"value"`
	Input Bytes  `json:"input"`
	Gas   Bytes  `json:"gas"` // absolute, capped by the gas of the frame
	Salt  Bytes  `json:"salt"`
	K     Bytes  `json:"k"`
	V     Bytes  `json:"v"`
	Ok    bool   `json:"ok"`
	Out   Bytes  `json:"out"`
	Left  Bytes  `json:"left"` // gas left, capped by the gas of the frame
	Ref   Bytes  `json:"ref"`
	Err   bool   `json:"err"`
	Neg   bool   `json:"neg"` // the refund is negative
	Ca    Bytes  `json:"ca"`  // code address given to kinds of calls that ignore it
}
type Case struct {
	Id     string    `json:"id"`
	Rev    int       `json:"rev"`
	Tx     Tx        `json:"tx"`
	World  []Account `json:"world"`
	Script []Op      `json:"script"`
	More   []Tx      `json:"more"` // further transactions on the resulting world, without script
}

// --- the world -------------------------------------------------------------

type slot struct {
	a tosca.Address
	k tosca.Key
}
type account struct {
	balance tosca.Value
	nonce   uint64
	code    string
	storage map[tosca.Key]tosca.Word
}
type world struct {
	accounts  map[tosca.Address]account
	original  map[tosca.Address]account
	logs      []tosca.Log
	warm      map[tosca.Address]bool
	slots     map[slot]bool
	transient map[slot]tosca.Word
	gone      map[tosca.Address]bool
	snapshots []*world
	bad       bool
	fresh     map[tosca.Address]bool // created by the transaction
	refund    uint64                 // used by StateDBs only
}

// What drivers of other processors than floria change.
var (
	newProcessor = func(in tosca.Interpreter) tosca.Processor { return tosca.GetProcessor("floria", in) }
	sameEnv      = func(a, b tosca.BlockParameters, x, y tosca.TransactionParameters) bool {
		x.BlobHashes = nil
		return reflect.DeepEqual(a, b) && reflect.DeepEqual(x, y)
	}
	prepare      = func(w *world, b tosca.BlockParameters) {}
	systemDirect = false // the system contract is only called directly, and not in static contexts
	showsLogs    = true
)

func (w *world) copy() *world {
	r := &world{map[tosca.Address]account{}, w.original, append([]tosca.Log(nil), w.logs...), map[tosca.Address]bool{}, map[slot]bool{}, map[slot]tosca.Word{}, map[tosca.Address]bool{}, nil, false, map[tosca.Address]bool{}, w.refund}
	for a, x := range w.accounts {
		s := map[tosca.Key]tosca.Word{}
		for k, v := range x.storage {
			s[k] = v
		}
		x.storage = s
		r.accounts[a] = x
	}
	for a := range w.warm {
		r.warm[a] = true
	}
	for a := range w.slots {
		r.slots[a] = true
	}
	for a, v := range w.transient {
		r.transient[a] = v
	}
	for a := range w.gone {
		r.gone[a] = true
	}
	for a := range w.fresh {
		r.fresh[a] = true
	}
	return r
}

func (w *world) AccountExists(a tosca.Address) bool {
	x := w.accounts[a]
	return x.balance != tosca.Value{} || x.nonce != 0 || x.code != ""
}
func (w *world) GetBalance(a tosca.Address) tosca.Value { return w.accounts[a].balance }
func (w *world) SetBalance(a tosca.Address, v tosca.Value) {
	x := w.accounts[a]
	x.balance = v
	w.accounts[a] = x
}
func (w *world) GetNonce(a tosca.Address) uint64 { return w.accounts[a].nonce }
func (w *world) SetNonce(a tosca.Address, n uint64) {
	x := w.accounts[a]
	x.nonce = n
	w.accounts[a] = x
}
func (w *world) GetCode(a tosca.Address) tosca.Code { return tosca.Code(w.accounts[a].code) }
func (w *world) GetCodeHash(a tosca.Address) (h tosca.Hash) {
	if !w.AccountExists(a) {
		return
	}
	k := sha3.NewLegacyKeccak256()
	k.Write([]byte(w.accounts[a].code))
	k.Sum(h[:0])
	return
}
func (w *world) GetCodeSize(a tosca.Address) int { return len(w.accounts[a].code) }
func (w *world) SetCode(a tosca.Address, c tosca.Code) {
	x := w.accounts[a]
	x.code = string(c)
	w.accounts[a] = x
}
func (w *world) GetStorage(a tosca.Address, k tosca.Key) tosca.Word { return w.accounts[a].storage[k] }
func (w *world) SetStorage(a tosca.Address, k tosca.Key, v tosca.Word) tosca.StorageStatus {
	x := w.accounts[a]
	if x.storage == nil {
		x.storage = map[tosca.Key]tosca.Word{}
	}
	c := x.storage[k]
	x.storage[k] = v
	w.accounts[a] = x
	return tosca.GetStorageStatus(w.original[a].storage[k], c, v)
}
func (w *world) SelfDestruct(a, b tosca.Address) bool {
	if a != b {
		w.SetBalance(b, tosca.Add(w.GetBalance(b), w.GetBalance(a)))
	}
	w.SetBalance(a, tosca.Value{})
	first := !w.gone[a]
	w.gone[a] = true
	return first
}
func (w *world) CreateSnapshot() tosca.Snapshot {
	w.snapshots = append(w.snapshots, w.copy())
	return tosca.Snapshot(len(w.snapshots) - 1)
}
func (w *world) RestoreSnapshot(s tosca.Snapshot) {
	if s < 0 || int(s) >= len(w.snapshots) {
		w.bad = true
		return
	}
	o := w.snapshots[s].copy()
	o.snapshots = w.snapshots[:s]
	o.bad = w.bad
	*w = *o
}
func (w *world) GetTransientStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return w.transient[slot{a, k}]
}
func (w *world) SetTransientStorage(a tosca.Address, k tosca.Key, v tosca.Word) {
	w.transient[slot{a, k}] = v
}
func (w *world) AccessAccount(a tosca.Address) tosca.AccessStatus {
	r := w.warm[a]
	w.warm[a] = true
	return tosca.AccessStatus(r)
}
func (w *world) AccessStorage(a tosca.Address, k tosca.Key) tosca.AccessStatus {
	r := w.slots[slot{a, k}]
	w.warm[a] = true
	w.slots[slot{a, k}] = true
	return tosca.AccessStatus(r)
}
func (w *world) EmitLog(l tosca.Log)             { w.logs = append(w.logs, l) }
func (w *world) GetLogs() []tosca.Log            { return append([]tosca.Log(nil), w.logs...) }
func (w *world) GetBlockHash(n int64) tosca.Hash { return tosca.Hash{byte(n), byte(n >> 8), 1} }
func (w *world) GetCommittedStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return w.original[a].storage[k]
}
func (w *world) IsAddressInAccessList(a tosca.Address) bool { return w.warm[a] }
func (w *world) IsSlotInAccessList(a tosca.Address, k tosca.Key) (bool, bool) {
	return w.warm[a], w.slots[slot{a, k}]
}
func (w *world) HasSelfDestructed(a tosca.Address) bool { return w.gone[a] }

type M = map[string]any

// topics of the logs with some data.
func topics(d []byte) (r []tosca.Hash) {
	for i := 0; i < len(d)%5; i++ {
		if d[i]%3 == 0 {
			r = append(r, tosca.Hash{})
		} else {
			r = append(r, tosca.Hash{byte(i), d[i], 31: byte(len(d))})
		}
	}
	return r
}

func logs(ls []tosca.Log) []M {
	r := []M{}
	for _, l := range ls {
		d := ints(l.Data)
		if t := topics(l.Data); len(t) != len(l.Topics) || len(t) > 0 && !reflect.DeepEqual(t, l.Topics) {
			d = append(d, 1000) // not what has been emitted
		}
		r = append(r, M{"a": ints(l.Address[:]), "d": d})
	}
	return r
}

// dump shows the world: all accounts, logs, and what has been accessed.
func (w *world) dump() M {
	acc := []Account{}
	for a, x := range w.accounts {
		s := [][2]Bytes{}
		for k, v := range x.storage {
			if v != (tosca.Word{}) {
				s = append(s, [2]Bytes{trim(k[:]), trim(v[:])})
			}
		}
		sort.Slice(s, func(i, j int) bool { return fmt.Sprint(s[i]) < fmt.Sprint(s[j]) })
		if x.balance == (tosca.Value{}) && x.nonce == 0 && x.code == "" && len(s) == 0 {
			continue
		}
		acc = append(acc, Account{ints(a[:]), trim(x.balance[:]), num(x.nonce), ints([]byte(x.code)), s})
	}
	sort.Slice(acc, func(i, j int) bool { return fmt.Sprint(acc[i].A) < fmt.Sprint(acc[j].A) })
	warm, slots := []Bytes{}, [][2]Bytes{}
	for a := range w.warm {
		warm = append(warm, ints(a[:]))
	}
	for s := range w.slots {
		slots = append(slots, [2]Bytes{ints(s.a[:]), trim(s.k[:])})
	}
	tr, gone := [][3]Bytes{}, []Bytes{}
	for s, v := range w.transient {
		if v != (tosca.Word{}) {
			tr = append(tr, [3]Bytes{ints(s.a[:]), trim(s.k[:]), trim(v[:])})
		}
	}
	for a := range w.gone {
		gone = append(gone, ints(a[:]))
	}
	for _, x := range [][]Bytes{warm, gone} {
		sort.Slice(x, func(i, j int) bool { return fmt.Sprint(x[i]) < fmt.Sprint(x[j]) })
	}
	sort.Slice(slots, func(i, j int) bool { return fmt.Sprint(slots[i]) < fmt.Sprint(slots[j]) })
	sort.Slice(tr, func(i, j int) bool { return fmt.Sprint(tr[i]) < fmt.Sprint(tr[j]) })
	return M{"acc": acc, "logs": logs(w.logs), "warm": warm, "slots": slots, "tr": tr, "gone": gone}
}

// --- the interpreter --------------------------------------------------------

type recorder struct {
	w      *world
	last   string
	events []M
}

// add records an event; the world is left out where it has not changed.
func (r *recorder) add(e M) {
	d := r.w.dump()
	s, _ := json.Marshal(d)
	e["same"] = string(s) == r.last
	if !e["same"].(bool) {
		e["w"] = d
		r.last = string(s)
	}
	r.events = append(r.events, e)
}

var systemAddress = tosca.Address{0xd1, 0x00, 0xec}

type scripted struct {
	r      *recorder
	script []Op
	block  tosca.BlockParameters
	tx     tosca.TransactionParameters
}

func min(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

func (s *scripted) Run(p tosca.Parameters) (tosca.Result, error) {
	block, txp := p.BlockParameters, p.TransactionParameters
	e := M{"e": "enter", "kind": int(p.Kind), "static": p.Static, "depth": p.Depth, "gas": num(uint64(p.Gas)), "rcpt": ints(p.Recipient[:]), "sender": ints(p.Sender[:]),
		"input": ints(p.Input), "value": trim(p.Value[:]), "code": ints(p.Code), "hash": Bytes{}, "env": sameEnv(block, s.block, txp, s.tx)}
	if p.CodeHash != nil {
		e["hash"] = ints(p.CodeHash[:])
	}
	s.r.add(e)
	left := uint64(p.Gas)
	if p.Gas < 0 {
		left = 0
	}
	for {
		if len(s.script) == 0 {
			s.r.add(M{"e": "leave", "ok": true, "out": Bytes{}, "gas": num(left), "ref": Bytes{}, "neg": false, "err": false})
			return tosca.Result{Success: true, GasLeft: tosca.Gas(left)}, nil
		}
		op := s.script[0]
		s.script = s.script[1:]
		switch op.O {
		case "sstore":
			st := p.Context.SetStorage(p.Recipient, op.K.key(), op.V.word())
			s.r.add(M{"e": "sstore", "k": trim(op.K.raw()), "v": trim(op.V.raw()), "st": int(st)})
		case "tstore":
			p.Context.SetTransientStorage(p.Recipient, op.K.key(), op.V.word())
			s.r.add(M{"e": "tstore", "k": trim(op.K.raw()), "v": trim(op.V.raw())})
		case "slot":
			st := p.Context.AccessStorage(op.To.addr(), op.K.key())
			s.r.add(M{"e": "slot", "a": op.To, "k": trim(op.K.raw()), "st": bool(st)})
		case "destroy":
			first := p.Context.SelfDestruct(p.Recipient, op.To.addr())
			s.r.add(M{"e": "destroy", "a": op.To, "st": first})
		case "put":
			// changes that interpreters do not make
			if p.Static {
				continue
			}
			a := op.To.addr()
			switch op.Kind {
			case 1:
				p.Context.SetBalance(a, op.V.value())
			case 2:
				p.Context.SetNonce(a, op.V.num())
			case 3:
				p.Context.SetCode(a, op.V.raw())
			default:
				s := p.Context.CreateSnapshot()
				p.Context.SetNonce(a, 77)
				p.Context.SetStorage(a, tosca.Key{31: 1}, tosca.Word{31: 9})
				p.Context.EmitLog(tosca.Log{Address: a})
				p.Context.SetTransientStorage(a, tosca.Key{31: 1}, tosca.Word{31: 8})
				p.Context.RestoreSnapshot(s)
			}
			s.r.add(M{"e": "put", "kind": op.Kind, "a": op.To, "v": op.V})
		case "log":
			p.Context.EmitLog(tosca.Log{Address: p.Recipient, Topics: topics(op.V.raw()), Data: op.V.raw()})
			s.r.add(M{"e": "log", "d": op.V})
		case "access":
			st := p.Context.AccessAccount(op.To.addr())
			s.r.add(M{"e": "access", "a": op.To, "st": bool(st)})
		case "look":
			// what the context shows equals the world
			a := op.To.addr()
			c, w := p.Context, s.r.w
			k := op.K.key()
			s1, s2 := c.IsSlotInAccessList(a, k)
			t1, t2 := w.IsSlotInAccessList(a, k)
			s.r.add(M{"e": "look", "ok": c.GetBalance(a) == w.GetBalance(a) && c.GetNonce(a) == w.GetNonce(a) && string(c.GetCode(a)) == string(w.GetCode(a)) &&
				c.GetCodeHash(a) == w.GetCodeHash(a) && c.GetCodeSize(a) == w.GetCodeSize(a) && c.GetStorage(a, k) == w.GetStorage(a, k) && c.AccountExists(a) == w.AccountExists(a) &&
				c.GetCommittedStorage(a, k) == w.GetCommittedStorage(a, k) && c.IsAddressInAccessList(a) == w.IsAddressInAccessList(a) && s1 == t1 && s2 == t2 &&
				(!showsLogs || reflect.DeepEqual(c.GetLogs(), w.GetLogs())) && c.GetTransientStorage(a, k) == w.GetTransientStorage(a, k) && c.HasSelfDestructed(a) == w.HasSelfDestructed(a) &&
				c.GetBlockHash(int64(k[31])+770) == w.GetBlockHash(int64(k[31])+770)})
		case "call":
			kind := tosca.CallKind(op.Kind)
			if systemDirect && op.To.addr() == systemAddress && (p.Static || kind != tosca.Call) {
				continue
			}
			q := tosca.CallParameters{Sender: p.Recipient, Recipient: op.To.addr(), Value: op.Value.value(), Input: op.Input.raw(), Gas: tosca.Gas(min(left, op.Gas.num())), CodeAddress: op.Ca.addr()}
			if p.Static {
				q.Value = tosca.Value{} // interpreters do not issue such calls
				if kind == tosca.Create || kind == tosca.Create2 {
					continue
				}
			}
			switch kind {
			case tosca.DelegateCall:
				q.Sender, q.Recipient, q.CodeAddress, q.Value = p.Sender, p.Recipient, op.To.addr(), p.Value
			case tosca.StaticCall:
				q.Value = tosca.Value{}
			case tosca.CallCode:
				q.Recipient, q.CodeAddress = p.Recipient, op.To.addr()
			case tosca.Create, tosca.Create2:
				q.Recipient = tosca.Address{}
				q.Salt = op.Salt.hash()
			}
			s.r.add(M{"e": "call", "kind": op.Kind, "gas": num(uint64(q.Gas)), "rcpt": ints(q.Recipient[:]), "sender": ints(q.Sender[:]), "input": ints(q.Input),
				"value": trim(q.Value[:]), "salt": ints(q.Salt[:]), "codeaddr": ints(q.CodeAddress[:])})
			left -= uint64(q.Gas)
			res, err := p.Context.Call(kind, q)
			s.r.add(M{"e": "result", "ok": res.Success, "out": ints(res.Output), "gas": num(uint64(res.GasLeft)), "ref": num(uint64(res.GasRefund)), "created": ints(res.CreatedAddress[:]), "err": err != nil})
			if res.GasLeft > 0 {
				left += uint64(min(uint64(res.GasLeft), uint64(q.Gas)))
			}
		case "ret":
			out := op.Out.raw()
			if op.K != nil { // so many bytes of that value
				out = make([]byte, op.K.num())
				for i := range out {
					out[i] = byte(op.V.num())
				}
			}
			left = min(left, op.Left.num())
			s.r.add(M{"e": "leave", "ok": op.Ok, "out": ints(out), "gas": num(left), "ref": num(op.Ref.num()), "neg": op.Neg, "err": op.Err})
			ref := tosca.Gas(op.Ref.num())
			if op.Neg {
				ref = -ref
			}
			if op.Err {
				return tosca.Result{Success: op.Ok, Output: out, GasLeft: tosca.Gas(left), GasRefund: ref}, errors.New("broken interpreter")
			}
			return tosca.Result{Success: op.Ok, Output: out, GasLeft: tosca.Gas(left), GasRefund: ref}, nil
		}
	}
}

func (t Tx) transaction() tosca.Transaction {
	r := tosca.Transaction{Sender: t.Sender.addr(), Nonce: t.Nonce.num(), Input: t.Input.raw(), Value: t.Value.value(), GasLimit: tosca.Gas(t.Gas.num()), GasPrice: t.Price.value()}
	if !t.Create {
		to := t.To.addr()
		r.Recipient = &to
	}
	if t.HasAl {
		r.AccessList = []tosca.AccessTuple{}
		for _, x := range t.Al {
			y := tosca.AccessTuple{Address: x.A.addr()}
			for _, k := range x.K {
				y.Keys = append(y.Keys, k.key())
			}
			r.AccessList = append(r.AccessList, y)
		}
	}
	return r
}

func execute(c Case) M {
	w := &world{accounts: map[tosca.Address]account{}, warm: map[tosca.Address]bool{}, slots: map[slot]bool{}, transient: map[slot]tosca.Word{}, gone: map[tosca.Address]bool{}, fresh: map[tosca.Address]bool{}}
	for _, x := range c.World {
		s := map[tosca.Key]tosca.Word{}
		for _, e := range x.S {
			s[e[0].key()] = e[1].word()
		}
		w.accounts[x.A.addr()] = account{x.B.value(), x.N.num(), string(x.C.raw()), s}
	}
	rec := &recorder{w: w}
	script := c.Script
	for i, t := range append([]Tx{c.Tx}, c.More...) {
		w.original = w.copy().accounts
		w.snapshots, w.logs, w.warm, w.slots, w.transient = nil, nil, map[tosca.Address]bool{}, map[slot]bool{}, map[slot]tosca.Word{}
		w.gone, w.fresh, w.refund = map[tosca.Address]bool{}, map[tosca.Address]bool{}, 0
		tx := t.transaction()
		block := tosca.BlockParameters{Revision: tosca.Revision(c.Rev), BlockNumber: int64(100 + i), Timestamp: 7, GasLimit: 1 << 40, Coinbase: tosca.Address{9}, ChainID: tosca.Word{1}, BaseFee: tosca.Value{2}, PrevRandao: tosca.Hash{3}, BlobBaseFee: tosca.Value{4}}
		in := &scripted{rec, script, block, tosca.TransactionParameters{Origin: tx.Sender, GasPrice: tx.GasPrice}}
		p := newProcessor(in)
		prepare(w, block)
		rec.last = ""
		rec.add(M{"e": "tx", "tx": i})
		rcpt, err := p.Run(block, tx, w)
		script = in.script
		e := M{"e": "end", "ok": rcpt.Success, "out": ints(rcpt.Output), "used": num(uint64(rcpt.GasUsed)), "blob": num(uint64(rcpt.BlobGasUsed)), "hasc": rcpt.ContractAddress != nil, "c": Bytes{}, "logs": logs(rcpt.Logs), "err": err != nil, "bad": w.bad}
		if rcpt.ContractAddress != nil {
			e["c"] = ints(rcpt.ContractAddress[:])
		}
		rec.add(e)
	}
	return M{"id": c.Id, "ev": rec.events}
}

func main() {
	in, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	defer out.Close()
	buf := bufio.NewWriter(out)
	defer buf.Flush()
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<28)
	for sc.Scan() {
		var c Case
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			panic(err)
		}
		os.WriteFile(os.Args[2]+".case", []byte(c.Id), 0644)
		b, err := json.Marshal(execute(c))
		if err != nil {
			panic(err)
		}
		buf.Write(b)
		buf.WriteByte('\n')
	}
	_ = hex.EncodeToString
}
