// Runs cases (text file) on the Go interpreters registered with Tosca and
// records what they do, in the format of drivers/evm.cc.
//
//	evmrun CASES OUT MODE [ARG]
//	  steps      instruction by instruction, in every configuration of lfvm that differs in its code
//	  exec       uninterrupted, in every registered configuration, twice, in different orders
//	  threads N  uninterrupted on N goroutines that share the interpreters
//	  nested     every nested call first executes another case on the same interpreter
//	  targets    instruction by instruction, on the targets of the conformance tool
//	  ct         instruction by instruction, by the rules of the conformance tool
package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"
	"github.com/Fantom-foundation/Tosca/go/tosca"
)

type B32 [32]byte

func hx(s string) []byte {
	if s == "-" {
		return nil
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}
func b32(s string) (r B32) { b := hx(s); copy(r[32-len(b):], b); return }
func num(b B32) int64 {
	r := uint64(0)
	for _, x := range b[24:] {
		r = r<<8 | uint64(x)
	}
	return int64(r)
}
func adr(b B32) (r tosca.Address) { copy(r[:], b[12:]); return }
func wrd(a tosca.Address) (r B32) { copy(r[12:], a[:]); return }

type acct struct {
	bal  B32
	code []byte
	hash B32
	ex   bool
}
type slot struct{ o, c B32 }
type kv struct{ k, v B32 }
type script struct {
	st       int
	gas, ref int64
	out      []byte
	addr     B32
	writes   []kv
}
type Case struct {
	id          string
	rev, depth  int
	static      bool
	gas         int64
	code, input []byte
	codehash    B32
	hashmode    int
	destructed  bool
	env         map[string]B32
	blobs       []tosca.Hash
	accts       map[B32]acct
	slots       map[B32]slot
	trans       map[B32]B32
	wa, ws      map[B32]bool
	calls       []script
	stack       [][32]byte
	limit, skip int
}

func load(file string) (res []*Case) {
	f, err := os.Open(file)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	rd := bufio.NewReaderSize(f, 1<<20)
	var c *Case
	atoi := func(s string) int {
		v, err := strconv.Atoi(s)
		if err != nil {
			panic(err)
		}
		return v
	}
	for {
		line, err := rd.ReadString('\n')
		if err != nil {
			break
		}
		t := strings.Fields(line)
		if len(t) == 0 {
			continue
		}
		switch t[0] {
		case "case":
			c = &Case{id: t[1], env: map[string]B32{}, accts: map[B32]acct{}, slots: map[B32]slot{}, trans: map[B32]B32{}, wa: map[B32]bool{}, ws: map[B32]bool{}, limit: 3000}
		case "rev":
			c.rev = atoi(t[1])
		case "static":
			c.static = t[1] == "1"
		case "depth":
			c.depth = atoi(t[1])
		case "gas":
			c.gas = int64(atoi(t[1]))
		case "limit":
			c.limit = atoi(t[1])
		case "skip":
			c.skip = atoi(t[1])
		case "code":
			c.code = hx(t[1])
		case "input":
			c.input = hx(t[1])
		case "codehash":
			c.hashmode = atoi(t[1])
			c.codehash = b32(t[2])
		case "env":
			c.env[t[1]] = b32(t[2])
		case "blob":
			c.blobs = append(c.blobs, tosca.Hash(b32(t[1])))
		case "acct":
			c.accts[b32(t[1])] = acct{b32(t[2]), hx(t[3]), b32(t[4]), t[5] == "1"}
		case "slot":
			c.slots[b32(t[1])] = slot{b32(t[2]), b32(t[3])}
		case "trans":
			c.trans[b32(t[1])] = b32(t[2])
		case "destructed":
			c.destructed = t[1] == "1"
		case "stk":
			c.stack = append(c.stack, b32(t[1]))
		case "wa":
			c.wa[b32(t[1])] = true
		case "ws":
			c.ws[b32(t[1])] = true
		case "call":
			s := script{st: atoi(t[1]), gas: int64(atoi(t[2])), ref: int64(atoi(t[3])), out: hx(t[4]), addr: b32(t[5])}
			for i := 0; i < atoi(t[6]); i++ {
				s.writes = append(s.writes, kv{b32(t[7+2*i]), b32(t[8+2*i])})
			}
			c.calls = append(c.calls, s)
		case "end":
			res = append(res, c)
		}
	}
	return
}

// --- JSON ---------------------------------------------------------------------
type Json struct{ bytes.Buffer }

func (j *Json) raw(f string, a ...any) { fmt.Fprintf(j, f, a...) }
func (j *Json) num(x int64) {
	j.raw("%d", max(-1100000000, min(1100000000, x)))
}
func (j *Json) list(b []byte) {
	j.WriteByte('[')
	for i, x := range b {
		if i > 0 {
			j.WriteByte(',')
		}
		j.WriteString(strconv.Itoa(int(x)))
	}
	j.WriteByte(']')
}
func (j *Json) word(b []byte) {
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	j.list(b)
}
func (j *Json) gas(g int64) {
	j.raw("[")
	const mask = 1<<30 - 1
	j.num(g >> 60)
	j.raw(",%d,%d]", (g>>30)&mask, g&mask)
}

// --- the world ------------------------------------------------------------------
type World struct {
	c          *Case
	self       B32
	bal        map[B32]B32
	ex         map[B32]bool
	slots      map[B32]slot
	trans      map[B32]B32
	wa, ws     map[B32]bool
	ncalls     int
	destructed bool
	eff        []string
	newa, news []B32
	onCall     func()
	extra      string // further fields of the next observation
}

func clone[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}
func newWorld(c *Case) *World {
	w := &World{c: c, self: c.env["self"], bal: map[B32]B32{}, ex: map[B32]bool{}, slots: clone(c.slots), trans: clone(c.trans), destructed: c.destructed, wa: clone(c.wa), ws: clone(c.ws)}
	for a, t := range c.accts {
		w.bal[a] = t.bal
		if t.ex {
			w.ex[a] = true
		}
	}
	return w
}
func (w *World) bad(what string) { w.eff = append(w.eff, fmt.Sprintf(`{"t":"bad","what":"%s"}`, what)) }
func (w *World) own(a tosca.Address, what string) bool {
	if wrd(a) != w.self {
		w.bad(what)
		return false
	}
	return true
}
func (w *World) AccountExists(a tosca.Address) bool     { return w.ex[wrd(a)] }
func (w *World) GetBalance(a tosca.Address) tosca.Value { return tosca.Value(w.bal[wrd(a)]) }
func (w *World) SetBalance(tosca.Address, tosca.Value)  { w.bad("SetBalance") }
func (w *World) GetNonce(a tosca.Address) uint64 {
	if w.ex[wrd(a)] {
		return 1
	}
	return 0
}
func (w *World) SetNonce(tosca.Address, uint64)             { w.bad("SetNonce") }
func (w *World) GetCode(a tosca.Address) tosca.Code         { return w.c.accts[wrd(a)].code }
func (w *World) GetCodeHash(a tosca.Address) tosca.Hash     { return tosca.Hash(w.c.accts[wrd(a)].hash) }
func (w *World) GetCodeSize(a tosca.Address) int            { return len(w.c.accts[wrd(a)].code) }
func (w *World) SetCode(tosca.Address, tosca.Code)          { w.bad("SetCode") }
func (w *World) CreateSnapshot() tosca.Snapshot             { w.bad("CreateSnapshot"); return 0 }
func (w *World) RestoreSnapshot(tosca.Snapshot)             { w.bad("RestoreSnapshot") }
func (w *World) GetLogs() []tosca.Log                       { return nil }
func (w *World) HasSelfDestructed(tosca.Address) bool       { return w.destructed }
func (w *World) IsAddressInAccessList(a tosca.Address) bool { return w.wa[wrd(a)] }
func (w *World) IsSlotInAccessList(a tosca.Address, k tosca.Key) (bool, bool) {
	return w.wa[wrd(a)], w.ws[B32(k)]
}
func (w *World) GetStorage(a tosca.Address, k tosca.Key) tosca.Word {
	if !w.own(a, "GetStorage") {
		return tosca.Word{}
	}
	return tosca.Word(w.slots[B32(k)].c)
}
func (w *World) GetCommittedStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return tosca.Word(w.slots[B32(k)].o)
}
func (w *World) SetStorage(a tosca.Address, k tosca.Key, v tosca.Word) tosca.StorageStatus {
	if !w.own(a, "SetStorage") {
		return 0
	}
	s := w.slots[B32(k)]
	o, c, n := s.o, s.c, B32(v)
	s.c = n
	w.slots[B32(k)] = s
	var j Json
	j.raw(`{"t":"sstore","k":`)
	j.word(k[:])
	j.raw(`,"v":`)
	j.word(v[:])
	j.raw("}")
	w.eff = append(w.eff, j.String())
	z := B32{}
	switch {
	case c == n:
		return tosca.StorageAssigned
	case o == c && o == z:
		return tosca.StorageAdded
	case o == c && n == z:
		return tosca.StorageDeleted
	case o == c:
		return tosca.StorageModified
	case o == z && n == z:
		return tosca.StorageAddedDeleted
	case o == z:
		return tosca.StorageAssigned
	case c == z && o == n:
		return tosca.StorageDeletedRestored
	case c == z:
		return tosca.StorageDeletedAdded
	case n == z:
		return tosca.StorageModifiedDeleted
	case o == n:
		return tosca.StorageModifiedRestored
	}
	return tosca.StorageAssigned
}
func (w *World) SelfDestruct(a, b tosca.Address) bool {
	w.own(a, "SelfDestruct")
	var j Json
	j.raw(`{"t":"sd","to":`)
	j.word(b[:])
	j.raw("}")
	w.eff = append(w.eff, j.String())
	first := !w.destructed
	w.destructed = true
	return first
}
func (w *World) GetTransientStorage(a tosca.Address, k tosca.Key) tosca.Word {
	w.own(a, "GetTransientStorage")
	return tosca.Word(w.trans[B32(k)])
}
func (w *World) SetTransientStorage(a tosca.Address, k tosca.Key, v tosca.Word) {
	w.own(a, "SetTransientStorage")
	w.trans[B32(k)] = B32(v)
	var j Json
	j.raw(`{"t":"tstore","k":`)
	j.word(k[:])
	j.raw(`,"v":`)
	j.word(v[:])
	j.raw("}")
	w.eff = append(w.eff, j.String())
}
func (w *World) AccessAccount(a tosca.Address) tosca.AccessStatus {
	k := wrd(a)
	if w.wa[k] {
		return tosca.WarmAccess
	}
	w.wa[k] = true
	w.newa = append(w.newa, k)
	return tosca.ColdAccess
}
func (w *World) AccessStorage(a tosca.Address, key tosca.Key) tosca.AccessStatus {
	if !w.own(a, "AccessStorage") {
		return tosca.ColdAccess
	}
	k := B32(key)
	if w.ws[k] {
		return tosca.WarmAccess
	}
	w.ws[k] = true
	w.news = append(w.news, k)
	return tosca.ColdAccess
}
func (w *World) EmitLog(l tosca.Log) {
	w.own(l.Address, "EmitLog")
	var j Json
	j.raw(`{"t":"log","data":`)
	j.list(l.Data)
	j.raw(`,"topics":[`)
	for i, t := range l.Topics {
		if i > 0 {
			j.raw(",")
		}
		j.word(t[:])
	}
	j.raw("]}")
	w.eff = append(w.eff, j.String())
}
func (w *World) GetBlockHash(n int64) (r tosca.Hash) {
	for i := range r {
		r[i] = byte(int(n&255) + i*13 + 1)
	}
	return
}
func add(a, b B32, sub bool) (r B32) {
	c := 0
	for i := 31; i >= 0; i-- {
		t := int(a[i]) + int(b[i]) + c
		if sub {
			t = int(a[i]) - int(b[i]) + c
		}
		r[i] = byte(t)
		c = t >> 8
	}
	return
}
func (w *World) Call(kind tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) {
	name := map[tosca.CallKind]string{tosca.Call: "call", tosca.StaticCall: "call", tosca.DelegateCall: "delegatecall", tosca.CallCode: "callcode",
		tosca.Create: "create", tosca.Create2: "create2"}[kind]
	create := kind == tosca.Create || kind == tosca.Create2
	// The context passes the read-only mode of the caller on to nested executions.
	static := kind == tosca.StaticCall || (w.c.static && kind != tosca.Call)
	var j Json
	j.raw(`{"t":"call","kind":"%s","static":%v,"depth":%d,"gas":`, name, static, w.c.depth+1)
	j.gas(int64(p.Gas))
	rc, ca := p.Recipient, p.CodeAddress
	if create {
		rc, ca = tosca.Address{}, tosca.Address{}
	}
	j.raw(`,"rcpt":`)
	j.word(rc[:])
	j.raw(`,"sender":`)
	j.word(p.Sender[:])
	j.raw(`,"codeaddr":`)
	j.word(ca[:])
	j.raw(`,"value":`)
	j.word(p.Value[:])
	j.raw(`,"input":`)
	j.list(p.Input)
	j.raw(`,"salt":`)
	if kind == tosca.Create2 {
		j.word(p.Salt[:])
	} else {
		j.raw("[]")
	}
	j.raw("}")
	w.eff = append(w.eff, j.String())
	if w.onCall != nil {
		w.onCall()
	}
	var s script
	if w.ncalls < len(w.c.calls) {
		s = w.c.calls[w.ncalls]
	}
	w.ncalls++
	res := tosca.CallResult{Success: s.st == 0, GasRefund: tosca.Gas(s.ref)}
	if s.st != 2 {
		res.GasLeft = min(tosca.Gas(s.gas), p.Gas)
		res.Output = bytes.Clone(s.out)
	}
	if s.st == 0 {
		res.CreatedAddress = adr(s.addr)
		for _, x := range s.writes {
			t := w.slots[x.k]
			t.c = x.v
			w.slots[x.k] = t
			if !w.ws[x.k] {
				w.ws[x.k] = true
				w.news = append(w.news, x.k)
			}
		}
		if p.Value != (tosca.Value{}) {
			if kind == tosca.Call {
				w.bal[w.self] = add(w.bal[w.self], B32(p.Value), true)
				to := wrd(p.Recipient)
				w.bal[to] = add(w.bal[to], B32(p.Value), false)
				w.ex[to] = true
			} else if create {
				w.bal[w.self] = add(w.bal[w.self], B32(p.Value), true)
			}
		}
	}
	return res, nil
}

func parameters(c *Case, w *World) tosca.Parameters {
	p := tosca.Parameters{
		BlockParameters: tosca.BlockParameters{ChainID: tosca.Word(c.env["chainid"]), BlockNumber: num(c.env["number"]), Timestamp: num(c.env["timestamp"]),
			Coinbase: adr(c.env["coinbase"]), GasLimit: tosca.Gas(num(c.env["gaslimit"])), PrevRandao: tosca.Hash(c.env["prevrandao"]),
			BaseFee: tosca.Value(c.env["basefee"]), BlobBaseFee: tosca.Value(c.env["blobbasefee"]),
			Revision: []tosca.Revision{tosca.R07_Istanbul, tosca.R09_Berlin, tosca.R10_London, tosca.R11_Paris, tosca.R12_Shanghai, tosca.R13_Cancun}[c.rev]},
		TransactionParameters: tosca.TransactionParameters{Origin: adr(c.env["origin"]), GasPrice: tosca.Value(c.env["gasprice"]), BlobHashes: c.blobs},
		Context:               w, Kind: tosca.Call, Static: c.static, Depth: c.depth, Gas: tosca.Gas(c.gas), Recipient: adr(c.env["self"]), Sender: adr(c.env["sender"]),
		Input: c.input, Value: tosca.Value(c.env["value"]), Code: c.code,
	}
	if c.hashmode == 2 {
		h := tosca.Hash(c.codehash)
		p.CodeHash = &h
	}
	return p
}

func effects(j *Json, w *World) { j.raw(`,"eff":[%s]`, strings.Join(w.eff, ",")) }

var progress *os.File

func note(c *Case) { fmt.Fprintf(progress, "%-120s\n", c.id); progress.Seek(0, 0) }

func execute(vm tosca.Interpreter, c *Case, onCall func(), quiet bool) (out string) {
	if !quiet {
		note(c)
	}
	w := newWorld(c)
	w.onCall = onCall
	var j Json
	defer func() {
		if p := recover(); p != nil {
			out = fmt.Sprintf(`"code":-9,"gas":[0,0],"ref":0,"out":[],"eff":[],"panic":%q`, fmt.Sprint(p))
		}
	}()
	code, in := bytes.Clone(c.code), bytes.Clone(c.input)
	r, err := vm.Run(parameters(c, w))
	if err != nil {
		return fmt.Sprintf(`"code":-8,"gas":[0,0],"ref":0,"out":[],"eff":[],"error":%q`, err.Error())
	}
	if !bytes.Equal(code, c.code) || !bytes.Equal(in, c.input) {
		w.bad("changed code or input")
	}
	// A result does not say whether an execution was reverted or failed.
	sc := 0
	if !r.Success {
		sc = -2
	}
	j.raw(`"code":%d,"gas":`, sc)
	j.gas(int64(r.GasLeft))
	j.raw(`,"ref":`)
	j.num(int64(r.GasRefund))
	j.raw(`,"out":`)
	j.list(r.Output)
	effects(&j, w)
	return j.String()
}

// A Snap is the state of an execution after some instructions.
type Snap struct {
	N, Pc    int // instructions executed since the last one; position in the code or -1
	St       string
	Gas, Ref int64
	Stack    [][32]byte
	Mem      []byte
	Ret, Out []byte
}

func observe(j *Json, s, t *Snap, w *World) {
	code := 1
	switch t.St {
	case "stop", "ret":
		code = 0
	case "rev":
		code = 2
	case "fail":
		code = -2
	}
	pc := t.Pc
	j.raw(`{"n":%d,"st":"%s","code":%d,"pc":%d,"gas":`, t.N, t.St, code, pc)
	if t.St == "fail" {
		j.gas(0)
	} else {
		j.gas(t.Gas)
	}
	j.raw(`,"ref":`)
	j.num(t.Ref)
	keep := 0
	for keep < len(s.Stack) && keep < len(t.Stack) && s.Stack[keep] == t.Stack[keep] {
		keep++
	}
	j.raw(`,"keep":%d,"top":[`, keep)
	for i := keep; i < len(t.Stack); i++ {
		if i > keep {
			j.raw(",")
		}
		j.word(t.Stack[i][:])
	}
	j.raw(`],"msz":%d,"md":[`, len(t.Mem))
	old := func(i int) byte {
		if i < len(s.Mem) {
			return s.Mem[i]
		}
		return 0
	}
	first := true
	for i := 0; i < len(t.Mem); {
		if t.Mem[i] == old(i) {
			i++
			continue
		}
		e := i
		for f := i; f < len(t.Mem) && f < e+16; f++ {
			if t.Mem[f] != old(f) {
				e = f + 1
			}
		}
		if !first {
			j.raw(",")
		}
		first = false
		j.raw("[%d,", i)
		j.list(t.Mem[i:e])
		j.raw("]")
		i = e
	}
	rc := !bytes.Equal(s.Ret, t.Ret)
	j.raw(`],"rc":%v,"ret":`, rc)
	if rc {
		j.list(t.Ret)
	} else {
		j.raw("[]")
	}
	j.raw(`,"out":`)
	j.list(t.Out)
	effects(j, w)
	words := func(k string, l []B32) {
		j.raw(`,"%s":[`, k)
		for i, x := range l {
			if i > 0 {
				j.raw(",")
			}
			j.word(x[:])
		}
		j.raw("]")
	}
	words("wa", w.newa)
	words("ws", w.news)
	j.raw("%s}", w.extra)
	w.eff, w.newa, w.news, w.extra = nil, nil, nil, ""
}

// Stepper executes a program instruction by instruction; variants names its configurations.
var stepper func(variant string, p tosca.Parameters, stack [][32]byte, limit, skip int, obs func(Snap))
var variants []string

// ctRun executes a case by the rules of the conformance tool.
var ctRun func(c *Case, w *World, rnd *rand.Rand, obs func(Snap))

// targetRun executes a case on a target of the conformance tool.
var targetRun func(target string, c *Case, w *World, rnd *rand.Rand, obs func(Snap))
var targets []string

type outcomes struct {
	tags  map[string]string
	order []string
}

func (o *outcomes) add(r, tag string) {
	if o.tags == nil {
		o.tags = map[string]string{}
	}
	if t, ok := o.tags[r]; ok {
		if len(t) < 60 {
			o.tags[r] = t + "," + tag
		}
		return
	}
	o.tags[r] = tag
	o.order = append(o.order, r)
}

// recorded returns what is observed while an execution runs step by step.
func recorded(c *Case, execution func(w *World, obs func(Snap))) string {
	note(c)
	w := newWorld(c)
	s := &Snap{St: "run", Gas: c.gas, Stack: c.stack}
	var j Json
	j.raw("[")
	first := true
	observed := func(t *Snap) {
		if !first {
			j.raw(",")
		}
		first = false
		observe(&j, s, t, w)
		s = t
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				observed(&Snap{N: 1, St: "panic: " + strings.Map(func(r rune) rune {
					if r == '"' || r == '\\' || r < 32 {
						return ' '
					}
					return r
				}, fmt.Sprint(p))})
			}
		}()
		execution(w, func(t Snap) { observed(&t) })
	}()
	j.raw("]")
	return j.String()
}

func main() {
	cases := load(os.Args[1])
	out, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	progress, _ = os.Create(os.Args[2] + ".case")
	mode, arg := os.Args[3], 0
	if len(os.Args) > 4 {
		arg, _ = strconv.Atoi(os.Args[4])
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed + 1))
	if err := lfvm.RegisterExperimentalInterpreterConfigurations(); err != nil {
		panic(err)
	}
	names := []string{}
	vms := map[string]tosca.Interpreter{}
	for n := range tosca.GetAllRegisteredInterpreters() {
		vm, err := tosca.NewInterpreter(n)
		if err != nil {
			panic(err)
		}
		names = append(names, n)
		vms[n] = vm
	}
	sort.Strings(names)
	nested, threaded := []string{"lfvm", "lfvm-si", "lfvm-no-code-cache"}, []string{"lfvm", "lfvm-si", "lfvm-si-no-sha-cache-stats"}
	if prefix := os.Getenv("VMS"); prefix != "" { // only those whose names match
		names = slices.DeleteFunc(names, func(n string) bool { ok, err := regexp.MatchString(prefix, n); return !ok || err != nil })
		nested, threaded = names, names
	}

	type run struct{ tag, e string }
	fin := make([]outcomes, len(cases))
	runs := make([][]run, len(cases))
	switch mode {
	case "steps":
		for i, c := range cases {
			if len(c.stack) == 0 {
				for _, n := range []string{"lfvm", "lfvm-si"} {
					fin[i].add(execute(vms[n], c, nil, false), n)
				}
			}
			for _, v := range variants {
				runs[i] = append(runs[i], run{v, recorded(c, func(w *World, obs func(Snap)) { stepper(v, parameters(c, w), c.stack, c.limit, c.skip, obs) })})
			}
		}
	case "ct":
		for i, c := range cases {
			runs[i] = append(runs[i], run{"rules", recorded(c, func(w *World, obs func(Snap)) { ctRun(c, w, rnd, obs) })})
		}
	case "targets":
		for i, c := range cases {
			for _, v := range targets {
				runs[i] = append(runs[i], run{v, recorded(c, func(w *World, obs func(Snap)) { targetRun(v, c, w, rnd, obs) })})
			}
		}
	case "exec":
		for k, n := range names {
			for round := 0; round < 2; round++ {
				for x := range cases {
					i, tag := x, n
					if round == 1 {
						i, tag = (x*7919+13*k)%len(cases), n+"/again"
					}
					fin[i].add(execute(vms[n], cases[i], nil, false), tag)
				}
			}
		}
	case "nested":
		for _, n := range nested {
			depth := 0
			var rec func(i int)
			rec = func(i int) {
				depth++
				r := execute(vms[n], cases[i], func() {
					if depth < 4 {
						rec(rnd.Intn(len(cases)))
					}
				}, false)
				depth--
				fin[i].add(r, fmt.Sprintf("%s/depth%d", n, depth))
			}
			for i := range cases {
				rec(i)
			}
		}
	case "threads":
		for _, n := range threaded {
			if vms[n] == nil {
				continue
			}
			res := make([][]string, arg)
			var wg, ready sync.WaitGroup
			ready.Add(arg)
			for t := 0; t < arg; t++ {
				res[t] = make([]string, len(cases))
				wg.Add(1)
				go func() {
					defer wg.Done()
					ready.Done()
					ready.Wait()
					for x := range cases {
						i := (x + (t/2)*len(cases)/(arg/2+1)) % len(cases)
						res[t][i] = execute(vms[n], cases[i], nil, true)
					}
				}()
			}
			wg.Wait()
			for t := range res {
				for i := range cases {
					fin[i].add(res[t][i], fmt.Sprintf("%s/thread%d", n, t))
				}
			}
		}
	default:
		os.Exit(2)
	}
	b := bufio.NewWriter(out)
	for i := range cases {
		if len(runs[i]) == 0 {
			runs[i] = append(runs[i], run{mode, "[]"})
		}
		for _, r := range runs[i] {
			fmt.Fprintf(b, `{"c":%d,"tag":"%s","e":%s,"fin":[`, i+1, r.tag, r.e)
			for k, o := range fin[i].order {
				if k > 0 {
					b.WriteByte(',')
				}
				fmt.Fprintf(b, `{"tag":"%s",%s}`, fin[i].tags[o], o)
			}
			b.WriteString("]}\n")
		}
	}
	b.Flush()
	out.Close()
}
