// Command ctgen records what the state generators of the conformance tool
// produce for random constraint sets.
//
//	ctgen OUT COUNT SEED [conditions|parameters]
//
// Every line of OUT is a history of operations on a pool of generators, or a
// condition of the specification language with states it has been checked in,
// or the test cases enumerated for the parameters of a rule.
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"maps"
	"math"
	"math/rand"
	"os"
	"slices"
	"strconv"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/gen"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"
	prand "pgregory.net/rand"
)

type Word = []int

func word(x common.U256) Word {
	b := x.Bytes32be()
	res := Word{}
	for _, d := range b {
		if len(res) > 0 || d != 0 {
			res = append(res, int(d))
		}
	}
	return res
}
func signed(x int64) Word {
	v := common.NewU256(uint64(x))
	if x < 0 {
		v = common.NewU256(0).Sub(common.NewU256(uint64(-x)))
	}
	return word(v)
}
func addr(a tosca.Address) common.U256 { return common.NewU256FromBytes(a[:]...) }

// C is a constraint.
type C struct {
	T string `json:"t"`
	V string `json:"v"`
	U string `json:"u"`
	P int    `json:"p"`
	Q int    `json:"q"`
	W Word   `json:"w"`
	B bool   `json:"b"`
	x common.U256
}

var revisions = []tosca.Revision{tosca.R07_Istanbul, tosca.R09_Berlin, tosca.R10_London, tosca.R11_Paris, tosca.R12_Shanghai, tosca.R13_Cancun, common.R99_UnknownNextRevision}
var configs = []tosca.StorageStatus{tosca.StorageAssigned, tosca.StorageAdded, tosca.StorageAddedDeleted, tosca.StorageDeletedRestored, tosca.StorageDeletedAdded,
	tosca.StorageDeleted, tosca.StorageModified, tosca.StorageModifiedDeleted, tosca.StorageModifiedRestored}

func (c *C) apply(g *gen.StateGenerator) {
	v := gen.Variable(c.V)
	switch c.T {
	case "value":
		g.BindValue(v, c.x)
	case "status":
		g.SetStatus(st.StatusCode(c.P))
	case "rev":
		if c.P == c.Q && c.B {
			g.SetRevision(revisions[c.P])
		} else {
			g.AddRevisionBounds(revisions[c.P], revisions[c.Q])
		}
	case "ro":
		g.SetReadOnly(c.B)
	case "pc":
		g.SetPc(uint16(c.P))
	case "pcvar":
		g.BindPc(v)
	case "self":
		g.SetSelfAddress(common.NewAddress(c.x))
	case "selfvar":
		g.BindToSelfAddress(v)
	case "gas":
		g.SetGas(tosca.Gas(c.P))
	case "gas>=":
		g.AddGasLowerBound(tosca.Gas(c.P))
	case "gas<=":
		g.AddGasUpperBound(tosca.Gas(c.P))
	case "ref":
		g.SetGasRefund(tosca.Gas(c.P))
	case "ref>=":
		g.AddGasRefundLowerBound(tosca.Gas(c.P))
	case "ref<=":
		g.AddGasRefundUpperBound(tosca.Gas(c.P))
	case "op":
		g.SetCodeOperation(c.P, vm.OpCode(c.Q))
	case "opvar":
		g.AddCodeOperation(v, vm.OpCode(c.Q))
	case "code":
		g.AddIsCode(v)
	case "data":
		g.AddIsData(v)
	case "size":
		g.SetStackSize(c.P)
	case "size>=":
		g.AddStackSizeLowerBound(c.P)
	case "size<=":
		g.AddStackSizeUpperBound(c.P)
	case "stack":
		g.SetStackValue(c.P, c.x)
	case "stackvar":
		g.BindStackValue(c.P, v)
	case "storage":
		g.BindStorageConfiguration(configs[c.P], v, gen.Variable(c.U))
	case "slot":
		if c.B {
			g.BindIsStorageWarm(v)
		} else {
			g.BindIsStorageCold(v)
		}
	case "transient":
		if c.B {
			g.BindTransientStorageToNonZero(v)
		} else {
			g.BindTransientStorageToZero(v)
		}
	case "empty":
		if c.B {
			g.BindToAddressOfEmptyAccount(v)
		} else {
			g.BindToAddressOfNonEmptyAccount(v)
		}
	case "balance>=":
		g.AddBalanceLowerBound(v, c.x)
	case "balance<=":
		g.AddBalanceUpperBound(v, c.x)
	case "account":
		if c.B {
			g.BindToWarmAddress(v)
		} else {
			g.BindToColdAddress(v)
		}
	case "destructed":
		if c.B {
			g.MustBeSelfDestructed()
		} else {
			g.MustNotBeSelfDestructed()
		}
	case "recent":
		if c.B {
			g.RestrictVariableToOneOfTheLast256Blocks(v)
		} else {
			g.RestrictVariableToNoneOfTheLast256Blocks(v)
		}
	case "offset":
		g.SetBlockNumberOffsetValue(v, int64(c.P))
	case "blob":
		if c.B {
			g.IsPresentBlobHashIndex(v)
		} else {
			g.IsAbsentBlobHashIndex(v)
		}
	default:
		panic(c.T)
	}
}

// Op is a step of a history.
type Op struct {
	Op   string `json:"op"`
	G    int    `json:"g"`
	F    int    `json:"f"`
	C    *C     `json:"c,omitempty"`
	Seed int    `json:"seed"`
	Out  string `json:"out"`
	S    *S     `json:"s,omitempty"`
	D    string `json:"d"`
}

type Slot struct {
	K Word `json:"k"`
	O Word `json:"o"`
	C Word `json:"c"`
	W bool `json:"w"`
	T Word `json:"t"`
}
type Account struct {
	A    Word `json:"a"`
	Bal  Word `json:"bal"`
	Code int  `json:"code"`
	W    bool `json:"w"`
}

// S is what the specification looks at of a state.
type S struct {
	St    int       `json:"st"`
	Rev   int       `json:"rev"`
	Ro    bool      `json:"ro"`
	Pc    int       `json:"pc"`
	Gas   Word      `json:"gas"`
	Ref   Word      `json:"ref"`
	Code  []int     `json:"code"`
	Len   int       `json:"len"`
	N     int       `json:"n"`
	Stack []Word    `json:"stack"`
	Slots []Slot    `json:"slots"`
	Accts []Account `json:"accts"`
	Self  Word      `json:"self"`
	Sd    bool      `json:"sd"`
	Block Word      `json:"block"`
	Time  Word      `json:"time"`
	Blobs int       `json:"blobs"`
}

func project(s *st.State, extra ...common.U256) *S {
	res := &S{St: int(s.Status), Rev: -1, Ro: s.ReadOnly, Pc: int(s.Pc), Gas: signed(int64(s.Gas)), Ref: signed(int64(s.GasRefund)), Len: s.Code.Length(), N: s.Stack.Size(),
		Self: word(addr(s.CallContext.AccountAddress)), Sd: s.HasSelfDestructed, Block: word(common.NewU256(s.BlockContext.BlockNumber)), Time: word(common.NewU256(s.BlockContext.TimeStamp)), Blobs: len(s.TransactionContext.BlobHashes),
		Code: []int{}, Stack: []Word{}, Slots: []Slot{}, Accts: []Account{}}
	for i, r := range revisions {
		if r == s.Revision {
			res.Rev = i
		}
	}
	code := s.Code.Copy()
	for _, b := range code {
		res.Code = append(res.Code, int(b))
	}
	seen := map[common.U256]bool{}
	add := func(x common.U256) {
		if seen[x] {
			return
		}
		seen[x] = true
		res.Slots = append(res.Slots, Slot{word(x), word(s.Storage.GetOriginal(x)), word(s.Storage.GetCurrent(x)), s.Storage.IsWarm(x), word(s.TransientStorage.Get(x))})
		a := common.NewAddress(x)
		res.Accts = append(res.Accts, Account{word(addr(a)), word(s.Accounts.GetBalance(a)), s.Accounts.GetCode(a).Length(), s.Accounts.IsWarm(a)})
	}
	for i := 0; i < s.Stack.Size() && i < 8; i++ {
		x := s.Stack.Get(i)
		res.Stack = append(res.Stack, word(x))
		add(x)
	}
	for _, x := range extra {
		add(x)
	}
	add(addr(s.CallContext.AccountAddress))
	add(common.NewU256(uint64(s.Pc)))
	return res
}

func digest(s *st.State) string {
	h := sha256.New()
	lines := strings.Split(s.String(), "\n") // maps are printed in any order
	slices.Sort(lines)
	fmt.Fprint(h, lines)
	code := s.Code.Copy()
	h.Write(code)
	fmt.Fprint(h, s.Memory.Read(0, uint64(s.Memory.Size())), s.BlockContext, s.CallContext, s.CallData, s.LastCallReturnData, s.ReturnData, *s.TransactionContext)
	for i := 0; i < s.Stack.Size(); i++ {
		x := s.Stack.Get(i)
		fmt.Fprint(h, x, s.Storage.GetCurrent(x), s.Accounts.GetBalance(common.NewAddress(x)))
	}
	return hex.EncodeToString(h.Sum(nil)[:8])
}

func generate(g *gen.StateGenerator, seed int) (out string, s *S, d string) {
	defer func() {
		if p := recover(); p != nil {
			out, s, d = fmt.Sprintf("panic: %v", p), nil, ""
		}
	}()
	x, err := g.Generate(prand.New(uint64(seed)))
	switch {
	case errors.Is(err, gen.ErrUnsatisfiable):
		return "unsat", nil, ""
	case errors.Is(err, gen.ErrUnboundVariable):
		return "unbound", nil, ""
	case err != nil:
		return err.Error(), nil, ""
	}
	return "ok", project(x), digest(x)
}

type G struct {
	*rand.Rand
	vars []string
}

func pick[T any](r *G, xs ...T) T { return xs[r.Intn(len(xs))] }

func (r *G) v() string { return r.vars[r.Intn(len(r.vars))] }

var small = []uint64{0, 1, 2, 3, 5, 33, 100}
var blocks = []uint64{0, 1, 255, 256, 257, 743, 999, 1000, 1256, 4743, 5000, 5999, 6000, 7000, math.MaxUint64 - 256, math.MaxUint64 - 1, math.MaxUint64}

var big = []common.U256{common.NewU256(1, 0), common.NewU256(1, 0, 0, 5), common.MaxU256()}
var addresses = []common.U256{common.NewU256(0), common.NewU256(1), common.NewU256(5), common.NewU256(3, 7, 9)}

func (r *G) value() common.U256 {
	switch r.Intn(6) {
	case 0:
		return common.NewU256(pick(r, blocks...))
	case 1:
		return pick(r, big...)
	case 2:
		return pick(r, addresses...)
	case 3:
		return common.NewU256(uint64(pick(r, 24575, 24576, 65535, 65539, 300)))
	}
	return common.NewU256(pick(r, small...))
}

var themes = []string{"status", "rev", "ro", "pc", "gas", "ref", "code", "code", "stack", "storage", "slot", "transient", "empty", "balance", "account", "self", "destructed", "recent", "offset", "blob"}
var ops = []int{0x00, 0x01, 0x01, 0x5b, 0x5b, 0x60, 0x61, 0x6a, 0x7f, 0x55, 0xfe}

func (r *G) constraint(theme string) *C {
	c := &C{W: Word{}, B: r.Intn(2) == 0}
	val := func(x common.U256) { c.x, c.W = x, word(x) }
	switch theme {
	case "value":
		c.T, c.V = "value", r.v()
		val(r.value())
	case "blockvalue":
		c.T, c.V = "value", r.v()
		val(common.NewU256(pick(r, blocks...)))
	case "smallvalue":
		c.T, c.V = "value", r.v()
		val(common.NewU256(pick(r, small...)))
	case "status":
		c.T, c.P = theme, r.Intn(4)
	case "rev":
		c.T, c.P = theme, r.Intn(7)
		c.Q = c.P
		if r.Intn(2) == 0 {
			c.Q = min(6, c.P+r.Intn(4))
		}
		if r.Intn(20) == 0 {
			c.Q = r.Intn(7)
		}
	case "ro":
		c.T = theme
	case "pc":
		if c.T = pick(r, "pc", "pcvar"); c.T == "pc" {
			c.P = pick(r, 0, 1, 2, 3, 5, 33, 65535)
		} else {
			c.V = r.v()
		}
	case "gas":
		c.T, c.P = pick(r, "gas", "gas>=", "gas<="), pick(r, 0, 1, 5, 2300, 100000, 1<<30, -1, 5)
		if r.Intn(5) == 0 {
			c.P = pick(r, st.MaxGasUsedByCt-1, st.MaxGasUsedByCt, st.MaxGasUsedByCt+1)
		}
		c.W = signed(int64(c.P))
	case "ref":
		c.T, c.P = pick(r, "ref", "ref>=", "ref<="), pick(r, 0, 1, -5, 2300, -100000, -1, 5)
		if r.Intn(5) == 0 {
			c.P = pick(r, st.MaxGasUsedByCt, -st.MaxGasUsedByCt, -st.MaxGasUsedByCt-1)
		}
		c.W = signed(int64(c.P))
	case "code":
		c.T, c.P, c.Q = pick(r, "op", "op", "opvar", "opvar", "code", "data"), pick(r, 0, 1, 2, 3, 4, 5, 33, 34, 100, 24575, 24576), pick(r, ops...)
		if c.T != "op" {
			c.V = r.v()
		}
	case "constop":
		c.T, c.P, c.Q = "op", r.Intn(12), pick(r, ops...)
	case "stack":
		if c.T = pick(r, "size", "size>=", "size<=", "stack", "stack", "stackvar"); c.T == "stack" {
			c.P = pick(r, 0, 1, 2, 5, 6, 7)
			val(pick(r, common.NewU256(5), r.value()))
		} else if c.T == "stackvar" {
			c.P, c.V = pick(r, 0, 5, 6, 7, 1023, 1024), r.v()
		} else {
			c.P = pick(r, 0, 1, 2, 4, 6, 7, 8, 17, 1023, 1024, 1025, -1)
		}
	case "storage":
		c.T, c.V, c.U, c.P = theme, r.v(), r.v(), r.Intn(len(configs))
	case "balance":
		c.T, c.V = pick(r, "balance>=", "balance<="), r.v()
		val(pick(r, common.NewU256(0), common.NewU256(1), common.NewU256(7), r.value()))
	case "self":
		if c.T = pick(r, "self", "selfvar", "selfvar"); c.T == "self" {
			val(pick(r, addresses...))
		} else {
			c.V = r.v()
		}
	case "destructed":
		c.T = theme
	case "offset":
		c.T, c.V, c.P = theme, r.v(), pick(r, 0, 1, -1, 255, 256, 257, 300, -1000, 5000)
	default:
		c.T, c.V = theme, r.v()
	}
	return c
}

func history(seed int64) []Op {
	r := &G{Rand: rand.New(rand.NewSource(seed))}
	r.vars = []string{"a", "b", "c", "d"}[:1+r.Intn(4)]
	pool := []*gen.StateGenerator{gen.NewStateGenerator()}
	res := []Op{{Op: "new"}}
	add := func(g int, c *C) {
		c.apply(pool[g])
		x := *c
		if strings.HasPrefix(x.T, "gas") || strings.HasPrefix(x.T, "ref") {
			x.P = 0
		}
		res = append(res, Op{Op: "add", G: g, C: &x})
	}
	run := func(g int) {
		seed := 1 + r.Intn(2)
		out, s, d := generate(pool[g], seed)
		res = append(res, Op{Op: "gen", G: g, Seed: seed, Out: out, S: s, D: d})
	}
	var cs []*C
	var ts []string
	for i := 1 + r.Intn(3); i > 0; i-- {
		ts = append(ts, pick(r, themes...))
	}
	bound := pick(r, "value", "value", "smallvalue")
	if r.Intn(8) == 0 {
		ts = []string{pick(r, "constop", "blob", "transient", "storage", "empty")}
	}
	if ts[0] == "recent" || ts[0] == "offset" {
		bound = "blockvalue"
		ts = append(ts[:1], pick(r, "rev", "recent", "offset"))
	}
	for i := 1 + r.Intn(6); i > 0; i-- {
		c := r.constraint(pick(r, ts...))
		// Contradictions are easily found, so most of them are left out.
		if r.Intn(5) > 0 && slices.ContainsFunc(cs, func(x *C) bool {
			return x.T == c.T && x.V == c.V && (c.T != "op" || x.P == c.P) && (c.T != "stack" || x.P == c.P) && (c.T != "stackvar" || x.P == c.P)
		}) {
			continue
		}
		cs = append(cs, c)
	}
	for i := r.Intn(3); i > 0 && ts[0] != "constop"; i-- {
		c := r.constraint(bound)
		large := c.x.Gt(common.NewU256(1000))
		for _, x := range cs { // lists of blobs are built, so their length is limited; accounts have addresses
			if large && (x.T == "blob" && x.V == c.V && c.x.IsUint64() && !c.x.Eq(common.NewU256(math.MaxUint64)) || x.T == "selfvar" && x.V == c.V && !c.x.Eq(addr(common.NewAddress(c.x)))) {
				c = nil
				break
			}
		}
		if c != nil {
			cs = append(cs, c)
		}
	}
	// The values of the variables are found on the stack.
	shown := [2]map[string]bool{{}, {}}
	show := func(g int, c *C) (res []*C) {
		for i, v := range r.vars {
			if (v == c.V || v == c.U) && !shown[g][v] {
				shown[g][v] = true
				res = append(res, &C{T: "stackvar", V: v, P: i, W: Word{}})
			}
		}
		return res
	}
	for _, c := range cs {
		cs = append(cs, show(0, c)...)
	}
	// Most variables are bound by something.
	for _, c := range cs {
		if (c.T == "pcvar" || c.T == "stackvar") && r.Intn(4) > 0 {
			found := false
			for _, x := range cs {
				found = found || (x.V == c.V && x.T != "stackvar" && (x.T != "pcvar" || c.T == "pcvar" && x != c)) || x.U == c.V
			}
			if !found {
				x := r.constraint("smallvalue")
				x.V = c.V
				cs = append(cs, x)
			}
		}
	}
	r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	for _, c := range cs {
		add(0, c)
	}
	run(0)
	// A copy, changes of which do not concern the original, and the other way round.
	pool = append(pool, pool[0].Clone())
	shown[1] = maps.Clone(shown[0])
	res = append(res, Op{Op: "clone", G: 1, F: 0})
	run(1)
	if r.Intn(2) == 0 {
		which := r.Intn(2)
		for i := 1 + r.Intn(3); i > 0; i-- {
			c := r.constraint(pick(r, append(ts, bound, bound)...))
			if c.T == "blob" || c.T == "selfvar" {
				continue
			}
			if large := c.x.Gt(common.NewU256(1000)); large && slices.ContainsFunc(cs, func(x *C) bool { return x.T == "blob" || x.T == "selfvar" }) {
				continue
			}
			for _, x := range append(show(which, c), c) {
				add(which, x)
			}
		}
		run(1 - which)
		run(which)
		pool[which].Restore(pool[1-which])
		res = append(res, Op{Op: "restore", G: which, F: 1 - which})
		run(which)
	}
	run(0)
	run(0)
	return res
}

func main() {
	count, _ := strconv.Atoi(os.Args[2])
	seed, _ := strconv.Atoi(os.Args[3])
	f, err := os.Create(os.Args[1])
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(f)
	for i := 0; i < count; i++ {
		var x any
		if id := fmt.Sprintf("h%d", i); len(os.Args) > 4 && os.Args[4] == "parameters" {
			x = enumeration(id, int64(seed)*1000003+int64(i))
		} else if len(os.Args) > 4 {
			x = condition(id, int64(seed)*1000003+int64(i))
		} else {
			x = map[string]any{"id": id, "h": history(int64(seed)*1000003 + int64(i))}
		}
		b, err := json.Marshal(x)
		if err != nil {
			panic(err)
		}
		w.Write(append(b, '\n'))
	}
	w.Flush()
	f.Close()
}
