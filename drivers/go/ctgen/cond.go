package main

import (
	"errors"
	"fmt"
	"math/rand"
	"slices"

	"github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/gen"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"
	prand "pgregory.net/rand"
)

// X is an expression: e is status, pc, gas, self, ro, balance (of x), op (at x), size, param (i), const (w).
type X struct {
	E string `json:"e"`
	X *X     `json:"x,omitempty"`
	I int    `json:"i"`
	W Word   `json:"w"`
	x common.U256
}

// A is a condition: t is eq, ne, lt, le, gt, ge (of l and the number w), or a predicate (of l and, for storage, r).
type A struct {
	T string `json:"t"`
	L *X     `json:"l,omitempty"`
	R *X     `json:"r,omitempty"`
	P int    `json:"p"`
	Q int    `json:"q"`
	W Word   `json:"w"`
	x common.U256
	n int64
}

func (x *X) bindable() rlz.BindableExpression[common.U256] {
	switch x.E {
	case "pc":
		return rlz.Pc()
	case "param":
		return rlz.Param(x.I)
	}
	return rlz.Constant(x.x)
}

func compare[T any](t string, l rlz.Expression[T], r T) rlz.Condition {
	switch t {
	case "eq":
		return rlz.Eq(l, r)
	case "ne":
		return rlz.Ne(l, r)
	case "lt":
		return rlz.Lt(l, r)
	case "le":
		return rlz.Le(l, r)
	case "gt":
		return rlz.Gt(l, r)
	}
	return rlz.Ge(l, r)
}

func (a *A) build() rlz.Condition {
	switch a.T {
	case "eq", "ne", "lt", "le", "gt", "ge":
		switch a.L.E {
		case "status":
			return compare(a.T, rlz.Status(), st.StatusCode(a.P))
		case "pc":
			return compare[common.U256](a.T, rlz.Pc(), a.x)
		case "gas":
			return compare(a.T, rlz.Gas(), tosca.Gas(a.n))
		case "self":
			return compare[tosca.Address](a.T, rlz.SelfAddress(), common.NewAddress(a.x))
		case "ro":
			return compare(a.T, rlz.ReadOnly(), a.P == 1)
		case "balance":
			if a.L.X.E == "self" {
				return compare(a.T, rlz.Balance(rlz.SelfAddress()), a.x)
			}
			return compare(a.T, rlz.Balance(rlz.ToAddress(a.L.X.bindable())), a.x)
		case "op":
			return compare(a.T, rlz.Op(a.L.X.bindable()), vm.OpCode(a.P))
		case "size":
			return compare(a.T, rlz.StackSize(), a.P)
		case "param":
			return compare[common.U256](a.T, rlz.Param(a.L.I), a.x)
		}
	case "rev":
		return rlz.RevisionBounds(revisions[a.P], revisions[a.Q])
	case "code":
		return rlz.IsCode(a.L.bindable())
	case "data":
		return rlz.IsData(a.L.bindable())
	case "slot-warm":
		return rlz.IsStorageWarm(a.L.bindable())
	case "slot-cold":
		return rlz.IsStorageCold(a.L.bindable())
	case "storage":
		return rlz.StorageConfiguration(configs[a.P], a.L.bindable(), a.R.bindable())
	case "transient-set":
		return rlz.BindTransientStorageToNonZero(a.L.bindable())
	case "transient-zero":
		return rlz.BindTransientStorageToZero(a.L.bindable())
	case "empty":
		return rlz.AccountIsEmpty(a.L.bindable())
	case "nonempty":
		return rlz.AccountIsNotEmpty(a.L.bindable())
	case "account-warm":
		return rlz.IsAddressWarm(a.L.bindable())
	case "account-cold":
		return rlz.IsAddressCold(a.L.bindable())
	case "destructed":
		return rlz.HasSelfDestructed()
	case "not-destructed":
		return rlz.HasNotSelfDestructed()
	case "recent":
		return rlz.InRange256FromCurrentBlock(a.L.bindable())
	case "not-recent":
		return rlz.OutOfRange256FromCurrentBlock(a.L.bindable())
	case "blob":
		return rlz.HasBlobHash(a.L.bindable())
	case "no-blob":
		return rlz.HasNoBlobHash(a.L.bindable())
	}
	panic(a.T)
}

// B is a state a condition has been checked in: what its origin is (gen: generated for the condition,
// free: any state, case: enumerated), what the check said, and what it is like.
type B struct {
	From  string `json:"from"`
	Check string `json:"check"`
	S     *S     `json:"s,omitempty"`
}

// Cond is a condition, the conjunction of its elements, and what has been observed of it.
type Cond struct {
	Id    string `json:"id"`
	Atoms []*A   `json:"atoms"`
	Out   string `json:"out"`
	All   bool   `json:"all"` // all test cases are among the states
	Obs   []B    `json:"obs"`
}

func (r *G) key() *X {
	x := &X{E: pick(r, "param", "param", "param", "pc", "const"), W: Word{}}
	if x.E == "param" {
		x.I = pick(r, 0, 0, 1, 2, 7)
	}
	if x.E == "const" {
		x.x = r.value()
		for x.x.Gt(common.NewU256(1000)) && x.x.IsUint64() {
			x.x = r.value()
		}
		x.W = word(x.x)
	}
	return x
}

var predicates = []string{"rev", "code", "data", "slot-warm", "slot-cold", "storage", "transient-set", "transient-zero", "empty", "nonempty",
	"account-warm", "account-cold", "destructed", "not-destructed", "recent", "not-recent", "blob", "no-blob"}

func (r *G) atom() *A {
	a := &A{W: Word{}}
	num := func(p int) { a.P, a.x, a.W = p, common.NewU256(uint64(p)), signed(int64(p)) }
	val := func(x common.U256) { a.x, a.W = x, word(x) }
	if r.Intn(2) == 0 {
		a.T = pick(r, predicates...)
		switch a.T {
		case "rev":
			a.P = r.Intn(7)
			a.Q = min(6, a.P+pick(r, 0, 0, 1, 2, 5))
		case "destructed", "not-destructed":
		case "storage":
			a.P, a.L, a.R = r.Intn(len(configs)), r.key(), r.key()
		default:
			a.L = r.key()
		}
		return a
	}
	a.L = &X{E: pick(r, "status", "pc", "gas", "gas", "self", "ro", "balance", "balance", "op", "op", "size", "size", "param"), W: Word{}}
	a.T = pick(r, "eq", "ne")
	switch a.L.E {
	case "status":
		num(r.Intn(4))
	case "pc":
		num(pick(r, 0, 1, 2, 5, 33, 65534))
	case "gas":
		a.T = pick(r, "eq", "ne", "lt", "le", "gt", "ge")
		a.n = pick(r, 0, 1, 2, 5, 2300, 1<<32, int64(st.MaxGasUsedByCt)-1)
		a.W = signed(a.n)
	case "self":
		val(pick(r, addresses...))
	case "ro":
		num(r.Intn(2))
	case "balance":
		a.T = pick(r, "eq", "ne", "lt", "le", "gt", "ge")
		a.L.X = &X{E: pick(r, "self", "param"), I: r.Intn(2), W: Word{}}
		val(pick(r, common.NewU256(0), common.NewU256(1), common.NewU256(7), common.MaxU256(), r.value()))
	case "op":
		a.L.X = r.key()
		num(pick(r, ops...))
	case "size":
		a.T = pick(r, "eq", "ne", "lt", "le", "gt", "ge")
		num(pick(r, 0, 1, 2, 7, 8, 1023, 1024))
	case "param":
		a.L.I = pick(r, 0, 1, 2, 7)
		val(r.value())
	}
	return a
}

func (a *A) constants() (res []common.U256) {
	for _, x := range []*X{a.L, a.R} {
		for ; x != nil; x = x.X {
			if x.E == "const" {
				res = append(res, x.x)
			}
		}
	}
	return res
}

func checked(c rlz.Condition, s *st.State) string {
	ok, err := c.Check(s)
	if err != nil {
		return "error"
	}
	return fmt.Sprint(ok)
}

func condition(id string, seed int64) (res *Cond) {
	r := &G{Rand: rand.New(rand.NewSource(seed))}
	res = &Cond{Id: id, Obs: []B{}}
	var parts []rlz.Condition
	var extra []common.U256
	for i := pick(r, 1, 1, 1, 2, 2, 3); i > 0; i-- {
		a := r.atom()
		if r.Intn(4) > 0 && len(res.Atoms) > 0 && a.T == res.Atoms[0].T && a.L != nil && res.Atoms[0].L != nil && a.L.E == res.Atoms[0].L.E {
			continue
		}
		if len(res.Atoms) > 0 && r.Intn(3) == 0 && a.L != nil && res.Atoms[0].L != nil && slices.Contains(predicates, a.T) && slices.Contains(predicates, res.Atoms[0].T) {
			switch a.L.E { // about the same value
			case "param", "pc", "const":
				switch res.Atoms[0].L.E {
				case "param", "pc", "const":
					a.L = res.Atoms[0].L
				}
			}
		}
		res.Atoms = append(res.Atoms, a)
		parts = append(parts, a.build())
		extra = append(extra, a.constants()...)
	}
	cond := rlz.And(parts...)
	if r.Intn(4) == 0 && len(parts) == 3 {
		cond = rlz.And(parts[0], rlz.And(parts[1:]...))
	}
	observe := func(from string, s *st.State) {
		res.Obs = append(res.Obs, B{from, checked(cond, s), project(s, extra...)})
	}
	defer func() {
		if p := recover(); p != nil {
			res.Out = fmt.Sprintf("panic: %v", p)
		}
	}()
	g := gen.NewStateGenerator()
	cond.Restrict(g)
	for i := 0; i < 3; i++ {
		s, err := g.Generate(prand.New(uint64(r.Int63())))
		switch {
		case errors.Is(err, gen.ErrUnsatisfiable):
			res.Out = "unsat"
		case errors.Is(err, gen.ErrUnboundVariable):
			res.Out = "unbound"
		case err != nil:
			res.Out = err.Error()
		default:
			res.Out = "ok"
			observe("gen", s)
		}
	}
	// States in which some of it or something like it holds.
	for i := 0; i < 3; i++ {
		g := gen.NewStateGenerator()
		if i > 0 {
			pick(r, parts...).Restrict(g)
		} else {
			g.AddStackSizeUpperBound(r.Intn(10))
		}
		if s, err := g.Generate(prand.New(uint64(r.Int63()))); err == nil {
			observe("free", s)
			if i == 2 { // a state that is almost right
				s.Gas++
				s.Pc++
				s.ReadOnly = !s.ReadOnly
				s.BlockContext.BlockNumber++
				s.Stack.Push(common.NewU256(uint64(r.Intn(3))))
				observe("free", s)
			}
		}
	}
	if len(parts) <= 2 && !slices.ContainsFunc(res.Atoms, func(a *A) bool { return a.L != nil && a.L.E == "self" }) {
		count := 0
		rule := rlz.Rule{Condition: cond}
		rest := 40
		res.All = true
		cases := []B{}
		err := rule.EnumerateTestCases(prand.New(1), func(s *st.State) rlz.ConsumerResult {
			if count++; count > rest {
				res.All = false
				return rlz.ConsumeAbort
			}
			cases = append(cases, B{"case", checked(cond, s), project(s, extra...)})
			return rlz.ConsumeContinue
		})
		if err != nil {
			res.All = false
		}
		res.Obs = append(res.Obs, cases...)
	}
	return res
}

// samples is a parameter with given samples.
type samples []common.U256

func (s samples) Samples() []common.U256 { return s }

// Enum is an enumeration of test cases for the parameters of a rule: of every case the upper end of
// the stack, as far as there are parameters, and a digest of everything else.
type Enum struct {
	Id      string   `json:"id"`
	Samples [][]Word `json:"samples"`
	Stop    int      `json:"stop"` // number of cases after which the consumer asks to stop
	Cases   []Case   `json:"cases"`
}

type Case struct {
	N    int    `json:"n"`
	Top  []Word `json:"top"`
	Rest string `json:"rest"`
}

func enumeration(id string, seed int64) *Enum {
	r := &G{Rand: rand.New(rand.NewSource(seed))}
	res := &Enum{Id: id, Samples: [][]Word{}, Cases: []Case{}, Stop: pick(r, 1000000, 1000000, 1000000, 1, 2, 5, 12)}
	rule := rlz.Rule{Condition: pick(r,
		rlz.Eq(rlz.StackSize(), r.Intn(5)),
		rlz.Eq(rlz.ReadOnly(), true),
		rlz.And(rlz.Eq(rlz.ReadOnly(), true), rlz.IsStorageWarm(rlz.Param(r.Intn(2)))),
		rlz.And(rlz.Eq(rlz.StackSize(), r.Intn(5)), rlz.IsRevision(tosca.R10_London)))}
	for i := r.Intn(4); i > 0; i-- {
		p := samples{}
		w := []Word{}
		for j := r.Intn(4); j > 0; j-- {
			x := r.value()
			if !slices.Contains(p, x) {
				p = append(p, x)
				w = append(w, word(x))
			}
		}
		rule.Parameter = append(rule.Parameter, p)
		res.Samples = append(res.Samples, w)
	}
	err := rule.EnumerateTestCases(prand.New(uint64(seed)), func(s *st.State) rlz.ConsumerResult {
		c := Case{N: s.Stack.Size(), Top: []Word{}}
		x := s.Clone()
		for i := 0; i < len(rule.Parameter) && x.Stack.Size() > 0; i++ {
			c.Top = append(c.Top, word(x.Stack.Pop()))
		}
		c.Rest = digest(x)
		res.Cases = append(res.Cases, c)
		if len(res.Cases) >= res.Stop {
			return rlz.ConsumeAbort
		}
		return rlz.ConsumeContinue
	})
	if err != nil {
		panic(err)
	}
	return res
}
