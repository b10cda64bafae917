package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"
)

// Executes cases by the rules of the conformance tool: in every state all
// applicable rules are applied to copies of it.

func u(b B32) common.U256                { return common.NewU256FromBytes(b[:]...) }
func unu(x common.U256) B32              { return B32(x.Bytes32be()) }
func addrOf(x common.U256) tosca.Address { return tosca.Address(x.Bytes20be()) }

var ctRevisions = []tosca.Revision{tosca.R07_Istanbul, tosca.R09_Berlin, tosca.R10_London, tosca.R11_Paris, tosca.R12_Shanghai, tosca.R13_Cancun}

func toState(c *Case, w *World) *st.State {
	s := st.NewState(st.NewCode(c.code))
	s.Revision = ctRevisions[c.rev]
	s.ReadOnly = c.static
	s.Gas = tosca.Gas(c.gas)
	s.Stack = st.NewStack()
	for _, x := range c.stack {
		s.Stack.Push(u(x))
	}
	storage := st.NewStorageBuilder()
	for k, v := range c.slots {
		storage.SetOriginal(u(k), u(v.o))
		storage.SetCurrent(u(k), u(v.c))
	}
	for k := range c.ws {
		storage.SetWarm(u(k), true)
	}
	s.Storage = storage.Build()
	for k, v := range c.trans {
		s.TransientStorage.Set(u(k), u(v))
	}
	accounts := st.NewAccountsBuilder()
	for a, t := range c.accts {
		if t.ex {
			accounts.SetBalance(adr(a), u(t.bal))
			accounts.SetCode(adr(a), common.NewBytes(t.code))
		}
	}
	for a := range c.wa {
		accounts.SetWarm(adr(a))
	}
	s.Accounts = accounts.Build()
	s.CallContext = st.CallContext{AccountAddress: adr(c.env["self"]), CallerAddress: adr(c.env["sender"]), Value: u(c.env["value"])}
	number := uint64(num(c.env["number"]))
	s.BlockContext = st.BlockContext{BaseFee: u(c.env["basefee"]), BlobBaseFee: u(c.env["blobbasefee"]), BlockNumber: number, ChainID: u(c.env["chainid"]),
		CoinBase: adr(c.env["coinbase"]), GasLimit: uint64(num(c.env["gaslimit"])), GasPrice: u(c.env["gasprice"]), PrevRandao: u(c.env["prevrandao"]), TimeStamp: uint64(num(c.env["timestamp"]))}
	s.TransactionContext = &st.TransactionContext{OriginAddress: adr(c.env["origin"]), BlobHashes: c.blobs}
	var hashes [256]tosca.Hash
	for i := range hashes {
		hashes[i] = w.GetBlockHash(int64(number - 1 - uint64(i)))
	}
	s.RecentBlockHashes = common.NewImmutableHashArray(hashes[:]...)
	s.CallData = common.NewBytes(c.input)
	s.HasSelfDestructed = c.destructed
	return s
}

// apply returns the effect of a rule.
func apply(r *rlz.Rule, s *st.State) (t *st.State, err string) {
	t = s.Clone()
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Sprintf("panic in %s: %v", r.Name, p)
		}
	}()
	r.Effect.Apply(t)
	return
}

var allRules = spc.Spec.GetRules()

// next returns the effect that all applicable rules agree on.
func next(s *st.State, scan bool) (res *st.State, err string) {
	before := s.Clone()
	rules := spc.Spec.GetRulesFor(s)
	if scan {
		n := 0
		for i := range allRules {
			if ok, err := allRules[i].Condition.Check(s); ok && err == nil {
				n++
				found := false
				for j := range rules {
					found = found || rules[j].Name == allRules[i].Name
				}
				if !found {
					return nil, "missing rule " + allRules[i].Name
				}
			}
		}
		if n != len(rules) {
			return nil, "wrong set of rules"
		}
	}
	if len(rules) == 0 {
		if op, err := s.Code.GetOperation(int(s.Pc)); err == nil && op == 0x55 && s.Stack.Size() > 1 && s.Revision != tosca.R07_Istanbul && !s.Storage.IsWarm(s.Stack.Get(0)) &&
			s.Storage.GetOriginal(s.Stack.Get(0)) != s.Storage.GetCurrent(s.Stack.Get(0)) { // unreachable: written in this transaction, but cold
			return nil, "open"
		}
		return nil, "norule"
	}
	for i := range rules {
		t, e := apply(&rules[i], s)
		if e != "" {
			return nil, e
		}
		if res == nil {
			res = t
		} else if !res.Eq(t) {
			return nil, fmt.Sprintf("conflict of %s and %s", rules[0].Name, rules[i].Name)
		}
	}
	if !s.Eq(before) {
		return nil, "changed input"
	}
	return
}

func stack(s *st.State) (res [][32]byte) {
	for i := s.Stack.Size() - 1; i >= 0; i-- {
		res = append(res, s.Stack.Get(i).Bytes32be())
	}
	return
}

func status(s, t *st.State) string {
	op, _ := s.Code.GetOperation(int(s.Pc))
	switch t.Status {
	case st.Running:
		return "run"
	case st.Stopped:
		if op == 0xf3 && s.Status == st.Running {
			return "ret"
		}
		return "stop"
	case st.Reverted:
		return "rev"
	case st.Failed:
		return "fail"
	}
	return "?"
}

func operand(s *st.State, i int) common.U256 {
	if i < s.Stack.Size() {
		return s.Stack.Get(i)
	}
	return common.U256{}
}

var gases = []int64{0, 1, 2, 3, 5, 8, 10, 20, 30, 100, 375, 400, 600, 700, 750, 800, 1125, 1500, 1875, 2100, 2200, 2300, 2301, 2600, 2900, 5000, 7600, 9000, 9100, 9700, 11600, 20000, 22100, 25000, 30000, 32000, 32600, 34000, 34100, 34700, 36600}

// probe looks at the effect in a variation of the state.
func probe(c *Case, s *st.State, cost int64, rnd *rand.Rand) string {
	t := s.Clone()
	g, ro, rev, stat, pc, n, sd := int64(s.Gas), s.ReadOnly, c.rev, "run", int(s.Pc), s.Stack.Size(), s.HasSelfDestructed
	if rnd.Intn(3) > 0 {
		switch k := rnd.Intn(4); {
		case k < 2 && cost > 0:
			g = min(g, cost-int64(rnd.Intn(3))+1)
		default:
			g = min(g, max(0, gases[rnd.Intn(len(gases))]+int64(rnd.Intn(3)-1)))
		}
	}
	if rnd.Intn(4) == 0 {
		ro = !ro
	}
	if rnd.Intn(3) == 0 {
		rev = rnd.Intn(6)
	}
	if rnd.Intn(25) == 0 {
		rev = 99
	}
	if rnd.Intn(25) == 0 {
		stat = []string{"stop", "rev", "fail"}[rnd.Intn(3)]
	}
	if rnd.Intn(4) == 0 {
		if pc = rnd.Intn(len(c.code) + 1); pc == len(c.code) && !s.Code.IsCode(pc) { // behind a truncated PUSH
			pc = int(s.Pc)
		}
	}
	if rnd.Intn(4) == 0 {
		sd = !sd
	}
	switch rnd.Intn(6) {
	case 0:
		n = 1024 - rnd.Intn(3)
	case 1:
		n = rnd.Intn(min(n, 10) + 1)
	}
	if n > s.Stack.Size() {
		t.Stack.Resize(n)
		for i := 0; i < n; i++ {
			t.Stack.Set(i, operand(s, i))
		}
	} else if n < s.Stack.Size() {
		t.Stack.Resize(n)
		for i := 0; i < n; i++ {
			t.Stack.Set(i, s.Stack.Get(i))
		}
	}
	t.Gas, t.ReadOnly, t.Pc, t.HasSelfDestructed = tosca.Gas(g), ro, uint16(pc), sd
	if rev == 99 {
		t.Revision = common.R99_UnknownNextRevision
	} else {
		t.Revision = ctRevisions[rev]
	}
	t.Status = map[string]st.StatusCode{"run": st.Running, "stop": st.Stopped, "rev": st.Reverted, "fail": st.Failed}[stat]
	r, err := next(t, rnd.Intn(8) == 0)
	if err == "open" {
		return ""
	}
	var j Json
	j.raw(`{"g":`)
	j.gas(g)
	j.raw(`,"ro":%v,"rev":%d,"st":"%s","pc":%d,"n":%d,"sd":%v,`, ro, rev, stat, pc, n, sd)
	if err != "" {
		j.raw(`"rst":%q,"rg":[0,0,0],"rr":0,"rn":0,"rt":[],"rpc":0,"same":false,"hs":false}`, err)
		return j.String()
	}
	if r.CallJournal != nil && len(r.CallJournal.Past) > len(t.CallJournal.Past) { // what a call returns is not part of the probe
		j.raw(`"rst":"call","rg":[0,0,0],"rr":0,"rn":%d,"rt":[],"rpc":%d,"same":false,"hs":%v}`, r.Stack.Size(), r.Pc, r.HasSelfDestructed)
		return j.String()
	}
	j.raw(`"rst":"%s","rg":`, status(t, r))
	j.gas(int64(r.Gas))
	j.raw(`,"rr":`)
	j.num(int64(r.GasRefund))
	top := operand(r, 0).Bytes32be()
	j.raw(`,"rn":%d,"rt":`, r.Stack.Size())
	j.word(top[:])
	j.raw(`,"rpc":%d,"same":%v,"hs":%v}`, r.Pc, r.Eq(t) && r.Pc == t.Pc, r.HasSelfDestructed)
	return j.String()
}

func init() {
	ctRun = func(c *Case, w *World, rnd *rand.Rand, obs func(Snap)) { ctLoop(c, w, rnd, obs, next, 3) }
}

// ctLoop executes a case by a function that returns the next state.
func ctLoop(c *Case, w *World, rnd *rand.Rand, obs func(Snap), next func(s *st.State, scan bool) (*st.State, string), probes int) {
	s := toState(c, w)
	known := map[string]bool{}
	for i := 0; i < c.limit && s.Status == st.Running; i++ {
		script := script{}
		if w.ncalls < len(c.calls) {
			script = c.calls[w.ncalls]
		}
		future := st.FutureCall{Success: script.st == 0, GasRefund: tosca.Gas(script.ref)}
		if script.st == 2 {
			future.GasCosts = math.MaxInt64
		} else {
			future.Output = common.NewBytes(script.out)
		}
		if script.st == 0 {
			future.CreatedAccount = adr(script.addr)
		}
		s.CallJournal = &st.CallJournal{Future: []st.FutureCall{future}}
		op, _ := s.Code.GetOperation(int(s.Pc))
		t, err := next(s, i%16 == 0 || !known[op.String()])
		known[op.String()] = true
		if err == "" && len(t.CallJournal.Past) == 1 && script.st != 2 {
			// What the callee leaves depends on what it was given.
			given := t.CallJournal.Past[0].Gas
			future.GasCosts = given - min(given, tosca.Gas(script.gas))
			s.CallJournal = &st.CallJournal{Future: []st.FutureCall{future}}
			t, err = next(s, false)
		}
		if err == "open" {
			return
		}
		if err != "" {
			obs(Snap{N: 1, St: strings.Map(func(r rune) rune {
				if r == '"' || r == '\\' || r < 32 {
					return ' '
				}
				return r
			}, err)})
			return
		}
		if probes > 0 {
			var l []string
			for k := 0; k < 1+rnd.Intn(probes); k++ {
				if p := probe(c, s, int64(s.Gas-t.Gas), rnd); p != "" {
					l = append(l, p)
				}
			}
			w.extra = fmt.Sprintf(`,"probes":[%s]`, strings.Join(l, ","))
		}
		if t.Status != st.Failed {
			ctEffects(c, w, s, t, byte(op))
		}
		mem := t.Memory.Clone()
		o := Snap{N: 1, Pc: int(t.Pc), St: status(s, t), Gas: int64(t.Gas), Ref: int64(t.GasRefund), Stack: stack(t), Mem: bytes.Clone(mem.Read(0, uint64(mem.Size()))), Ret: t.LastCallReturnData.ToBytes()}
		if t.Status != st.Running {
			o.Out = t.ReturnData.ToBytes()
		}
		obs(o)
		s.Release()
		s = t
	}

}

// ctEffects notes what has changed in the world around the execution.
func ctEffects(c *Case, w *World, s, t *st.State, op byte) {
	if t.Revision != s.Revision || t.ReadOnly != s.ReadOnly || !t.Code.Eq(s.Code) || t.CallContext != s.CallContext || t.BlockContext != s.BlockContext || t.CallData != s.CallData ||
		!t.RecentBlockHashes.Equal(s.RecentBlockHashes) || !t.TransactionContext.Eq(s.TransactionContext) {
		w.bad("environment")
	}
	// storage
	key := operand(s, 0)
	storage := s.Storage.Clone()
	if op == 0x55 {
		v := t.Storage.GetCurrent(key)
		w.SetStorage(adr(w.self), tosca.Key(key.Bytes32be()), tosca.Word(v.Bytes32be()))
		storage.SetCurrent(key, v)
	}
	if t.Storage.IsWarm(key) && !s.Storage.IsWarm(key) {
		storage.MarkWarm(key)
		w.AccessStorage(adr(w.self), tosca.Key(key.Bytes32be()))
	}
	if !storage.Eq(t.Storage) {
		w.bad("storage")
	}
	trans := s.TransientStorage.Clone()
	if op == 0x5d {
		v := t.TransientStorage.Get(key)
		w.SetTransientStorage(adr(w.self), tosca.Key(key.Bytes32be()), tosca.Word(v.Bytes32be()))
		trans.Set(key, v)
	}
	if !trans.Eq(t.TransientStorage) {
		w.bad("transient storage")
	}
	// accounts
	accounts := s.Accounts.Clone()
	for i := 0; i < 2; i++ {
		a := addrOf(operand(s, i))
		if t.Accounts.IsWarm(a) && !accounts.IsWarm(a) {
			accounts.MarkWarm(a)
			w.AccessAccount(a)
		}
	}
	if !accounts.Eq(t.Accounts) {
		w.bad("accounts")
	}
	// logs
	if n := len(s.Logs.Entries); len(t.Logs.Entries) < n || !(&st.Logs{Entries: t.Logs.Entries[:n]}).Eq(s.Logs) {
		w.bad("logs")
	} else {
		for _, l := range t.Logs.Entries[n:] {
			log := tosca.Log{Address: adr(w.self), Data: l.Data}
			for _, x := range l.Topics {
				log.Topics = append(log.Topics, tosca.Hash(x.Bytes32be()))
			}
			w.EmitLog(log)
		}
	}
	// self-destruction
	if n := len(t.SelfDestructedJournal) - len(s.SelfDestructedJournal); n == 1 {
		to := addrOf(key)
		if t.SelfDestructedJournal[len(s.SelfDestructedJournal)] != st.NewSelfDestructEntry(adr(w.self), to) || !t.HasSelfDestructed {
			w.bad("self-destruction")
		}
		w.SelfDestruct(adr(w.self), to)
	} else if n != 0 || t.HasSelfDestructed != s.HasSelfDestructed {
		w.bad("self-destruction")
	}
	// calls
	if len(t.CallJournal.Past) == 1 {
		p := t.CallJournal.Past[0]
		par := tosca.CallParameters{Sender: p.Sender, Recipient: p.Recipient, Value: p.Value, Input: p.Input.ToBytes(), Gas: p.Gas, CodeAddress: p.CodeAddress}
		if p.Kind == tosca.Create2 { // not recorded
			par.Salt = tosca.Hash(operand(s, 3).Bytes32be())
		}
		slots, bal, ws := clone(w.slots), clone(w.bal), clone(w.ws)
		if _, err := w.Call(p.Kind, par); err != nil {
			panic(err)
		}
		// The world moves on.
		for k, v := range w.slots {
			if slots[k] != v {
				t.Storage.SetCurrent(u(k), u(v.c))
			}
		}
		for k := range w.ws {
			if !ws[k] {
				t.Storage.MarkWarm(u(k))
			}
		}
		for a, v := range w.bal {
			if bal[a] != v {
				t.Accounts.SetBalance(adr(a), u(v))
			}
		}
	} else if len(t.CallJournal.Past) > 1 {
		w.bad("several calls")
	}
	if f := len(t.CallJournal.Future); f != 1-len(t.CallJournal.Past) {
		w.bad("journal")
	}
}
