// Runs scripts of operations on states of the conformance tool and records,
// after every operation, what changed in any state (see spec/CtState.tla).
//
//	ctstate SCRIPTS OUT SCRATCH
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	cc "github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/ct/utils"
	"github.com/Fantom-foundation/Tosca/go/tosca"
)

type any_ = []any

func word(s any) cc.U256 {
	v, ok := new(big.Int).SetString(s.(string), 16)
	if !ok {
		panic("bad word")
	}
	var b [32]byte
	v.FillBytes(b[:])
	return cc.NewU256FromBytes(b[:]...)
}
func fixed(b []byte) string {
	s := strings.TrimLeft(fmt.Sprintf("%x", b), "0")
	if s == "" {
		return "0"
	}
	return s
}
func hexU(u cc.U256) string { b := u.Bytes32be(); return fixed(b[:]) }
func addr(s any) (a tosca.Address) {
	v, _ := new(big.Int).SetString(s.(string), 16)
	v.FillBytes(a[:])
	return
}
func w32(s any) (r [32]byte) {
	v, _ := new(big.Int).SetString(s.(string), 16)
	v.FillBytes(r[:])
	return
}
func u64(s any) uint64 {
	v, err := strconv.ParseUint(s.(string), 16, 64)
	if err != nil {
		panic(err)
	}
	return v
}
func num(x any) int {
	v, err := x.(json.Number).Int64()
	if err != nil {
		panic(err)
	}
	return int(v)
}
func dec(s any) tosca.Gas {
	v, err := strconv.ParseInt(s.(string), 10, 64)
	if err != nil {
		panic(err)
	}
	return tosca.Gas(v)
}
func octets(x any) []byte {
	res := []byte{}
	for _, v := range x.([]any) {
		res = append(res, byte(num(v)))
	}
	return res
}
func ints(b []byte) []int {
	res := []int{}
	for _, v := range b {
		res = append(res, int(v))
	}
	return res
}
func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0xa5
	}
}
func yes(b bool) string {
	if b {
		return "yes"
	}
	return "no"
}
func heat(a tosca.AccessStatus) string {
	if a == tosca.WarmAccess {
		return "warm"
	}
	return "cold"
}

var keys = []string{"0", "1", "2", "7", "100", "ffffffffffffffff", "10000000000000000", "8000000000000000000000000000000000000000000000000000000000000001"}
var addrs = []string{"0", "1", "2", "a000000000000000000000000000000000000001", "b000000000000000000000000000000000000002", "b000000000000000000000000000000000000003"}
var statuses = map[string]st.StatusCode{"running": st.Running, "stopped": st.Stopped, "reverted": st.Reverted, "failed": st.Failed}

func statusName(s st.StatusCode) string {
	for k, v := range statuses {
		if v == s {
			return k
		}
	}
	return "?"
}

// observe describes the state with what its methods tell.
func observe(s *st.State) map[string]any {
	o := map[string]any{
		"status": statusName(s.Status), "revision": int(s.Revision), "readonly": s.ReadOnly, "pc": int(s.Pc), "gas": fmt.Sprint(int64(s.Gas)), "refund": fmt.Sprint(int64(s.GasRefund)),
		"code": ints(s.Code.Copy()), "self": fixed(s.CallContext.AccountAddress[:]), "caller": fixed(s.CallContext.CallerAddress[:]), "value": hexU(s.CallContext.Value),
		"basefee": hexU(s.BlockContext.BaseFee), "blobfee": hexU(s.BlockContext.BlobBaseFee), "number": fmt.Sprintf("%x", s.BlockContext.BlockNumber), "chain": hexU(s.BlockContext.ChainID),
		"coinbase": fixed(s.BlockContext.CoinBase[:]), "limit": fmt.Sprintf("%x", s.BlockContext.GasLimit), "price": hexU(s.BlockContext.GasPrice), "randao": hexU(s.BlockContext.PrevRandao),
		"time": fmt.Sprintf("%x", s.BlockContext.TimeStamp), "calldata": ints(s.CallData.ToBytes()), "lastret": ints(s.LastCallReturnData.ToBytes()), "ret": ints(s.ReturnData.ToBytes()),
		"destructed": s.HasSelfDestructed, "origin": fixed(s.TransactionContext.OriginAddress[:]),
	}
	stack := []string{}
	for i := s.Stack.Size() - 1; i >= 0; i-- {
		stack = append(stack, hexU(s.Stack.Get(i)))
	}
	o["stack"] = stack
	o["memory"] = ints(s.Memory.Read(0, uint64(s.Memory.Size())))
	cur, orig, trans, accts, warm, awarm := [][]string{}, [][]string{}, [][]string{}, []any{}, []string{}, []string{}
	for _, k := range keys {
		w := word(k)
		if v := s.Storage.GetCurrent(w); !v.IsZero() {
			cur = append(cur, []string{k, hexU(v)})
		}
		if v := s.Storage.GetOriginal(w); !v.IsZero() {
			orig = append(orig, []string{k, hexU(v)})
		}
		if v := s.TransientStorage.Get(w); !v.IsZero() || !s.TransientStorage.IsZero(w) {
			trans = append(trans, []string{k, hexU(v)})
		}
		if s.Storage.IsWarm(w) {
			warm = append(warm, k)
		}
	}
	for _, x := range addrs {
		a := addr(x)
		if s.Accounts.Exists(a) {
			accts = append(accts, []any{x, hexU(s.Accounts.GetBalance(a)), ints(s.Accounts.GetCode(a).ToBytes())})
		}
		if s.Accounts.IsWarm(a) {
			awarm = append(awarm, x)
		}
	}
	o["cur"], o["orig"], o["trans"], o["accts"], o["warm"], o["awarm"] = cur, orig, trans, accts, warm, awarm
	logs := []any{}
	for _, l := range s.Logs.Entries {
		t := []string{}
		for _, x := range l.Topics {
			t = append(t, hexU(x))
		}
		logs = append(logs, []any{t, ints(l.Data)})
	}
	o["logs"] = logs
	past, future := []any{}, []any{}
	for _, c := range s.CallJournal.Past {
		past = append(past, []any{c.Kind.String(), fixed(c.Recipient[:]), fixed(c.Sender[:]), ints(c.Input.ToBytes()), fixed(c.Value[:]), int(c.Gas), fixed(c.CodeAddress[:])})
	}
	for _, c := range s.CallJournal.Future {
		future = append(future, []any{c.Success, ints(c.Output.ToBytes()), int(c.GasCosts), int(c.GasRefund), fixed(c.CreatedAccount[:])})
	}
	o["past"], o["future"] = past, future
	sdj := [][]string{}
	for _, e := range s.SelfDestructedJournal {
		found := []string{"?", "?"}
		for _, x := range addrs {
			for _, y := range addrs {
				if e == st.NewSelfDestructEntry(addr(x), addr(y)) {
					found = []string{x, y}
				}
			}
		}
		sdj = append(sdj, found)
	}
	o["sdj"] = sdj
	hashes := []any{}
	for i := 0; i < 256; i++ {
		h := s.RecentBlockHashes.Get(uint64(i))
		if v := fixed(h[:]); v != "0" {
			hashes = append(hashes, []any{i, v})
		}
	}
	o["hashes"] = hashes
	blobs := []string{}
	for _, b := range s.TransactionContext.BlobHashes {
		blobs = append(blobs, fixed(b[:]))
	}
	o["blobs"] = blobs
	return o
}

type op struct {
	H  int     `json:"h"`
	Op string  `json:"op"`
	A  []any   `json:"a"`
	R  any     `json:"r"`
	Ch [][]any `json:"ch"`
	P  string  `json:"p"`
}

type world struct {
	states  map[int]*st.State
	views   map[int]tosca.RunContext
	seen    map[int]map[string]any
	scratch string
}

func (w *world) view(h int) tosca.RunContext {
	if w.views[h] == nil {
		w.views[h] = utils.ToVmParameters(w.states[h]).Context
	}
	return w.views[h]
}

func (w *world) put(h int, s *st.State) {
	w.states[h] = s
	delete(w.views, h)
}

func fresh() *st.State {
	s := st.NewState(st.NewCode([]byte{}))
	return s
}

var kinds = map[string]tosca.CallKind{}

func params(c []any) (tosca.CallKind, tosca.CallParameters) {
	return kinds[c[0].(string)], tosca.CallParameters{Recipient: addr(c[1]), Sender: addr(c[2]), Input: octets(c[3]), Value: w32(c[4]), Gas: tosca.Gas(num(c[5])), CodeAddress: addr(c[6])}
}
func result(r tosca.CallResult) []any {
	res := []any{yes(r.Success), ints(r.Output), int(r.GasLeft), int(r.GasRefund), fixed(r.CreatedAddress[:])}
	scribble(r.Output)
	return res
}
func topics(x any) []string {
	res := []string{}
	for _, t := range x.([]any) {
		res = append(res, t.(string))
	}
	return res
}

func (w *world) do(o *op) (res any) {
	a, s := o.A, w.states[o.H]
	res = "none"
	view := func() tosca.RunContext { return w.view(o.H) }
	switch o.Op {
	case "new":
		w.put(o.H, fresh())
	case "clone":
		w.put(num(a[0]), s.Clone())
	case "reimport":
		f := filepath.Join(w.scratch, "state.json")
		if err := st.ExportStateJSON(s, f); err != nil {
			panic(err)
		}
		t, err := st.ImportStateJSON(f)
		if err != nil {
			panic(err)
		}
		w.put(num(a[0]), t)
	case "release":
		s.Release()
		delete(w.states, o.H)
		delete(w.views, o.H)
		delete(w.seen, o.H)
	case "compare":
		t := w.states[num(a[0])]
		_ = s.String()
		res = map[string]string{"eq": yes(s.Eq(t)), "qe": yes(t.Eq(s)), "nodiff": yes(len(s.Diff(t)) == 0), "nodiffback": yes(len(t.Diff(s)) == 0)}
	case "set":
		v := a[1]
		switch a[0] {
		case "status":
			s.Status = statuses[v.(string)]
		case "revision":
			s.Revision = tosca.Revision(num(v))
		case "readonly":
			s.ReadOnly = v.(bool)
		case "pc":
			s.Pc = uint16(num(v))
		case "gas":
			s.Gas = dec(v)
		case "refund":
			s.GasRefund = dec(v)
		case "self":
			s.CallContext.AccountAddress = addr(v)
		case "caller":
			s.CallContext.CallerAddress = addr(v)
		case "value":
			s.CallContext.Value = word(v)
		case "basefee":
			s.BlockContext.BaseFee = word(v)
		case "blobfee":
			s.BlockContext.BlobBaseFee = word(v)
		case "number":
			s.BlockContext.BlockNumber = u64(v)
		case "chain":
			s.BlockContext.ChainID = word(v)
		case "coinbase":
			s.BlockContext.CoinBase = addr(v)
		case "limit":
			s.BlockContext.GasLimit = u64(v)
		case "price":
			s.BlockContext.GasPrice = word(v)
		case "randao":
			s.BlockContext.PrevRandao = word(v)
		case "time":
			s.BlockContext.TimeStamp = u64(v)
		case "calldata", "lastret", "ret":
			b := octets(v)
			x := cc.NewBytes(b)
			scribble(b)
			switch a[0] {
			case "calldata":
				s.CallData = x
			case "lastret":
				s.LastCallReturnData = x
			default:
				s.ReturnData = x
			}
		case "destructed":
			s.HasSelfDestructed = v.(bool)
		case "origin":
			s.TransactionContext.OriginAddress = addr(v)
		default:
			panic("unknown part")
		}
	case "code":
		b := octets(a[0])
		s.Code = st.NewCode(b)
		scribble(b)
	case "push":
		s.Stack.Push(word(a[0]))
	case "pop":
		res = hexU(s.Stack.Pop())
	case "peek":
		res = hexU(s.Stack.Get(num(a[0])))
	case "poke":
		s.Stack.Set(num(a[0]), word(a[1]))
	case "shrink":
		s.Stack.Resize(num(a[0]))
	case "stack":
		v := []cc.U256{}
		for _, x := range a[0].([]any) {
			v = append(v, word(x))
		}
		s.Stack.Release()
		s.Stack = st.NewStack(v...)
		for i := range v {
			v[i] = cc.NewU256(0xbad)
		}
	case "mset", "mappend":
		b := octets(a[0])
		if o.Op == "mset" {
			s.Memory.Set(b)
		} else {
			s.Memory.Append(b)
		}
		scribble(b)
	case "mwrite":
		b := octets(a[1])
		s.Memory.Write(b, uint64(num(a[0])))
		scribble(b)
	case "mgrow":
		s.Memory.Grow(uint64(num(a[0])), uint64(num(a[1])))
	case "mread":
		res = ints(s.Memory.Read(uint64(num(a[0])), uint64(num(a[1]))))
	case "setcur":
		s.Storage.SetCurrent(word(a[0]), word(a[1]))
	case "delcur":
		s.Storage.RemoveCurrent(word(a[0]))
	case "setorig":
		s.Storage.SetOriginal(word(a[0]), word(a[1]))
	case "delorig":
		s.Storage.RemoveOriginal(word(a[0]))
	case "warm":
		s.Storage.MarkWarm(word(a[0]))
	case "cold":
		s.Storage.MarkCold(word(a[0]))
	case "settrans":
		s.TransientStorage.Set(word(a[0]), word(a[1]))
	case "balance":
		s.Accounts.SetBalance(addr(a[0]), word(a[1]))
	case "awarm":
		s.Accounts.MarkWarm(addr(a[0]))
	case "accounts":
		b := st.NewAccountsBuilder()
		for _, x := range a[0].([]any) {
			e := x.([]any)
			b.SetBalance(addr(e[0]), word(e[1]))
			b.SetCode(addr(e[0]), cc.NewBytes(octets(e[2])))
		}
		for _, x := range a[1].([]any) {
			b.SetWarm(addr(x))
		}
		s.Accounts = b.Build()
		b.SetBalance(addr("1"), word("bad"))
		b.SetWarm(addr("2"))
	case "storage":
		b := st.NewStorageBuilder()
		for _, x := range a[0].([]any) {
			b.SetCurrent(word(x.([]any)[0]), word(x.([]any)[1]))
		}
		for _, x := range a[1].([]any) {
			b.SetOriginal(word(x.([]any)[0]), word(x.([]any)[1]))
		}
		for _, x := range a[2].([]any) {
			b.SetWarm(word(x), true)
		}
		b.SetWarm(word("7"), false)
		for _, x := range a[2].([]any) {
			b.SetWarm(word(x), true)
		}
		s.Storage = b.Build()
		b.SetCurrent(word("1"), word("bad"))
		b.SetOriginal(word("1"), word("bad"))
		b.SetWarm(word("2"), true)
	case "log":
		t := []cc.U256{}
		for _, x := range topics(a[0]) {
			t = append(t, word(x))
		}
		d := octets(a[1])
		s.Logs.AddLog(d, t...)
		scribble(d)
		for i := range t {
			t[i] = cc.NewU256(0xbad)
		}
	case "logbyte":
		s.Logs.Entries[num(a[0])-1].Data[num(a[1])-1] = byte(num(a[2]))
	case "logtopic":
		s.Logs.Entries[num(a[0])-1].Topics[num(a[1])-1] = word(a[2])
	case "expect":
		f := a[0].([]any)
		s.CallJournal.Future = append(s.CallJournal.Future, st.FutureCall{Success: f[0].(bool), Output: cc.NewBytes(octets(f[1])), GasCosts: tosca.Gas(num(f[2])), GasRefund: tosca.Gas(num(f[3])), CreatedAccount: addr(f[4])})
	case "pastgas":
		s.CallJournal.Past[num(a[0])-1].Gas = tosca.Gas(num(a[1]))
	case "futuregas":
		s.CallJournal.Future[num(a[0])-1].GasCosts = tosca.Gas(num(a[1]))
	case "blobs":
		s.TransactionContext.BlobHashes = nil
		for _, x := range topics(a[0]) {
			s.TransactionContext.BlobHashes = append(s.TransactionContext.BlobHashes, w32(x))
		}
	case "blob":
		s.TransactionContext.BlobHashes[num(a[0])-1] = w32(a[1])
	case "hashes":
		h := []tosca.Hash{}
		for _, x := range topics(a[0]) {
			h = append(h, w32(x))
		}
		s.RecentBlockHashes = cc.NewImmutableHashArray(h...)
		for i := range h {
			h[i][0] ^= 1
		}
	case "sdentry":
		s.SelfDestructedJournal = append(s.SelfDestructedJournal, st.NewSelfDestructEntry(addr(a[0]), addr(a[1])))
	case "sdset":
		s.SelfDestructedJournal[num(a[0])-1] = st.NewSelfDestructEntry(addr(a[1]), addr(a[2]))
	case "codeinfo":
		i := num(a[0])
		r := map[string]any{"code": s.Code.IsCode(i), "op": -1, "data": -1}
		if s.Code.IsData(i) == s.Code.IsCode(i) {
			panic("code and data")
		}
		if v, err := s.Code.GetOperation(i); err == nil {
			r["op"] = int(v)
		}
		if v, err := s.Code.GetData(i); err == nil {
			r["data"] = int(v)
		}
		res = r
	case "zero":
		res = yes(s.TransientStorage.IsAllZero())
	case "empty":
		res = yes(s.Accounts.IsEmpty(addr(a[0])))
	case "call":
		k, p := params(a[0].([]any))
		res = result(s.CallJournal.Call(k, p))
		scribble(p.Input)
	case "vexists":
		res = yes(view().AccountExists(addr(a[0])))
	case "vget":
		v := view().GetStorage(addr(a[0]), w32(a[1]))
		res = fixed(v[:])
	case "vset":
		r := view().SetStorage(addr(a[0]), w32(a[1]), w32(a[2]))
		res = map[tosca.StorageStatus]string{tosca.StorageAssigned: "assigned", tosca.StorageAdded: "added", tosca.StorageDeleted: "deleted", tosca.StorageModified: "modified", tosca.StorageDeletedAdded: "deletedadded",
			tosca.StorageModifiedDeleted: "modifieddeleted", tosca.StorageDeletedRestored: "deletedrestored", tosca.StorageAddedDeleted: "addeddeleted", tosca.StorageModifiedRestored: "modifiedrestored"}[r]
	case "vcommitted":
		v := view().GetCommittedStorage(addr(a[0]), w32(a[1]))
		res = fixed(v[:])
	case "vgettrans":
		v := view().GetTransientStorage(addr(a[0]), w32(a[1]))
		res = fixed(v[:])
	case "vsettrans":
		view().SetTransientStorage(addr(a[0]), w32(a[1]), w32(a[2]))
	case "vbalance":
		v := view().GetBalance(addr(a[0]))
		res = fixed(v[:])
	case "vsetbalance":
		view().SetBalance(addr(a[0]), w32(a[1]))
	case "vnonce":
		res = int(view().GetNonce(addr(a[0])))
	case "vsize":
		res = view().GetCodeSize(addr(a[0]))
	case "vcode":
		v := view().GetCode(addr(a[0]))
		res = ints(v)
		scribble(v)
	case "vhash":
		v := view().GetCodeHash(addr(a[0]))
		res = ints(v[:])
	case "vblock":
		v := view().GetBlockHash(int64(s.BlockContext.BlockNumber) - int64(num(a[0])))
		res = fixed(v[:])
	case "vlog":
		t := []tosca.Hash{}
		for _, x := range topics(a[0]) {
			t = append(t, w32(x))
		}
		d := octets(a[1])
		view().EmitLog(tosca.Log{Address: s.CallContext.AccountAddress, Topics: t, Data: d})
		scribble(d)
		for i := range t {
			t[i][3] ^= 1
		}
	case "vcall":
		k, p := params(a[0].([]any))
		r, err := view().Call(k, p)
		if err != nil {
			panic(err)
		}
		res = result(r)
		scribble(p.Input)
	case "vdestruct":
		res = yes(view().SelfDestruct(addr(a[0]), addr(a[1])))
	case "vdestructed":
		res = yes(view().HasSelfDestructed(addr(a[0])))
	case "vaccess":
		res = heat(view().AccessAccount(addr(a[0])))
	case "vslot":
		res = heat(view().AccessStorage(addr(a[0]), w32(a[1])))
	case "vinlist":
		res = yes(view().IsAddressInAccessList(addr(a[0])))
	case "vslotinlist":
		present, slot := view().IsSlotInAccessList(addr(a[0]), w32(a[1]))
		if !present {
			panic("the address is not reported as accessed")
		}
		res = yes(slot)
	case "params":
		p := utils.ToVmParameters(s)
		b := []string{}
		for _, x := range p.BlobHashes {
			b = append(b, fixed(x[:]))
		}
		res = map[string]any{"chain": fixed(p.ChainID[:]), "number": fmt.Sprintf("%x", p.BlockNumber), "time": fmt.Sprintf("%x", p.Timestamp), "coinbase": fixed(p.Coinbase[:]), "limit": fmt.Sprintf("%x", int64(p.GasLimit)),
			"randao": fixed(p.PrevRandao[:]), "basefee": fixed(p.BaseFee[:]), "blobfee": fixed(p.BlobBaseFee[:]), "price": fixed(p.GasPrice[:]), "revision": int(p.Revision), "origin": fixed(p.Origin[:]), "blobs": b,
			"readonly": p.Static, "gas": fmt.Sprint(int64(p.Gas)), "self": fixed(p.Recipient[:]), "caller": fixed(p.Sender[:]), "calldata": ints(p.Input), "value": fixed(p.Value[:]), "code": ints(p.Code)}
		if p.Depth != 0 || p.Kind != tosca.Call {
			panic("not a call at depth 0")
		}
		scribble(p.Code)
		scribble(p.Input)
	case "codehash":
		h := utils.ToVmParameters(s).CodeHash
		res = ints(h[:])
	default:
		f := more[o.Op]
		if f == nil {
			panic("unknown operation " + o.Op)
		}
		res = f(w, o)
	}
	return
}

// more operations of other files
var more = map[string]func(w *world, o *op) any{}

func (w *world) step(o *op) {
	defer func() {
		if e := recover(); e != nil {
			o.P = fmt.Sprint(e)
			o.R = "none"
			o.Ch = [][]any{}
		}
	}()
	o.R = w.do(o)
	o.Ch = [][]any{}
	hs := []int{}
	for h := range w.states {
		hs = append(hs, h)
	}
	sort.Ints(hs)
	for _, h := range hs {
		now := observe(w.states[h])
		ps := []string{}
		for p := range now {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			if before, found := w.seen[h]; !found || !reflect.DeepEqual(before[p], now[p]) {
				o.Ch = append(o.Ch, []any{h, p, now[p]})
			}
		}
		w.seen[h] = now
	}
}

func main() {
	for k := tosca.CallKind(0); k < 10; k++ {
		kinds[k.String()] = k
	}
	in, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	buf := bufio.NewWriter(out)
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var c struct {
			Id  string `json:"id"`
			Ops []*op  `json:"ops"`
		}
		d := json.NewDecoder(bytes.NewReader(sc.Bytes()))
		d.UseNumber()
		if err := d.Decode(&c); err != nil {
			panic(err)
		}
		w := &world{map[int]*st.State{}, map[int]tosca.RunContext{}, map[int]map[string]any{}, os.Args[3]}
		for i, o := range c.Ops {
			w.step(o)
			if o.P != "" {
				c.Ops = c.Ops[:i+1]
				break
			}
		}
		text, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		buf.Write(text)
		buf.WriteByte('\n')
	}
	buf.Flush()
	out.Close()
}
