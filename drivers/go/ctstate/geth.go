package main

// Executions of geth's interpreter on states: scripts take the interpreter's
// place, so that what it is given, and what becomes of what it does, is seen
// (see spec/GethStep.tla).

import (
	"errors"
	"fmt"
	"math/big"
	"strconv"

	"github.com/Fantom-foundation/Tosca/go/ct/utils"
	geth "github.com/Fantom-foundation/Tosca/go/interpreter/geth"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/tracing"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/holiman/uint256"
)

func init() {
	more["step"] = step
	more["run"] = execute
}

var kindsOfEnd = map[string]error{
	"stop": nil, "revert": vm.ErrExecutionReverted, "gas": vm.ErrOutOfGas, "wrapped": fmt.Errorf("%w: reason", vm.ErrOutOfGas), "codegas": vm.ErrCodeStoreOutOfGas, "depth": vm.ErrDepth,
	"balance": vm.ErrInsufficientBalance, "collision": vm.ErrContractAddressCollision, "size": vm.ErrMaxCodeSizeExceeded, "jump": vm.ErrInvalidJump, "write": vm.ErrWriteProtection,
	"returndata": vm.ErrReturnDataOutOfBounds, "overflow": vm.ErrGasUintOverflow, "code": vm.ErrInvalidCode, "underflow": &vm.ErrStackUnderflow{}, "stackoverflow": &vm.ErrStackOverflow{},
	"opcode": &vm.ErrInvalidOpCode{}, "other": errors.New("other"),
}

func problem(err error) string {
	var u *tosca.ErrUnsupportedRevision
	switch {
	case err == nil:
		return "none"
	case errors.As(err, &u):
		return "unsupported"
	}
	return "error"
}

func big256(x any) *uint256.Int {
	b := w32(x)
	return new(uint256.Int).SetBytes(b[:])
}
func hexI(x *uint256.Int) string { b := x.Bytes32(); return fixed(b[:]) }
func hexB(x *big.Int) string     { return fmt.Sprintf("%x", x) }

// micro performs one action of an instruction.
func micro(evm *vm.EVM, c *vm.Contract, x *vm.InterpreterState, static bool, input []byte, m []any) (res any) {
	res = "none"
	db := evm.StateDB
	acc := func(i int) common.Address { return common.Address(addr(m[i])) }
	hash := func(i int) common.Hash { return common.Hash(w32(m[i])) }
	switch m[0] {
	case "push":
		x.Stack.Push(big256(m[1]))
	case "pop":
		v := x.Stack.Pop()
		res = hexI(&v)
	case "grow":
		n := uint64(num(m[1]))
		fee, err := vm.MemoryGasCost(x.Memory, n)
		if err != nil {
			panic(err)
		}
		x.Memory.Resize((n + 31) / 32 * 32)
		res = int(fee)
	case "write":
		d := octets(m[2])
		x.Memory.Set(uint64(num(m[1])), uint64(len(d)), d)
	case "pc":
		x.Pc = uint64(num(m[1]))
	case "gas":
		c.Gas, _ = strconv.ParseUint(m[1].(string), 10, 64)
	case "last":
		x.LastCallReturnData = octets(m[1])
	case "ret":
		x.ReturnData = octets(m[1])
	case "status":
		x.Status = map[string]vm.Status{"running": vm.Running, "stopped": vm.Stopped, "reverted": vm.Reverted, "failed": vm.Failed}[m[1].(string)]
	case "interpreter":
		stack := []string{}
		for _, v := range x.Stack.Data() {
			stack = append(stack, hexI(&v))
		}
		res = map[string]any{"pc": int(x.Pc), "stack": stack, "memory": ints(x.Memory.Data()), "lastret": ints(x.LastCallReturnData)}
	case "env":
		b, r := evm.Context, evm.ChainRules()
		rev := 0
		for i, on := range []bool{r.IsBerlin, r.IsLondon, r.IsMerge, r.IsShanghai, r.IsCancun, r.IsPrague} {
			if on {
				rev = i + 1
			}
		}
		if !r.IsIstanbul || !r.IsByzantium {
			rev = -1
		}
		blobs := []string{}
		for _, h := range evm.BlobHashes {
			blobs = append(blobs, fixed(h[:]))
		}
		random := "none"
		if b.Random != nil {
			random = fixed(b.Random[:])
		}
		if chain := evm.ChainConfig().ChainID; chain.Cmp(r.ChainID) != 0 {
			panic("two chain IDs")
		}
		self := c.Address()
		res = map[string]any{"chain": hexB(r.ChainID), "number": hexB(b.BlockNumber), "time": fmt.Sprintf("%x", b.Time), "coinbase": fixed(b.Coinbase[:]), "limit": fmt.Sprintf("%x", b.GasLimit),
			"randao": random, "difficulty": hexB(b.Difficulty), "basefee": hexB(b.BaseFee), "blobfee": hexB(b.BlobBaseFee), "price": hexB(evm.GasPrice), "origin": fixed(evm.Origin[:]), "blobs": blobs, "revision": rev,
			"readonly": static, "calldata": ints(input), "contractdata": ints(c.Input), "gas": fmt.Sprint(c.Gas), "self": fixed(self[:]), "caller": fixed(c.CallerAddress[:]), "value": hexI(c.Value()), "code": ints(c.Code)}
		self[3] ^= 1
	case "load":
		v := db.GetState(c.Address(), hash(1))
		res = fixed(v[:])
	case "committed":
		v := db.GetCommittedState(c.Address(), hash(1))
		res = fixed(v[:])
	case "store":
		db.SetState(c.Address(), hash(1), hash(2))
	case "tload":
		v := db.GetTransientState(c.Address(), hash(1))
		res = fixed(v[:])
	case "tstore":
		db.SetTransientState(c.Address(), hash(1), hash(2))
	case "balance":
		res = hexI(db.GetBalance(acc(1)))
	case "size":
		res = db.GetCodeSize(acc(1))
	case "code":
		v := db.GetCode(acc(1))
		res = ints(v)
		scribble(v)
	case "exist":
		res = yes(db.Exist(acc(1)))
	case "empty":
		res = yes(db.Empty(acc(1)))
	case "log":
		t := []common.Hash{}
		for _, y := range topics(m[1]) {
			t = append(t, w32(y))
		}
		d := octets(m[2])
		db.AddLog(&types.Log{Address: c.Address(), Topics: t, Data: d})
		scribble(d)
	case "refund":
		if n := num(m[1]); n < 0 {
			db.SubRefund(uint64(-n))
		} else {
			db.AddRefund(uint64(n))
		}
		res = fmt.Sprint(int64(db.GetRefund()))
	case "inlist":
		res = yes(db.AddressInAccessList(acc(1)))
	case "slotinlist":
		_, in := db.SlotInAccessList(c.Address(), hash(1))
		res = yes(in)
	case "access":
		db.AddAddressToAccessList(acc(1))
	case "slot":
		db.AddSlotToAccessList(c.Address(), hash(1))
	case "destruct":
		db.AddBalance(acc(1), db.GetBalance(c.Address()), tracing.BalanceIncreaseSelfdestruct)
		if evm.ChainRules().IsCancun {
			db.SubBalance(c.Address(), db.GetBalance(c.Address()), tracing.BalanceDecreaseSelfdestruct)
			db.Selfdestruct6780(c.Address())
		} else {
			db.SelfDestruct(c.Address())
		}
	case "destructed":
		res = yes(db.HasSelfDestructed(c.Address()))
	case "block":
		h := evm.Context.GetHash(evm.Context.BlockNumber.Uint64() - uint64(num(m[1])))
		res = fixed(h[:])
	case "call":
		var out []byte
		var created common.Address
		var gas uint64
		var err error
		data, g, v := octets(m[3]), uint64(num(m[5])), big256(m[4])
		switch m[1] {
		case "call":
			out, gas, err = evm.Call(c, acc(2), data, g, v)
		case "static_call":
			out, gas, err = evm.StaticCall(c, acc(2), data, g)
		case "delegate_call":
			out, gas, err = evm.DelegateCall(c, acc(2), data, g)
		case "call_code":
			out, gas, err = evm.CallCode(c, acc(2), data, g, v)
		case "create":
			out, created, gas, err = evm.Create(c, data, g, v)
		case "create2":
			out, created, gas, err = evm.Create2(c, data, g, v, uint256.NewInt(77))
		}
		scribble(data)
		end := "ok"
		switch {
		case errors.Is(err, vm.ErrInsufficientBalance):
			end = "funds"
		case errors.Is(err, vm.ErrExecutionReverted):
			end = "reverted"
		case err != nil:
			end = "failed"
		}
		res = []any{end, ints(out), int(gas), fixed(created[:])}
		scribble(out)
	default:
		panic("unknown action " + fmt.Sprint(m[0]))
	}
	return
}

var target = geth.NewConformanceTestingTarget()

func step(w *world, o *op) any {
	steps, results := 0, []any{}
	script := o.A[1].([]any)
	vm.StepScript = func(evm *vm.EVM, x *vm.InterpreterState) {
		if steps < len(script) {
			for _, m := range script[steps].([]any) {
				results = append(results, micro(evm, x.Contract, x, x.ReadOnly, x.Input, m.([]any)))
			}
		}
		steps++
	}
	s, err := target.StepN(w.states[o.H], num(o.A[0]))
	if s != nil && s != w.states[o.H] {
		w.put(o.H, s)
	}
	return []any{steps, problem(err), results}
}

func execute(w *world, o *op) any {
	interpreter, err := tosca.NewInterpreter("geth")
	if err != nil {
		panic(err)
	}
	results, runs := []any{}, 0
	vm.RunScript = func(evm *vm.EVM, c *vm.Contract, input []byte, static bool) ([]byte, error) {
		runs++
		for _, m := range o.A[0].([]any) {
			results = append(results, micro(evm, c, nil, static, input, m.([]any)))
		}
		return octets(o.A[2]), kindsOfEnd[o.A[1].(string)]
	}
	r, err := interpreter.Run(utils.ToVmParameters(w.states[o.H]))
	return []any{runs, problem(err), yes(r.Success), ints(r.Output), fmt.Sprint(int64(r.GasLeft)), fmt.Sprint(int64(r.GasRefund)), results}
}
