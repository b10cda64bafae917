package lfvm

import (
	"bytes"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/holiman/uint256"
)

// VerifSnap is the state of an execution after some instructions.
type VerifSnap struct {
	N, Pc    int
	St       string
	Gas, Ref int64
	Stack    [][32]byte
	Mem      []byte
	Ret, Out []byte
}

type verifRunner struct {
	stack       [][32]byte
	limit, skip int
	obs         func(VerifSnap)
}

func (r verifRunner) run(c *context) (status, error) {
	for _, x := range r.stack {
		c.stack.push(new(uint256.Int).SetBytes32(x[:]))
	}
	st := statusRunning
	count, pending := 0, 0
	for st == statusRunning && count < r.limit {
		if int(c.pc) < len(c.code) {
			op := c.code[c.pc].opcode
			if op != JUMP_TO { // not an instruction of the program
				pending += 1 + strings.Count(op.String(), "_")
			}
			st = execute(c, true)
			if op == JUMP_TO && st == statusRunning {
				continue
			}
		} else {
			pending++
			st = execute(c, true)
		}
		if st == statusRunning && count+pending < r.skip {
			continue
		}
		count += pending
		s := VerifSnap{N: pending, Pc: -1, Gas: int64(c.gas), Ref: int64(c.refund), Mem: bytes.Clone(c.memory.store), Ret: bytes.Clone(c.returnData)}
		pending = 0
		s.St = map[status]string{statusRunning: "run", statusStopped: "stop", statusSelfDestructed: "stop", statusReverted: "rev", statusReturned: "ret", statusFailed: "fail"}[st]
		if st == statusReverted || st == statusReturned {
			s.Out = s.Ret
		}
		for i := 0; i < c.stack.len(); i++ {
			s.Stack = append(s.Stack, c.stack.get(i).Bytes32())
		}
		r.obs(s)
	}
	if st == statusRunning { // the limit was reached
		st = statusStopped
	}
	return st, nil
}

// VerifStep executes a program instruction by instruction.
func VerifStep(p tosca.Parameters, si bool, stack [][32]byte, limit, skip int, obs func(VerifSnap)) {
	vm, err := newVm(config{ConversionConfig: ConversionConfig{WithSuperInstructions: si}, WithShaCache: true, runner: verifRunner{stack, limit, skip, obs}})
	if err != nil {
		panic(err)
	}
	if _, err := vm.Run(p); err != nil {
		panic(err)
	}
}
