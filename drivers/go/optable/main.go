// Prints what go/tosca/vm says about every byte value.
package main

import (
	"encoding/json"
	"fmt"

	"github.com/Fantom-foundation/Tosca/go/tosca/vm"
)

type row map[string]any

func emit(r row) {
	b, _ := json.Marshal(r)
	fmt.Println(string(b))
}

func main() {
	for round := 0; round < 2; round++ {
		for i := 0; i < 256; i++ {
			op := vm.OpCode(i)
			emit(row{"kind": "go", "op": i, "name": op.String(), "valid": vm.IsValid(op), "width": op.Width()})
			if s := fmt.Sprintf("%v", op); s != op.String() {
				emit(row{"kind": "go", "op": i, "name": s})
			}
		}
		ops := vm.ValidOpCodesNoPush()
		l := []int{}
		for _, o := range ops {
			l = append(l, int(o))
		}
		emit(row{"kind": "nopush", "ops": l})
		// What a caller does with its list is no concern of the others.
		for i := range ops {
			ops[i] = vm.INVALID
		}
		_ = append(ops[:0], vm.PUSH1, vm.PUSH2)
	}
	for n, v := range enums {
		emit(row{"kind": "enum", "enum": n, "value": int(v)})
	}
}

var enums = map[string]vm.OpCode{
	ENUMS
}
