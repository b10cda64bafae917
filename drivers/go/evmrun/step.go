package main

import (
	"github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"
	"github.com/Fantom-foundation/Tosca/go/tosca"
)

func init() {
	variants = []string{"steps", "steps-si"}
	stepper = func(variant string, p tosca.Parameters, stack [][32]byte, limit, skip int, obs func(Snap)) {
		lfvm.VerifStep(p, variant == "steps-si", stack, limit, skip, func(s lfvm.VerifSnap) { obs(Snap(s)) })
	}
}
