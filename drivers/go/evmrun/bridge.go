package main

import (
	"fmt"
	"math/rand"

	"github.com/Fantom-foundation/Tosca/go/ct"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/interpreter/evmrs"
	"github.com/Fantom-foundation/Tosca/go/interpreter/evmzero"
)

// The interpreters written in C++ and Rust, through Tosca's interfaces.
func init() {
	vms := map[string]ct.Evm{"evmrs": evmrs.NewConformanceTestingTarget(), "evmzero": evmzero.NewConformanceTestingTarget()}
	targets = []string{"evmrs", "evmzero"}
	targetRun = func(target string, c *Case, w *World, rnd *rand.Rand, obs func(Snap)) {
		step := func(s *st.State, scan bool) (t *st.State, err string) {
			before := s.Clone()
			defer before.Release()
			t, e := vms[target].StepN(s.Clone(), 1)
			if e != nil {
				return nil, e.Error()
			}
			if !s.Eq(before) {
				return nil, "changed input"
			}
			if s.Status == st.Running && scan { // nothing happens without steps and in final states
				x, e := vms[target].StepN(s.Clone(), 0)
				if e != nil {
					return nil, e.Error()
				}
				if !x.Eq(s) {
					return nil, fmt.Sprintf("no step changed the state: %v", x.Diff(s))
				}
			}
			return t, ""
		}
		ctLoop(c, w, rnd, obs, step, 0)
	}
}
