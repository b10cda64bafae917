// Package rand stands in for pgregory.net/rand: a seeded generator of
// pseudo-random numbers with the same interface (not the same numbers).
package rand

import (
	mr "math/rand"
	"sync/atomic"
)

var count atomic.Int64

type Rand struct {
	*mr.Rand
	src mr.Source64
}

func New(seed ...uint64) *Rand {
	s := int64(0x9e3779b97f4a7c) + count.Load()
	if len(seed) == 0 {
		s += count.Add(1)
	} else {
		s = 0
		for _, x := range seed {
			s = s*1000003 + int64(x)
		}
	}
	src := mr.NewSource(s).(mr.Source64)
	return &Rand{mr.New(src), src}
}
func (r *Rand) Uint64() uint64 { return r.src.Uint64() }
func (r *Rand) Uint32n(n uint32) uint32 {
	if n == 0 {
		return 0
	}
	return uint32(r.Uint64() % uint64(n))
}
func (r *Rand) Uint64n(n uint64) uint64 {
	if n == 0 {
		return 0
	}
	return r.Uint64() % n
}
func (r *Rand) Seed(seed ...uint64) { *r = *New(seed...) }

var global = New(1)

func Intn(n int) int { return global.Intn(n) }
func Uint64() uint64 { return global.Uint64() }
