package lfvm

import (
	"encoding/binary"
	"slices"
	"sync"
	"sync/atomic"

	"github.com/Fantom-foundation/Tosca/go/tosca"
)

// VerifHashCache gives access to a hash cache over small integers.  The hash of
// k is a value that encodes k; onHash is called whenever one is computed.
type VerifHashCache struct {
	get  func(k int) int
	lock sync.Mutex
}

func decode(h tosca.Hash) int {
	k := int(binary.BigEndian.Uint32(h[4:]))
	want := hashOf(k)
	if want != h {
		return -7
	}
	return k
}
func hashOf(k int) (h tosca.Hash) {
	for i := range h {
		h[i] = byte(k*31 + i)
	}
	binary.BigEndian.PutUint32(h[4:], uint32(k))
	return
}

func NewVerifHashCache(capacity, width int, onHash func(k int)) *VerifHashCache {
	res := &VerifHashCache{}
	if width == 32 {
		c := newHashCache(capacity, func(key [32]byte) tosca.Hash {
			k := int(binary.BigEndian.Uint32(key[28:]))
			onHash(k)
			return hashOf(k)
		})
		res.get = func(k int) int {
			var key [32]byte
			binary.BigEndian.PutUint32(key[28:], uint32(k))
			return decode(c.getHash(key))
		}
	} else {
		c := newHashCache(capacity, func(key [64]byte) tosca.Hash {
			k := int(binary.BigEndian.Uint32(key[28:]))
			onHash(k)
			return hashOf(k)
		})
		res.get = func(k int) int {
			var key [64]byte
			binary.BigEndian.PutUint32(key[28:], uint32(k))
			return decode(c.getHash(key))
		}
	}
	return res
}

func (c *VerifHashCache) Get(k int) int { return c.get(k) }

// VerifConvert tells whether a conversion through the cache of a converter
// equals the conversion without a cache; it also returns the number of cached codes.
type VerifConverter struct {
	c     *Converter
	plain *Converter
	bad   atomic.Int64
}

func NewVerifConverter(capacity int, si bool) *VerifConverter {
	c, err := NewConverter(ConversionConfig{CacheSize: capacity * maxCachedCodeLength * 4, WithSuperInstructions: si})
	if err != nil {
		panic(err)
	}
	p, err := NewConverter(ConversionConfig{CacheSize: -1, WithSuperInstructions: si})
	if err != nil {
		panic(err)
	}
	return &VerifConverter{c: c, plain: p}
}

func (v *VerifConverter) Convert(code []byte, hash *[32]byte) (same bool) {
	return slices.Equal(v.c.Convert(code, (*tosca.Hash)(hash)), v.plain.Convert(slices.Clone(code), nil))
}
