// Records histories of the hash cache and the conversion cache of lfvm.
//
//	lfvmcache seq SEED N        random and exhaustive sequential histories (ndjson)
//	lfvmcache sched SEED N      concurrent histories, interleaved where hashes are computed
//	lfvmcache threads SEED N    real threads on small caches; reports wrong results
//	lfvmcache convert SEED N    histories of the conversion cache, sequential and concurrent
package main

import (
	"bufio"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"
)

var out = bufio.NewWriter(os.Stdout)

type op struct{ k, r, mk, inv, res int }

func emit(id string, capacity int, ops []op) {
	l := []string{}
	for _, o := range ops {
		l = append(l, fmt.Sprintf(`{"op":"goi","k":%d,"v":%d,"r":%d,"mk":%d,"inv":%d,"res":%d}`, o.k, o.k, o.r, o.mk, o.inv, o.res))
	}
	fmt.Fprintf(out, `{"id":"%s","cap":%d,"init":[[0,0]],"ops":[%s]}`+"\n", id, max(2, capacity), strings.Join(l, ","))
}

func sequence(id string, capacity, width int, keys []int) {
	n := 0
	c := lfvm.NewVerifHashCache(capacity, width, func(int) { n++ })
	ops := []op{}
	for i, k := range keys {
		n = 0
		r := c.Get(k)
		ops = append(ops, op{k, r, n, 2 * i, 2*i + 1})
	}
	emit(id, capacity, ops)
}

func seq(r *rand.Rand, n int) {
	// all sequences of a length over few keys, up to the order in which fresh keys appear
	for _, p := range [][3]int{{2, 3, 7}, {3, 4, 7}, {1, 2, 5}} {
		capacity, nk, l := p[0], p[1], p[2]
		keys := make([]int, l)
		var rec func(i, used int)
		rec = func(i, used int) {
			if i == l {
				sequence(fmt.Sprintf("all%d-%v", capacity, keys), capacity, 32, keys)
				return
			}
			for k := 0; k <= min(used+1, nk); k++ {
				keys[i] = k
				rec(i+1, max(used, k))
			}
		}
		rec(0, 0)
	}
	for i := 0; i < n; i++ {
		capacity := []int{2, 3, 4, 5, 8, 16, 50}[r.Intn(7)]
		keys := make([]int, 30+r.Intn(100)+4*capacity)
		nk := capacity + 1 + r.Intn(4)
		for j := range keys {
			keys[j] = r.Intn(nk)
		}
		sequence(fmt.Sprintf("rnd%d", i), capacity, 32+32*r.Intn(2), keys)
	}
}

// sched runs threads one at a time; they are switched where they compute a hash
// and between operations.
func sched(r *rand.Rand, n int) {
	for i := 0; i < n; i++ {
		nt, capacity, nk := 2+r.Intn(2), 2+r.Intn(2), 3+r.Intn(2)
		type thread struct {
			resume, paused chan bool
			done           bool
		}
		ts := make([]*thread, nt)
		cur := -1
		computed := make([]int, nt)
		ready := false
		var c *lfvm.VerifHashCache
		c = lfvm.NewVerifHashCache(capacity, 32, func(int) {
			if !ready {
				return
			}
			t := ts[cur]
			computed[cur]++
			t.paused <- true
			<-t.resume
		})
		ready = true
		var ops []op
		clock := 0
		for t := range ts {
			ts[t] = &thread{resume: make(chan bool), paused: make(chan bool)}
			keys := []int{}
			for j := 0; j < 2+r.Intn(2); j++ {
				keys = append(keys, r.Intn(nk))
			}
			go func() {
				me := ts[t]
				<-me.resume
				for _, k := range keys {
					computed[t] = 0
					inv := clock
					clock++
					res := c.Get(k)
					ops = append(ops, op{k, res, computed[t], inv, clock})
					clock++
					me.paused <- true
					<-me.resume
				}
				me.done = true
				me.paused <- true
			}()
		}
		for {
			alive := []int{}
			for t := range ts {
				if !ts[t].done {
					alive = append(alive, t)
				}
			}
			if len(alive) == 0 {
				break
			}
			cur = alive[r.Intn(len(alive))]
			ts[cur].resume <- true
			<-ts[cur].paused
		}
		emit(fmt.Sprintf("sched%d", i), capacity, ops)
	}
}

func threads(seed int64, n int) {
	wrong := atomic.Int64{}
	for round := 0; round < 6; round++ {
		capacity := 2 + round
		c := lfvm.NewVerifHashCache(capacity, 32+32*(round%2), func(int) {})
		var wg sync.WaitGroup
		for t := 0; t < 8; t++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed*100 + int64(t)))
				for i := 0; i < n; i++ {
					k := r.Intn(capacity + 2)
					if g := c.Get(k); g != k {
						if wrong.Add(1) < 4 {
							fmt.Fprintf(os.Stderr, "WRONG the hash of %d was returned for %d (capacity %d)\n", g, k, capacity)
						}
					}
				}
			}()
		}
		wg.Wait()
	}
	fmt.Printf("RUNS %d\n", 6*8*n)
	if wrong.Load() > 0 {
		os.Exit(3)
	}
}

func convert(r *rand.Rand, n int) {
	codes := [][]byte{}
	hashes := []*[32]byte{}
	add := func(b []byte) {
		codes = append(codes, b)
		h := &[32]byte{byte(len(codes)), byte(len(codes) >> 8), 31: byte(len(b))}
		hashes = append(hashes, h)
	}
	al := []byte{0x5b, 0x60, 0x61, 0x7f, 0x56, 0x58, 0x90, 0x50, 0x01, 0x1b, 0x91, 0x81, 0x52}
	for i := 0; i < 12; i++ {
		b := make([]byte, r.Intn(60))
		for j := range b {
			b[j] = al[r.Intn(len(al))]
		}
		add(b)
		x := append([]byte{}, b...)
		if len(x) > 0 {
			x[r.Intn(len(x))] ^= 1
		}
		add(x)
	}
	for _, l := range []int{0, 1, 24575, 24576, 24577, 30000} {
		b := make([]byte, l)
		for j := range b {
			b[j] = al[r.Intn(len(al))]
		}
		add(b)
	}
	bad := atomic.Int64{}
	do := func(v *lfvm.VerifConverter, r *rand.Rand, what string) {
		k := r.Intn(len(codes))
		if r.Intn(20) != 0 {
			k = r.Intn(24)
		}
		h := hashes[k]
		if r.Intn(4) == 0 {
			h = nil
		}
		if !v.Convert(codes[k], h) {
			if bad.Add(1) < 4 {
				fmt.Fprintf(os.Stderr, "WRONG (%s) the conversion of code %d (%d bytes) is that of another code\n", what, k, len(codes[k]))
			}
		}
	}
	for _, si := range []bool{false, true} {
		for capacity := 1; capacity < 6; capacity++ {
			v := lfvm.NewVerifConverter(capacity, si)
			for i := 0; i < n; i++ {
				do(v, r, "sequential")
			}
			var wg sync.WaitGroup
			for t := 0; t < 8; t++ {
				wg.Add(1)
				rt := rand.New(rand.NewSource(r.Int63()))
				go func() {
					defer wg.Done()
					for i := 0; i < n/4; i++ {
						do(v, rt, "concurrent")
					}
				}()
			}
			wg.Wait()
		}
	}
	fmt.Printf("RUNS %d\n", 2*5*(n+8*(n/4)))
	if bad.Load() > 0 {
		os.Exit(3)
	}
}

func main() {
	seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
	n, _ := strconv.Atoi(os.Args[3])
	r := rand.New(rand.NewSource(seed))
	switch os.Args[1] {
	case "seq":
		seq(r, n)
	case "sched":
		sched(r, n)
	case "threads":
		threads(seed, n)
	case "convert":
		convert(r, n)
	}
	out.Flush()
}
