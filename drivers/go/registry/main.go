// Runs histories of registrations and lookups on the registries of go/tosca
// and prints them, one JSON history per line.
//
//	registry SEED SEQUENTIAL CONCURRENT
package main

import (
	"bufio"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/Fantom-foundation/Tosca/go/tosca"
)

type thing struct {
	id  int
	cfg any
}

func (thing) Run(tosca.Parameters) (r tosca.Result, err error) { return }

type proc struct {
	id int
	in tosca.Interpreter
}

func (proc) Run(tosca.BlockParameters, tosca.Transaction, tosca.TransactionContext) (r tosca.Receipt, err error) {
	return
}

type op struct {
	op, api, name string
	id            int
	r             string
	inv, res      int64
}

var clock atomic.Int64

func codes(s string) string {
	l := []string{}
	for _, c := range s {
		l = append(l, strconv.Itoa(int(c)))
	}
	return "[" + strings.Join(l, ",") + "]"
}
func panics(f func()) (bad bool) {
	defer func() { bad = recover() != nil }()
	f()
	return
}
func b2s(ok bool) string {
	if ok {
		return "1"
	}
	return "0"
}
func idOf(x any) int {
	switch t := x.(type) {
	case thing:
		return t.id
	case proc:
		return t.id
	case nil:
		return 0
	}
	return -1
}

var other = thing{id: 7}

// do executes an operation on the interpreter (kind 0) or processor (kind 1) registry.
func do(kind int, o *op, prefix string, r *rand.Rand) {
	name := prefix + o.name
	o.inv = clock.Add(1)
	cfg := any(fmt.Sprint("cfg", o.id))
	switch o.op {
	case "reg":
		if kind == 1 {
			id := o.id
			var f tosca.ProcessorFactory
			if o.id > 0 {
				f = func(i tosca.Interpreter) tosca.Processor { return proc{id, i} }
			}
			o.r = b2s(!panics(func() { tosca.RegisterProcessorFactory(name, f) }))
			break
		}
		var f tosca.InterpreterFactory
		id := o.id
		if o.id > 0 {
			f = func(c any) (tosca.Interpreter, error) { return thing{id, c}, nil }
		}
		switch o.api {
		case "must":
			o.r = b2s(!panics(func() { tosca.MustRegisterInterpreterFactory(name, f) }))
		case "old":
			if o.id > 0 {
				o.r = b2s(!panics(func() { tosca.RegisterInterpreter(name, thing{id, cfg}) }))
				break
			}
			fallthrough
		default:
			o.r = b2s(tosca.RegisterInterpreterFactory(name, f) == nil)
		}
	case "get":
		if kind == 1 {
			switch o.api {
			case "new":
				p := tosca.GetProcessor(name, other)
				if p == nil {
					o.r = "0"
				} else if q, ok := p.(proc); !ok || q.in != tosca.Interpreter(other) {
					o.r = "-1"
				} else {
					o.r = strconv.Itoa(q.id)
				}
			default:
				f := tosca.GetProcessorFactory(name)
				if f == nil {
					o.r = "0"
				} else {
					o.r = strconv.Itoa(idOf(f(other)))
				}
			}
			break
		}
		switch o.api {
		case "new":
			x, err := tosca.NewInterpreter(name, cfg)
			if err != nil {
				o.r = b2s(x != nil)
			} else if t, ok := x.(thing); !ok || t.cfg != cfg && !strings.HasPrefix(fmt.Sprint(t.cfg), "cfg") {
				o.r = "-1"
			} else {
				o.r = strconv.Itoa(t.id)
			}
		case "new0":
			x, err := tosca.NewInterpreter(name)
			if err != nil {
				o.r = b2s(x != nil)
			} else {
				o.r = strconv.Itoa(idOf(x))
			}
		case "new2":
			_, err := tosca.NewInterpreter(name, 1, 2)
			o.op = "bad"
			o.r = b2s(err == nil)
		case "old":
			x := tosca.GetInterpreter(name)
			if x == nil {
				o.r = "0"
			} else {
				o.r = strconv.Itoa(idOf(x))
			}
		default:
			f := tosca.GetInterpreterFactory(name)
			if f == nil {
				o.r = "0"
			} else {
				x, _ := f(cfg)
				o.r = strconv.Itoa(idOf(x))
			}
		}
	case "list":
		l := []string{}
		add := func(n string, id int) {
			if strings.HasPrefix(n, prefix) {
				l = append(l, fmt.Sprintf("[%s,%d]", codes(n[len(prefix):]), id))
			}
		}
		// The result is the caller's own.
		if kind == 1 {
			m := tosca.GetAllRegisteredProcessorFactories()
			for n, f := range m {
				add(n, idOf(f(other)))
			}
			for n := range m {
				if o.api == "new" || strings.HasPrefix(n, prefix) {
					delete(m, n)
				}
			}
			m[prefix+"z"] = nil
		} else {
			m := tosca.GetAllRegisteredInterpreters()
			for n, f := range m {
				x, _ := f(nil)
				add(n, idOf(x))
			}
			for n := range m {
				if o.api == "new" || strings.HasPrefix(n, prefix) {
					delete(m, n)
				}
			}
			m[prefix+"z"] = nil
		}
		sort.Strings(l)
		o.r = "[" + strings.Join(l, ",") + "]"
	}
	o.res = clock.Add(1)
}

func random(r *rand.Rand, k int, names []string) *op {
	o := &op{id: k + 1, name: names[r.Intn(len(names))], api: []string{"", "new", "new0", "old", "must", "new2"}[r.Intn(6)]}
	switch r.Intn(7) {
	case 0, 1, 2:
		o.op = "reg"
		if r.Intn(7) == 0 {
			o.id = 0
		}
	case 3:
		o.op = "list"
	default:
		o.op = "get"
	}
	return o
}

func emit(w *bufio.Writer, id string, ops []*op) {
	l := []string{}
	for _, o := range ops {
		r := o.r
		if o.op != "list" {
			r = "[" + r + "]"
		}
		l = append(l, fmt.Sprintf(`{"op":"%s","api":"%s","name":%s,"id":%d,"r":%s,"inv":%d,"res":%d}`, o.op, o.api, codes(o.name), o.id, r, o.inv, o.res))
	}
	fmt.Fprintf(w, `{"id":"%s","ops":[%s]}`+"\n", id, strings.Join(l, ","))
}

func main() {
	seed, _ := strconv.ParseInt(os.Args[1], 10, 64)
	nseq, _ := strconv.Atoi(os.Args[2])
	nconc, _ := strconv.Atoi(os.Args[3])
	r := rand.New(rand.NewSource(seed))
	w := bufio.NewWriter(os.Stdout)
	pool := [][]string{{"a", "A", "b"}, {"lfvm", "LFVM", "Lfvm-SI", "lfvm-si"}, {"", "x"}, {"ä", "Ä", "a"}, {"a-b", "A-b", "a_b", "ab "}, {"z", "Z", "y"}}
	for i := 0; i < nseq; i++ {
		names := pool[r.Intn(len(pool))]
		prefix := fmt.Sprintf("s%d/", i)
		ops := []*op{}
		for k := 0; k < 4+r.Intn(22); k++ {
			o := random(r, k, names)
			do(i%2, o, prefix, r)
			ops = append(ops, o)
		}
		emit(w, fmt.Sprintf("seq%d", i), ops)
	}
	for i := 0; i < nconc; i++ {
		names := pool[r.Intn(len(pool))]
		prefix := fmt.Sprintf("c%d/", i)
		clock.Store(0)
		nt := 2 + r.Intn(3)
		all := make([][]*op, nt)
		var wg, ready sync.WaitGroup
		ready.Add(nt)
		for t := 0; t < nt; t++ {
			for k := 0; k < 1+r.Intn(3); k++ {
				all[t] = append(all[t], random(r, 10*t+k, names))
			}
			wg.Add(1)
			rt := rand.New(rand.NewSource(r.Int63()))
			go func() {
				defer wg.Done()
				ready.Done()
				ready.Wait()
				for _, o := range all[t] {
					if rt.Intn(3) == 0 {
						runtime.Gosched()
					}
					do(i%2, o, prefix, rt)
				}
			}()
		}
		wg.Wait()
		ops := []*op{}
		for _, l := range all {
			ops = append(ops, l...)
		}
		emit(w, fmt.Sprintf("conc%d", i), ops)
	}
	w.Flush()
}
