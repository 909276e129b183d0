package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"
	"time"
)

// Histories over several types, in one goroutine and in many at the same time.

// badTags are values of types that no operation accepts.
func badTags() []any {
	return []any{
		&struct {
			A uint8 `struct:"nope"`
		}{},
		&struct {
			A uint8
			B uint16 `struct:"sizeof=C"`
		}{},
		&struct {
			A uint8
			B []uint8 `struct:"sizefrom=C"`
		}{},
		&struct {
			A uint8
			B struct {
				C uint8 `struct:"uint8:9"`
			}
		}{},
		&struct {
			A uint8 `struct:"skip=z"`
		}{},
		&struct {
			A uint8
			B uint8 `struct:"if=A =="`
		}{},
		&struct {
			A [2]struct {
				B uint8 `struct:"size=2"`
			}
		}{},
		&struct {
			A string `struct:"[2"`
		}{},
		&struct {
			A uint8 `struct:"big little"`
		}{},
	}
}

// variant is t with another meaning for one field.
func (t *T) variant(r *rand.Rand) *T {
	u := *t
	u.F = append([]*Field{}, t.F...)
	for n := 0; n < 20; n++ {
		i := r.Intn(len(u.F))
		f := *u.F[i]
		if f.Cls != "n" {
			continue
		}
		switch r.Intn(3) {
		case 0:
			f.O = map[string]string{"n": "l", "b": "l", "l": "b"}[f.O]
		case 1:
			if f.Bw == 0 {
				f.Sk++
			}
		case 2:
			if f.T.K == "uint" && f.Bt.K == "uint" && f.Bw == 0 && f.Szof == "" && f.Bi == nil {
				f.Bt = prim([]string{"uint8", "uint16", "uint32", "uint64"}[r.Intn(4)])
			}
		}
		u.F[i] = &f
		return &u
	}
	return &u
}

// typesFor makes up related and unrelated types for one history.
func (p *planner) typesFor() []*T {
	r := p.r
	ts := []*T{p.c.T}
	if p.c.T.K == "struct" && len(p.c.T.F) > 0 {
		for i := 0; i < 2; i++ {
			v := p.c.T.variant(r)
			v.render(r)
			ts = append(ts, v)
		}
	}
	a, b := r.Intn(twins), r.Intn(twins)
	ta, tb := namedTypes[fmt.Sprintf("Twin%d", a)], namedTypes[fmt.Sprintf("Twin%d", b)]
	ts = append(ts, ta, tb)
	wrap := func(e *T) *T {
		w := strct(newField("A", prim("uint8"), prim("uint8")), newField("B", e, e), newField("C", array(2, e), array(2, e)))
		w.render(r)
		return w
	}
	ts = append(ts, wrap(ta), wrap(tb))
	o := p.g.topT()
	o.render(r)
	ts = append(ts, o, strct(newField("A", o, o), newField("B", p.c.T, p.c.T)))
	ts[len(ts)-1].render(r)
	r.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
	return ts
}

// call makes up an operation on one of ts that does not depend on others.
func (p *planner) call(ts []*T, inputs map[*T][][]int) *Op {
	r := p.r
	t := ts[r.Intn(len(ts))]
	o := &Op{T: t, Ord: []string{"b", "l"}[r.Intn(2)]}
	switch x := r.Intn(16); {
	case x == 0:
		o.Arg, o.N = "badtag", r.Intn(100)
		o.Op = []string{"pack", "unpack", "sizeof", "bitsize"}[r.Intn(4)]
		return o
	case x == 1:
		o.Arg, o.N = "odd", r.Intn(100)
		o.Op = []string{"pack", "unpack", "sizeof", "bitsize"}[r.Intn(4)]
		return o
	case x < 6:
		o.Op, o.X = "pack", p.g.value(t)
	case x < 9:
		o.Op, o.X = []string{"sizeof", "bitsize"}[r.Intn(2)], p.g.value(t)
	default:
		o.Op = "unpack"
		o.Inp = p.bytes(r.Intn(40))
		if l := inputs[t]; len(l) > 0 && r.Intn(3) > 0 {
			o.Inp = append([]int{}, l[r.Intn(len(l))]...)
			switch r.Intn(4) {
			case 0:
				o.Inp = o.Inp[:r.Intn(len(o.Inp)+1)]
			case 1:
				o.Inp = append(o.Inp, p.bytes(2)...)
			}
		}
		if r.Intn(2) == 0 {
			o.X = p.g.value(t)
		}
	}
	if t.K != "ptr" && r.Intn(6) == 0 && o.Op != "unpack" {
		o.ByVal = true
	}
	return o
}

// hist: operations on several types in turn, some of them repeated later.
func (p *planner) hist() {
	ts := p.typesFor()
	inputs := map[*T][][]int{}
	var done []*Op
	for i := 0; i < 16; i++ {
		p.g.wild = p.r.Intn(5) == 0
		var o *Op
		if len(done) > 3 && p.r.Intn(3) == 0 {
			d := *done[p.r.Intn(len(done))]
			d.Out, d.Y = nil, nil
			if d.Op == "sizeof" || d.Op == "bitsize" {
				d.N = 0
			}
			o = &d
		} else {
			o = p.call(ts, inputs)
			in := *o
			done = append(done, &in)
		}
		p.do(o)
		if o.Op == "pack" && o.St == "ok" && o.Arg == "" {
			inputs[o.T] = append(inputs[o.T], o.Out)
		}
	}
}

// beta: calls before expressions are enabled, and the same and others after.
func (p *planner) beta() {
	ts := p.typesFor()
	inputs := map[*T][][]int{}
	var done []*Op
	at := 4 + p.r.Intn(5)
	for i := 0; i < 14; i++ {
		if i == at {
			p.do(&Op{Op: "enable"})
		}
		var o *Op
		if i > at && p.r.Intn(2) == 0 {
			d := *done[p.r.Intn(len(done))]
			o = &d
		} else {
			o = p.call(ts, inputs)
			in := *o
			done = append(done, &in)
		}
		p.do(o)
		if o.Op == "pack" && o.St == "ok" && o.Arg == "" {
			inputs[o.T] = append(inputs[o.T], o.Out)
		}
	}
}

// conc: the same, by several goroutines at the same time, each with its own values;
// inputs are shared.
func (p *planner) conc() {
	const procs = 5
	r := p.r
	ts := p.typesFor()
	ts = append(ts[:4:4], p.c.T)
	lists := make([][]*Op, procs)
	inputs := map[*T][][]int{}
	bufs := map[string][]byte{}
	for i := 0; i < 7; i++ {
		o := p.call(ts, inputs)
		for g := range lists {
			d := *o
			if g > 0 && r.Intn(3) == 0 {
				d = *p.call(ts, inputs)
			}
			d.conc = true
			if d.Op == "unpack" {
				k := fmt.Sprint(d.Inp)
				if bufs[k] == nil {
					bufs[k] = append(make([]byte, 0, 1+len(d.Inp)), intBytes(d.Inp)...)
				}
				d.buf = bufs[k]
			}
			lists[g] = append(lists[g], &d)
		}
	}
	for g := range lists {
		l := lists[g]
		if g > 1 {
			r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		}
		for _, o := range l {
			o.St = "crash"
			p.c.Ops = append(p.c.Ops, o)
		}
	}
	beforeOp(p.c, nil)
	var wg sync.WaitGroup
	start := make(chan bool)
	res := make([][]*Op, procs)
	for g := range lists {
		// nothing that is written here is shared
		for _, o := range lists[g] {
			d := *o
			d.X = clone(o.X)
			d.St = ""
			res[g] = append(res[g], &d)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, o := range res[g] {
				p.c.exec(o)
			}
		}()
	}
	done := make(chan bool)
	go func() { wg.Wait(); done <- true }()
	close(start)
	select {
	case <-done:
		p.c.Ops = nil
		for g := range res {
			p.c.Ops = append(p.c.Ops, res[g]...)
		}
	case <-time.After(4 * opTimeout):
		for _, o := range p.c.Ops {
			o.St = "hang"
		}
		panic(errHang)
	}
}

func clone(x any) any {
	if x == nil {
		return nil
	}
	b, _ := json.Marshal(x)
	var y any
	json.Unmarshal(b, &y)
	return y
}
