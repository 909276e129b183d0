package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"time"

	"github.com/go-restruct/restruct"
)

// Case is one schema and a history of operations on it.
type Case struct {
	ID  int
	T   *T
	Off bool // the process starts without expressions
	Raw int  // 1: types are recorded as source text; 2: probably bad ones
	Ops []*Op
	typ reflect.Type
}

// Op is one call of the public API with everything observable about it.
type Op struct {
	Op    string // pack unpack sizeof bitsize, or vdec, venc: computed by the specification alone
	T     *T     // nil: the type of the case
	Arg   string // nil, nilptr, ptrptr, odd, badtag: that is passed instead of a value
	Canon bool   // must reproduce the input of operation Of
	alt   int    // which byte order among equals
	conc  bool   // others run at the same time
	buf   []byte // the input, shared
	Ord   string
	ByVal bool
	Of    int // index (from 1) of the operation whose output is the input, 0 if none
	Cut   int // bytes removed from (negative) or added to that output
	X     any // value before
	Inp   []int
	St    string // ok err panic hang crash
	Y     any    // value after
	Out   []int
	N     int
	InMod bool // the input slice changed
	Alias bool // output and value share memory
	Calls int  // custom codec calls
	Msg   string
	Why   string // which known error
}

func (o *Op) json() any {
	x, y := o.X, o.Y
	if y == nil {
		y = []any{}
	}
	if x == nil {
		x = []any{}
	}
	return map[string]any{"op": o.Op, "ti": 1, "arg": o.Arg, "canon": o.Canon, "ord": o.Ord, "byval": o.ByVal, "of": o.Of, "cut": o.Cut, "x": x, "inp": nn(o.Inp),
		"st": o.St, "y": y, "out": nn(o.Out), "n": o.N, "inmod": o.InMod, "alias": o.Alias, "calls": o.Calls, "msg": o.Msg, "why": o.Why}
}
func (c *Case) json() any {
	ops := make([]any, len(c.Ops))
	tj := func(t *T) any {
		if c.Raw > 0 {
			return t.rawJSON(map[string]int{})
		}
		return t.json()
	}
	ts := []any{tj(c.T)}
	no := map[*T]int{c.T: 1}
	for i, o := range c.Ops {
		j := o.json().(map[string]any)
		if o.T != nil {
			if no[o.T] == 0 {
				ts = append(ts, tj(o.T))
				no[o.T] = len(ts)
			}
			j["ti"] = no[o.T]
		}
		ops[i] = j
	}
	return map[string]any{"id": c.ID, "raw": c.Raw, "off": c.Off, "ts": ts, "go": fmt.Sprint(c.T.Go()), "ops": ops}
}

// orders of which the library knows nothing but their methods
type otherBig struct{ binary.ByteOrder }
type otherLittle struct{ binary.ByteOrder }

// order is a byte order; n varies which of several that mean the same.
func order(o string, n int) binary.ByteOrder {
	if o == "b" {
		if n%8 == 1 {
			return otherBig{binary.BigEndian}
		}
		return binary.BigEndian
	}
	switch n % 8 {
	case 1:
		return &otherLittle{binary.LittleEndian}
	case 2:
		if binary.NativeEndian.Uint16([]byte{1, 0}) == 1 {
			return binary.NativeEndian
		}
	}
	return binary.LittleEndian
}

// hooks called around each operation by the supervised child.
var beforeOp = func(c *Case, o *Op) {}

const opTimeout = 10 * time.Second

// perform runs o on the real library and fills in the observations.
func (c *Case) perform(o *Op) {
	c.Ops = append(c.Ops, o)
	o.alt = c.ID + 3*len(c.Ops)
	o.St = "crash"
	beforeOp(c, o)
	o.St = ""
	done := make(chan bool, 1)
	res := *o
	go func() {
		c.exec(&res)
		done <- true
	}()
	select {
	case <-done:
		*o = res
	case <-time.After(opTimeout):
		o.St = "hang"
		panic(errHang)
	}
}

var errHang = fmt.Errorf("hang")

func (c *Case) exec(o *Op) {
	if o.Op == "enable" {
		restruct.EnableExprBeta()
		o.St = "virt"
		return
	}
	t := c.T
	if o.T != nil {
		t = o.T
	}
	var v reflect.Value
	func() {
		v = t.fresh()
		if o.X != nil {
			t.set(v, o.X, nil)
		}
		o.X = t.get(v, nil)
	}()
	custCalls.Store(0)
	var arg any
	if o.ByVal {
		arg = v.Interface()
	} else {
		arg = v.Addr().Interface()
	}
	switch o.Arg {
	case "nil":
		arg = nil
	case "nilptr":
		arg = reflect.Zero(reflect.PtrTo(v.Type())).Interface()
	case "ptrptr":
		p := reflect.New(reflect.PtrTo(v.Type()))
		if o.Of%2 == 1 {
			p.Elem().Set(v.Addr())
		}
		arg = p.Interface()
	case "badtag":
		arg = badTags()[o.N%len(badTags())]
	case "odd":
		arg = oddArgs()[o.N%len(oddArgs())]
	}
	finish := func(err error) {
		if r := recover(); r != nil {
			o.St = "panic"
			o.Msg = fmt.Sprint(r)
		} else if err != nil {
			o.St = "err"
			o.Msg = err.Error()
			o.Why = why(err)
		} else {
			o.St = "ok"
		}
		if len(o.Msg) > 200 {
			o.Msg = o.Msg[:200]
		}
		o.Calls = int(custCalls.Load())
		if o.conc {
			o.Calls = -1 // others count too
		}
	}
	switch o.Op {
	case "unpack":
		in := intBytes(o.Inp)
		// spare capacity that must not be touched either
		whole := make([]byte, len(in)+8)
		for i := range whole {
			whole[i] = 0xA5
		}
		copy(whole, in)
		buf := whole[:len(in)]
		if o.buf != nil {
			buf = o.buf
		}
		func() {
			var err error
			defer func() { finish(err) }()
			func() {
				defer rethrow(o)
				err = restruct.Unpack(buf, order(o.Ord, o.alt), arg)
			}()
			if o.St == "panic" {
				panic(o.Msg)
			}
		}()
		o.InMod = !bytes.Equal(buf, in)
		for _, b := range whole[len(in):] {
			if b != 0xA5 {
				o.InMod = true
			}
		}
		if o.St == "ok" || o.ByVal {
			o.Y = t.get(v, nil)
		} else {
			o.Y = o.X // not specified, may be big
		}
	case "pack":
		var out []byte
		func() {
			var err error
			defer func() { finish(err) }()
			func() {
				defer rethrow(o)
				out, err = restruct.Pack(order(o.Ord, o.alt), arg)
			}()
			if o.St == "panic" {
				panic(o.Msg)
			}
		}()
		o.Y = t.get(v, nil)
		o.Out = byteInts(out)
		if o.St == "ok" {
			// does the buffer share memory with the value?
			before, _ := json.Marshal(o.Y)
			keep := append([]byte{}, out...)
			for i := range out[:cap(out)] {
				out[:cap(out)][i] ^= 0xFF
			}
			after, _ := json.Marshal(t.get(v, nil))
			o.Alias = !bytes.Equal(before, after)
			copy(out, keep)
			scribble(v, 0)
			if !bytes.Equal(out, keep) {
				o.Alias = true
			}
		}
	case "sizeof", "bitsize":
		func() {
			var err error
			defer func() { finish(err) }()
			func() {
				defer rethrow(o)
				if o.Op == "sizeof" {
					o.N, err = restruct.SizeOf(arg)
				} else {
					o.N, err = restruct.BitSize(arg)
				}
			}()
			if o.St == "panic" {
				panic(o.Msg)
			}
		}()
		o.Y = t.get(v, nil)
	}
	if o.ByVal && t.hasRefs(map[*T]bool{}) {
		o.Y = o.X // references are to the copy
	}
}

func rethrow(o *Op) {
	if r := recover(); r != nil {
		o.St = "panic"
		o.Msg = fmt.Sprint(r)
	}
}

// scribble changes numbers reachable from v in place.
func scribble(v reflect.Value, d int) {
	if d > 6 {
		return
	}
	switch v.Kind() {
	case reflect.Uint8:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0xFF)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), d+1)
		}
	case reflect.Ptr:
		if !v.IsNil() {
			scribble(v.Elem(), d+1)
		}
	}
}

// ---------------------------------------------------------------------- plans

type planner struct {
	g   *gen
	r   *rand.Rand
	c   *Case
	ord string
}

func (p *planner) do(o *Op) *Op {
	if o.Ord == "" {
		o.Ord = p.ord
	}
	if t := p.c.T; t.K == "ptr" && o.T == nil || o.T != nil && o.T.K == "ptr" {
		o.ByVal = false // the value is a pointer
	}
	p.c.perform(o)
	return o
}

// virtual operations are computed by the specification from its own results.
func (p *planner) virt(op string, of int) {
	p.c.Ops = append(p.c.Ops, &Op{Op: op, Ord: p.ord, Of: of, St: "virt"})
}

func (p *planner) bytes(n int) []int {
	b := make([]int, n)
	for i := range b {
		switch p.r.Intn(3) {
		case 0:
			b[i] = p.r.Intn(256)
		default:
			b[i] = p.r.Intn(5)
		}
	}
	return b
}

func (p *planner) dirty() any {
	return p.g.value(p.c.T)
}

// full: sizes, pack, unpack of the result, and mutations of it.
func (p *planner) full() {
	r := p.r
	x := p.g.value(p.c.T)
	p.do(&Op{Op: "sizeof", X: x})
	if r.Intn(2) == 0 {
		p.do(&Op{Op: "bitsize", X: x})
	}
	pk := p.do(&Op{Op: "pack", X: x})
	ip := len(p.c.Ops)
	var out []int
	if pk.St == "ok" {
		out = pk.Out
		u := p.do(&Op{Op: "unpack", Inp: out, Of: ip})
		p.virt("vdec", ip)
		if u.St == "ok" && r.Intn(2) == 0 {
			p.do(&Op{Op: "pack", X: u.Y, Of: ip + 1})
		}
	} else {
		out = p.bytes(r.Intn(24))
	}
	for n := 2; n > 0; n-- {
		p.mutated(out)
	}
	switch r.Intn(6) {
	case 0:
		p.do(&Op{Op: "pack", X: x, ByVal: true, Ord: p.ord})
	case 1:
		p.do(&Op{Op: "sizeof", X: x, ByVal: true})
	case 2:
		p.do(&Op{Op: "unpack", Inp: out, ByVal: true, X: p.dirty()})
	}
}

// values: several values there and back.
func (p *planner) values() {
	for i := 0; i < 5; i++ {
		pk := p.do(&Op{Op: "pack", X: p.g.value(p.c.T)})
		out := pk.Out
		if pk.St != "ok" {
			out = p.bytes(24)
		}
		p.do(&Op{Op: "unpack", Inp: out})
	}
}

func (p *planner) sizes(x any) {
	p.do(&Op{Op: "sizeof", X: x})
	p.do(&Op{Op: "bitsize", X: x})
}

// cuts: sizes, and every prefix and some extensions of an encoding.
func (p *planner) cuts() {
	r := p.r
	x := p.g.value(p.c.T)
	p.sizes(x)
	pk := p.do(&Op{Op: "pack", X: x})
	ip := len(p.c.Ops)
	if pk.St != "ok" {
		return
	}
	out := pk.Out
	p.do(&Op{Op: "unpack", Inp: out, Of: ip})
	ks := []int{}
	for k := 1; k <= len(out); k++ {
		if k <= 3 || len(out) <= 20 || r.Intn(len(out)) < 18 {
			ks = append(ks, k)
		}
	}
	for _, k := range ks {
		p.do(&Op{Op: "unpack", Inp: out[:len(out)-k], Of: ip, Cut: -k})
	}
	for k := 0; k < 2; k++ {
		ext := p.bytes(1 + r.Intn(5))
		p.do(&Op{Op: "unpack", Inp: append(append([]int{}, out...), ext...), Of: ip, Cut: len(ext)})
	}
}

// fuzz: wild values and wild inputs.
func (p *planner) fuzz() {
	r := p.r
	p.g.wild = true
	var out []int
	for i := 0; i < 3; i++ {
		x := p.g.value(p.c.T)
		pk := p.do(&Op{Op: "pack", X: x})
		if pk.St == "ok" {
			out = pk.Out
		}
		p.do(&Op{Op: []string{"sizeof", "bitsize"}[r.Intn(2)], X: x, ByVal: r.Intn(3) == 0})
	}
	for i := 0; i < 6; i++ {
		p.mutated(out)
	}
}

// oddArgs are arguments that nothing can be packed into or from.
func oddArgs() []any {
	return []any{make(chan int), func() {}, map[string]int{"a": 1}, &map[string]int{}, new(any), new(chan int), new(func()),
		struct{ A any }{1}, &struct{ A any }{}, &struct{ A map[int]int }{}, &struct{ A, B chan int }{}, uintptr(3), new(uintptr),
		&struct {
			A uint8
			B func()
		}{1, nil}, [2]any{}, &[2]any{}, []any{1}, &[]map[int]int{{}}, "", []byte(nil), [0]int{}, struct{}{}, &struct{}{}, error(nil), new(error), new(*int), new(**int)}
}

// hostile: as fuzz, with arguments that are no values, and references.
func (p *planner) hostile() {
	r := p.r
	for i := 0; i < 4; i++ {
		op := []string{"pack", "sizeof", "bitsize", "unpack", "unpack"}[r.Intn(5)]
		p.do(&Op{Op: op, Arg: []string{"nil", "nilptr", "nilptr", "ptrptr", "odd", "odd"}[r.Intn(6)], N: r.Intn(100), Inp: p.bytes(r.Intn(9))})
	}
	p.fuzz()
}

// repack: unpack canonical and other inputs and pack the result again.
func (p *planner) repack() {
	r := p.r
	pk := p.do(&Op{Op: "pack", X: p.g.value(p.c.T)})
	for i := 0; i < 5; i++ {
		in := append([]int{}, pk.Out...)
		switch {
		case pk.St != "ok":
			in = p.bytes(16 + r.Intn(48))
		case i > 0:
			for n := r.Intn(3); n >= 0 && len(in) > 0; n-- {
				in[r.Intn(len(in))] = p.bytes(1)[0]
			}
			in = append(in, p.bytes(r.Intn(12))...)
		}
		ord := []string{"b", "l"}[r.Intn(2)]
		if i == 0 {
			ord = p.ord
		}
		u := p.do(&Op{Op: "unpack", Inp: in, Ord: ord})
		if u.St == "ok" {
			k := len(p.c.Ops)
			p.do(&Op{Op: "pack", X: u.Y, Ord: ord, Of: k})
			p.c.Ops = append(p.c.Ops, &Op{Op: "venc", Ord: ord, Of: k, St: "virt"})
		}
	}
}

// dests: the same inputs into several destinations.
func (p *planner) dests() {
	r := p.r
	x := p.g.value(p.c.T)
	pk := p.do(&Op{Op: "pack", X: x})
	var ins [][]int
	if pk.St == "ok" {
		ins = append(ins, pk.Out)
		in := append([]int{}, pk.Out...)
		for n := r.Intn(3); n >= 0 && len(in) > 0; n-- {
			in[r.Intn(len(in))] = p.bytes(1)[0]
		}
		ins = append(ins, append(in, p.bytes(r.Intn(6))...))
	} else {
		ins = append(ins, p.bytes(24), p.bytes(40))
	}
	for _, in := range ins {
		u := p.do(&Op{Op: "unpack", Inp: in})
		for i := 0; i < 3; i++ {
			p.do(&Op{Op: "unpack", Inp: in, X: p.dirty()})
		}
		if u.St == "ok" {
			p.do(&Op{Op: "unpack", Inp: in, X: u.Y})
			w := p.do(&Op{Op: "unpack", Inp: ins[0], X: u.Y})
			if w.St == "ok" {
				p.do(&Op{Op: "unpack", Inp: in, X: w.Y})
			}
		}
	}
}

// byval: every operation on a value and on a pointer to it.
func (p *planner) byval() {
	for i := 0; i < 2; i++ {
		x := p.g.value(p.c.T)
		for _, op := range []string{"pack", "sizeof", "bitsize"} {
			p.do(&Op{Op: op, X: x})
			p.do(&Op{Op: op, X: x, ByVal: true})
		}
		last := p.c.Ops[len(p.c.Ops)-6]
		in := last.Out
		if last.St != "ok" {
			in = p.bytes(24)
		}
		p.do(&Op{Op: "unpack", Inp: in, ByVal: true, X: p.dirty()})
	}
}

// again: the same calls repeatedly on one value.
func (p *planner) again() {
	for i := 0; i < 2; i++ {
		x := p.g.value(p.c.T)
		p.sizes(x)
		a := p.do(&Op{Op: "pack", X: x})
		p.do(&Op{Op: "pack", X: a.Y})
		p.do(&Op{Op: "sizeof", X: a.Y})
		p.do(&Op{Op: "pack", X: x, ByVal: p.r.Intn(2) == 0, Ord: map[string]string{"b": "l", "l": "b"}[p.ord]})
		p.do(&Op{Op: "pack", X: x})
		if a.St == "ok" {
			p.do(&Op{Op: "unpack", Inp: a.Out})
		}
	}
}

// refs: values that are obtained by decoding, with their references cleared.
func (p *planner) refs() {
	r := p.r
	for i := 0; i < 3; i++ {
		var x any
		if r.Intn(2) == 0 {
			x = p.dirty()
		}
		u := p.do(&Op{Op: "unpack", Inp: p.bytes(4 + r.Intn(40)), X: x})
		k := len(p.c.Ops)
		if u.St != "ok" {
			x = p.g.value(p.c.T)
			p.do(&Op{Op: []string{"pack", "sizeof"}[r.Intn(2)], X: x})
			continue
		}
		x = p.c.T.clearRefs(u.Y, r)
		pk := p.do(&Op{Op: "pack", X: x})
		switch r.Intn(3) {
		case 0:
			p.do(&Op{Op: "sizeof", X: x})
		case 1:
			p.do(&Op{Op: "pack", X: x, ByVal: true})
		}
		if pk.St == "ok" {
			p.do(&Op{Op: "unpack", Inp: append(append([]int{}, pk.Out...), p.bytes(r.Intn(3))...), X: u.Y})
		}
		_ = k
	}
}

func (t *T) hasRefs(seen map[*T]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.K == "ref" {
		return true
	}
	for _, e := range t.E {
		if e.hasRefs(seen) {
			return true
		}
	}
	for _, f := range t.F {
		if f.T.hasRefs(seen) {
			return true
		}
	}
	return false
}

// clearRefs makes references in a value nil or foreign.
func (t *T) clearRefs(x any, r *rand.Rand) any {
	switch t.K {
	case "ref":
		return []int{[]int{0, 0, 99}[r.Intn(3)]}
	case "struct":
		a := anys(x)
		b := make([]any, len(a))
		for i := range a {
			b[i] = t.F[i].T.clearRefs(a[i], r)
		}
		return b
	case "array", "slice", "ptr":
		a := anys(x)
		b := make([]any, len(a))
		for i := range a {
			b[i] = t.E[0].clearRefs(a[i], r)
		}
		return b
	}
	return x
}

// mutated unpacks a variation of out into a fresh or used destination.
func (p *planner) mutated(out []int) {
	r := p.r
	in := append([]int{}, out...)
	switch r.Intn(5) {
	case 0:
		if len(in) > 0 {
			in = in[:r.Intn(len(in))]
		}
	case 1:
		in = append(in, p.bytes(1+r.Intn(4))...)
	case 2, 3:
		for n := r.Intn(3); n >= 0 && len(in) > 0; n-- {
			in[r.Intn(len(in))] = p.bytes(1)[0]
		}
		if len(in) > 0 && r.Intn(6) == 0 {
			for k, n := r.Intn(len(in)), 1+r.Intn(8); n > 0 && k < len(in); k, n = k+1, n-1 {
				in[k] = 255
			}
		}
	default:
		in = p.bytes(r.Intn(32))
	}
	var x any
	if r.Intn(2) == 0 {
		x = p.dirty()
	}
	ord := p.ord
	if r.Intn(4) == 0 {
		ord = map[string]string{"b": "l", "l": "b"}[ord]
	}
	u := p.do(&Op{Op: "unpack", Inp: in, X: x, Ord: ord})
	if u.St == "ok" && r.Intn(2) == 0 {
		i := len(p.c.Ops)
		p.do(&Op{Op: "pack", X: u.Y, Ord: ord, Of: i})
		p.c.Ops = append(p.c.Ops, &Op{Op: "venc", Ord: ord, Of: i, St: "virt"})
	}
}

// runCase makes up and runs case i of a profile.
func runCase(prof string, seed int64, i int) *Case {
	r := rand.New(rand.NewSource(seed*1000003 + int64(i)*7919 + int64(hash(prof))))
	p := profiles[prof]
	p.name = prof
	g := &gen{r: r, p: p}
	c := &Case{ID: i, Raw: p.raw, Off: p.off}
	if p.plan == "huge" {
		c.T = prim("bool")
	} else if len(p.pool) > 0 && g.pm(p.poolPM) {
		c.T = namedTypes[p.pool[r.Intn(len(p.pool))]]
	} else {
		c.T = g.topT()
		c.T.render(r)
	}
	pl := &planner{g: g, r: r, c: c, ord: []string{"b", "l"}[r.Intn(2)]}
	func() {
		defer func() {
			if e := recover(); e != nil && e != errHang {
				panic(e)
			}
		}()
		switch p.plan {
		case "":
			pl.full()
		case "cuts":
			pl.cuts()
		case "fuzz":
			pl.fuzz()
		case "huge":
			pl.huge()
		case "badtags":
			pl.badtags()
		case "png":
			pl.png()
		case "hist":
			pl.hist()
		case "conc":
			pl.conc()
		case "beta":
			pl.beta()
		case "hostile":
			pl.hostile()
		case "values":
			pl.values()
		case "refs":
			pl.refs()
		case "repack":
			pl.repack()
		case "dests":
			pl.dests()
		case "byval":
			pl.byval()
		case "again":
			pl.again()
		default:
			panic("plan")
		}
	}()
	return c
}

func hash(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(2)
}
