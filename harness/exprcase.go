package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/go-restruct/restruct/expr"
)

// XGroup is an environment in one or two states and evaluations in it.
type XGroup struct {
	ID    int
	lays  []*xlay
	vals  [2][][]any // per state, per layer, per name
	Evals []*XEval
	conc  bool // several goroutines evaluate at the same time
}

// xlay is one resolver: a struct or a map of names.
type xlay struct {
	kind string
	t    *T
	sv   reflect.Value
	m    map[string]expr.Value
}

// XEval is one evaluation with what was observed.
type XEval struct {
	Src   string
	Env   int // state of the environment
	St    string
	G     string
	V     any
	Again bool
	Msg   string
}

func (g *XGroup) json() any {
	envs := []any{}
	for s := 0; s < 2; s++ {
		lay := make([]any, len(g.lays))
		for i, l := range g.lays {
			fs := make([]any, len(l.t.F))
			for j, f := range l.t.F {
				m := map[string]any{"nm": f.Nm, "cls": f.Cls, "t": f.T.json()}
				if f.Em && l.kind == "struct" {
					m["em"] = true
				}
				fs[j] = m
			}
			lay[i] = map[string]any{"f": fs, "vs": g.vals[s][i]}
		}
		envs = append(envs, lay)
	}
	evs := make([]any, len(g.Evals))
	for i, e := range g.Evals {
		cp, ch := []int{}, []string{}
		for _, c := range e.Src {
			cp = append(cp, int(c))
			ch = append(ch, string(c))
		}
		v := e.V
		if v == nil {
			v = []any{}
		}
		evs[i] = map[string]any{"src": map[string]any{"cp": cp, "ch": ch}, "e": e.Env + 1, "st": e.St, "g": e.G, "v": v, "again": e.Again, "msg": e.Msg, "text": e.Src}
	}
	return map[string]any{"id": g.ID, "envs": envs, "evals": evs}
}

// asciiJSON keeps the text independent of the reader's character set.
func asciiJSON(x any) []byte {
	b, err := json.Marshal(x)
	if err != nil {
		fatal(err)
	}
	var o strings.Builder
	for _, c := range string(b) {
		switch {
		case c < 128:
			o.WriteByte(byte(c))
		case c < 0x10000:
			fmt.Fprintf(&o, "\\u%04x", c)
		default:
			c -= 0x10000
			fmt.Fprintf(&o, "\\u%04x\\u%04x", 0xd800+c>>10, 0xdc00+c&0x3ff)
		}
	}
	return []byte(o.String())
}

// ------------------------------------------------------------------ functions

var testFns = map[string]any{
	"addu8": func(a, b uint8) uint8 { return a + b },
	"cat":   func(a, b string) string { return a + b },
	"negi":  func(a int) int { return -a },
	"pick": func(c bool, a, b uint16) uint16 {
		if c {
			return a
		}
		return b
	},
	"half": func(a float64) float64 { return a * 0.5 },
	"sums": func(a uint16, more ...uint8) uint16 {
		for _, b := range more {
			a += uint16(b)
		}
		return a
	},
	"joins": func(parts ...string) string { return strings.Join(parts, "-") },
}

func init() {
	for k, f := range testFns {
		goTypes[k] = reflect.TypeOf(f)
	}
}
func fnT(nm string) *T { return &T{K: "fn", G: "func", W: 8, Nm: nm} }
func mapT(k, e *T) *T  { return &T{K: "map", G: "map", W: 8, E: []*T{k, e}} }
func xfield(nm, cls string, t *T) *Field {
	return &Field{Nm: nm, Cls: cls, T: t, Bt: t, O: "n"}
}

// tOf is the specification's type for a Go type, as far as values of it are compared.
func tOf(t reflect.Type) *T {
	k := t.Kind().String()
	if primTypes[k] != nil {
		return prim(k)
	}
	switch t.Kind() {
	case reflect.Array:
		return array(t.Len(), tOf(t.Elem()))
	case reflect.Slice:
		return slice(tOf(t.Elem()))
	case reflect.Ptr:
		return ptr(tOf(t.Elem()))
	case reflect.Func:
		return &T{K: "fn", G: "func"}
	case reflect.Struct:
		s := strct()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			s.F = append(s.F, xfield(f.Name, "n", tOf(f.Type)))
		}
		return s
	case reflect.Map:
		return mapT(tOf(t.Key()), tOf(t.Elem()))
	}
	return &T{K: "other", G: k}
}

// ------------------------------------------------------------------ evaluation

func (l *xlay) set(vals []any) {
	if l.kind == "struct" {
		if !l.sv.IsValid() {
			l.sv = reflect.New(l.t.Go()).Elem()
		}
		l.t.set(l.sv, vals, nil)
		return
	}
	if l.m == nil {
		l.m = map[string]expr.Value{}
	}
	for i, f := range l.t.F {
		v := reflect.New(f.T.Go()).Elem()
		f.T.set(v, vals[i], nil)
		l.m[f.Nm] = expr.ValueOf(v.Interface())
	}
}

func (e *XEval) observe(f func() (any, error)) (st, g string, v any, msg string) {
	defer func() {
		if p := recover(); p != nil {
			st, g, v, msg = "panic", "", nil, fmt.Sprint(p)
		}
	}()
	x, err := f()
	if err != nil {
		return "err", "", nil, err.Error()
	}
	if x == nil {
		return "ok", "nil", nil, ""
	}
	if _, ok := x.(expr.Package); ok {
		return "ok", "pkg", nil, ""
	}
	rv := reflect.ValueOf(x)
	p := reflect.New(rv.Type()).Elem()
	p.Set(rv)
	t := tOf(rv.Type())
	if t.K == "other" || t.K == "fn" || t.K == "map" {
		return "ok", t.G, nil, ""
	}
	return "ok", t.G, t.get(p, nil), ""
}

var beforeEval = func(k int) {}

// run evaluates everything; false means that an evaluation did not return.
func (g *XGroup) run() bool {
	if g.conc {
		return g.runConc()
	}
	meta := expr.NewMetaResolver()
	for i, l := range g.lays {
		l.set(g.vals[0][i])
		if l.kind == "struct" {
			meta.AddResolver(expr.NewStructResolver(l.sv))
		} else {
			meta.AddResolver(expr.NewMapResolver(l.m))
		}
	}
	var res expr.Resolver = meta
	progs := map[string]*expr.Program{}
	state := 0
	for k, e := range g.Evals {
		if e.Env != state {
			state = e.Env
			for i, l := range g.lays {
				l.set(g.vals[state][i])
			}
		}
		beforeEval(k)
		done := make(chan bool, 1)
		e := e
		go func() {
			e.St, e.G, e.V, e.Msg = e.observe(func() (any, error) { return expr.Eval(res, e.Src) })
			once := func(f func() (any, error)) bool {
				st, gk, v, _ := e.observe(f)
				if st == "panic" && e.St == "err" {
					return true // parsing reports syntax errors by panicking
				}
				return st == e.St && gk == e.G && fmt.Sprint(v) == fmt.Sprint(e.V)
			}
			e.Again = once(func() (any, error) {
				p := progs[e.Src]
				if p == nil {
					p = expr.Parse(strings.NewReader(e.Src))
					progs[e.Src] = p
				}
				return expr.EvalProgram(res, p)
			}) && once(func() (any, error) { return expr.Eval(res, e.Src) })
			done <- true
		}()
		select {
		case <-done:
		case <-time.After(opTimeout):
			g.Evals = append(g.Evals[:k:k], &XEval{Src: e.Src, Env: e.Env, St: "hang"})
			return false
		}
	}
	return true
}

// runConc: several goroutines evaluate everything, with the same environment and
// the same parsed programs.
func (g *XGroup) runConc() bool {
	const procs = 5
	meta := expr.NewMetaResolver()
	progs := make([]*expr.Program, len(g.Evals))
	for i, l := range g.lays {
		l.set(g.vals[0][i])
		if l.kind == "struct" {
			meta.AddResolver(expr.NewStructResolver(l.sv))
		} else {
			meta.AddResolver(expr.NewMapResolver(l.m))
		}
	}
	for k, e := range g.Evals {
		e.Env = 0
		e.observe(func() (any, error) { progs[k] = expr.ParseString(e.Src); return nil, nil })
	}
	beforeEval(0)
	type result struct {
		st, g string
		v     any
		msg   string
	}
	res := make([][]result, procs)
	var wg sync.WaitGroup
	start := make(chan bool)
	for p := range res {
		res[p] = make([]result, len(g.Evals))
		perm := rand.New(rand.NewSource(int64(p))).Perm(len(g.Evals))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, k := range perm {
				e := g.Evals[k]
				o := &res[p][k]
				o.st, o.g, o.v, o.msg = e.observe(func() (any, error) {
					if progs[k] != nil && (p+k)%2 == 0 {
						return expr.EvalProgram(meta, progs[k])
					}
					return expr.Eval(meta, e.Src)
				})
			}
		}()
	}
	done := make(chan bool)
	go func() { wg.Wait(); done <- true }()
	close(start)
	select {
	case <-done:
	case <-time.After(4 * opTimeout):
		g.Evals = []*XEval{{Src: g.Evals[0].Src, St: "hang"}}
		return false
	}
	for k, e := range g.Evals {
		o := res[0][k]
		e.St, e.G, e.V, e.Msg, e.Again = o.st, o.g, o.v, o.msg, true
		for p := range res {
			q := res[p][k]
			e.Again = e.Again && q.st == o.st && q.g == o.g && fmt.Sprint(q.v) == fmt.Sprint(o.v)
		}
	}
	return true
}

// ------------------------------------------------------------------ generation

type xgen struct {
	g  *gen
	r  *rand.Rand
	gr *XGroup
	sc *scope
	i  int
}

func (x *xgen) lay(kind string, fs ...*Field) *xlay {
	l := &xlay{kind: kind, t: strct(fs...)}
	x.gr.lays = append(x.gr.lays, l)
	return l
}

// values fills both states with made-up values and shows names to the scope.
func (x *xgen) values() {
	seen := map[string]bool{}
	for _, l := range x.gr.lays {
		var a, b []any
		for _, f := range l.t.F {
			va, vb := x.value(f.T), x.value(f.T)
			if x.r.Intn(3) == 0 {
				vb = va
			}
			a, b = append(a, va), append(b, vb)
			if !seen[f.Nm] && f.Cls == "n" {
				seen[f.Nm] = true
				x.sc.add(id(f.Nm), f.T, 0)
			}
		}
		x.gr.vals[0] = append(x.gr.vals[0], a)
		x.gr.vals[1] = append(x.gr.vals[1], b)
	}
}

func (x *xgen) value(t *T) any {
	switch t.K {
	case "fn":
		return []any{}
	case "map":
		n := x.r.Intn(4)
		r := []any{}
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			k := x.value(t.E[0])
			if t.E[0].K == "str" {
				k = byteInts([]byte([]string{"", "a", "b", "key"}[x.r.Intn(4)]))
			} else if isIntT(t.E[0]) {
				k = beBytes(uint64(x.r.Intn(3)), t.E[0].W)
			}
			if s := fmt.Sprint(k); !seen[s] {
				seen[s] = true
				r = append(r, []any{k, x.value(t.E[1])})
			}
		}
		sortEntries(r)
		return r
	case "struct":
		r := make([]any, len(t.F))
		for i, f := range t.F {
			r[i] = x.value(f.T)
		}
		return r
	case "slice", "array":
		n := t.N
		if t.K == "slice" {
			n = x.r.Intn(4)
		}
		r := make([]any, n)
		for i := range r {
			r[i] = x.value(t.E[0])
		}
		return r
	case "ptr":
		if x.r.Intn(5) == 0 {
			return []any{}
		}
		return []any{x.value(t.E[0])}
	}
	return x.g.value(t)
}

func (x *xgen) add(src string)         { x.gr.Evals = append(x.gr.Evals, &XEval{Src: src}) }
func (x *xgen) addX(n *X)              { x.add(n.text(x.r)) }
func (x *xgen) one(s ...string) string { return s[x.r.Intn(len(s))] }
func (x *xgen) sp() string             { return sp(x.r) }

// again repeats some evaluations in the second state, with the programs
// parsed in the first.
func (x *xgen) again(n int) {
	m := len(x.gr.Evals)
	for i := 0; i < n && m > 0; i++ {
		e := x.gr.Evals[x.r.Intn(m)]
		x.gr.Evals = append(x.gr.Evals, &XEval{Src: e.Src, Env: 1})
	}
}

var allInts = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr"}
var arithOps = []string{"+", "-", "*", "/", "%", "&", "|", "^", "&^", "<<", ">>"}
var cmpOps = []string{"==", "!=", "<", "<=", ">", ">="}
var binOps = append(append(append([]string{}, arithOps...), cmpOps...), "&&", "||")

func isCmp(o string) bool   { return precOf[o] == 3 }
func isLogic(o string) bool { return precOf[o] <= 2 }
func isShift(o string) bool { return o == "<<" || o == ">>" }

// flat is operands joined by operators without parentheses, with operands of
// the types that Go's grouping needs.
func (x *xgen) flat(ops []string, want string) string {
	opnd := make([]string, len(ops)+1)
	var assign func(lo, hi int, want string)
	assign = func(lo, hi int, want string) {
		if lo == hi {
			opnd[lo] = x.operand(want)
			return
		}
		best := lo
		for k := lo; k < hi; k++ {
			if precOf[ops[k]] <= precOf[ops[best]] {
				best = k
			}
		}
		root := func(lo, hi int) string {
			if lo == hi {
				return "?"
			}
			b := lo
			for k := lo; k < hi; k++ {
				if precOf[ops[k]] <= precOf[ops[b]] {
					b = k
				}
			}
			if isCmp(ops[b]) || isLogic(ops[b]) {
				return "bool"
			}
			return "int"
		}
		o := ops[best]
		l, r := "int", "int"
		switch {
		case isLogic(o):
			l, r = "bool", "bool"
		case isCmp(o):
			if root(lo, best) == "bool" || root(best+1, hi) == "bool" || (lo == best && best+1 == hi && x.r.Intn(6) == 0 && (o == "==" || o == "!=")) {
				l, r = "bool", "bool"
			}
		case isShift(o):
			r = "cnt"
		}
		assign(lo, best, l)
		assign(best+1, hi, r)
	}
	assign(0, len(ops), want)
	s := opnd[0]
	for i, o := range ops {
		s1, s2 := x.sp(), x.sp()
		if opChar(opnd[i+1][0]) && s2 == "" {
			s2 = " "
		}
		s += s1 + o + s2 + opnd[i+1]
	}
	return s
}

func (x *xgen) operand(want string) string {
	r := x.r
	var s string
	switch want {
	case "bool":
		s = x.one("p", "q", "r", "p", "q", "true", "false")
		if r.Intn(8) == 0 {
			s = "!" + x.sp() + s
		}
		return s
	case "cnt":
		return x.one("1", "2", "3", "n", "m")
	}
	s = x.one("a", "b", "c", "d", "1", "2", "3", "7", "o.X", "o.Y", "v[0]", "v[1]", "t.X", "f("+x.one("a", "b", "1")+")")
	switch r.Intn(10) {
	case 0:
		s = "-" + x.sp() + s
	case 1:
		s = "^" + x.sp() + s
	case 2:
		s = "+" + x.sp() + s
	case 3:
		s = "*h"
	}
	return s
}

func (x *xgen) syntax() {
	r := x.r
	t := prim("int")
	obj := strct(xfield("X", "n", t), xfield("Y", "n", t))
	x.lay("map", xfield("a", "n", t), xfield("b", "n", t), xfield("c", "n", t), xfield("d", "n", t),
		xfield("p", "n", prim("bool")), xfield("q", "n", prim("bool")), xfield("r", "n", prim("bool")),
		xfield("n", "n", prim("uint8")), xfield("m", "n", prim("uint")),
		xfield("o", "n", obj), xfield("t", "n", ptr(obj)), xfield("h", "n", ptr(t)), xfield("v", "n", array(2, t)), xfield("f", "n", fnT("negi")))
	x.values()
	for s := 0; s < 2; s++ {
		v := x.gr.vals[s][0]
		for i := 0; i < 4; i++ {
			v[i] = beBytes(uint64(r.Intn(12)-3), 8)
		}
		v[7] = []int{r.Intn(5)}
		v[8] = beBytes(uint64(r.Intn(5)), 8)
		v[9] = []any{beBytes(uint64(r.Intn(9)), 8), beBytes(uint64(r.Intn(9)), 8)}
		v[10] = []any{[]any{beBytes(uint64(r.Intn(9)), 8), beBytes(uint64(r.Intn(9)), 8)}}
		v[11] = []any{beBytes(uint64(r.Intn(9)), 8)}
	}
	// every pair of operators comes up over enough groups
	nb := len(binOps)
	for j := 0; j < 12; j++ {
		k := (x.i*12 + j) % (nb * nb)
		x.add(x.flat([]string{binOps[k/nb], binOps[k%nb]}, "int"))
	}
	for j := 0; j < 12; j++ {
		ops := make([]string, 3+r.Intn(3))
		for i := range ops {
			ops[i] = binOps[r.Intn(nb)]
			if i > 0 && r.Intn(2) == 0 {
				// same level next to each other
				for precOf[ops[i]] != precOf[ops[i-1]] {
					ops[i] = binOps[r.Intn(nb)]
				}
			}
		}
		x.add(x.flat(ops, "int"))
	}
	one := func() []string { return []string{binOps[r.Intn(nb)]} }
	cnd := func() string {
		if r.Intn(3) == 0 {
			return x.operand("bool")
		}
		o := append(cmpOps, "&&", "||")
		return x.flat([]string{o[r.Intn(8)]}, "bool")
	}
	for j := 0; j < 8; j++ {
		switch r.Intn(6) {
		case 0:
			x.add(cnd() + " ? " + x.flat(one(), "int") + " : " + x.flat(one(), "int"))
		case 1:
			x.add(cnd() + x.sp() + "?" + x.sp() + x.operand("int") + x.sp() + ":" + x.sp() + cnd() + "?" + x.operand("int") + ":" + x.operand("int"))
		case 2:
			x.add(cnd() + "?" + cnd() + "?" + x.operand("int") + ":" + x.operand("int") + ":" + x.operand("int"))
		case 3:
			x.add("(" + cnd() + "?" + x.operand("int") + ":" + x.operand("int") + ")" + x.one("+", "*", "-", "==", "<") + " " + x.operand("int"))
		case 4:
			x.add(cnd() + "? v [ " + x.one("0", "1", "p ? 0 : 1", "1-1") + " ] : f(" + x.flat(one(), "int") + ")")
		case 5:
			x.add("f(" + cnd() + "?" + x.operand("int") + ":" + x.operand("int") + ")" + x.one("+", "*", "-") + " " + x.operand("int"))
		}
	}
	for j := 0; j < 14; j++ {
		if r.Intn(2) == 0 {
			x.addX(x.sc.boolean(4))
		} else {
			x.addX(x.sc.integer(t, 4))
		}
	}
	for _, s := range []string{"(a", "a)", "a +", "* ", "a b", "a ? b", "a ? b :", "a : b", "a [", "a[0", "v[0]]", "f(", "f(a", "f(a,)", "o.", ".X", "a == ", "p && ", "!", "()", "f()(a)", "a,b", "", " ", "a;b", "v[]", "p ? a b", "((a)", "((a)))", "a = b", "p & & q", "a < = b", "a & ^b", "1 2", "a 1", "(a)(b)", "(a) b", "o . X", "o. X", "t .X"} {
		if r.Intn(12) == 0 {
			x.add(s)
		}
	}
	x.again(8)
}

func (x *xgen) ints() {
	r := x.r
	k := allInts[x.i%len(allInts)]
	t := prim(k)
	mk := func() *T {
		if k != "int" && k != "uint" && k != "uintptr" && r.Intn(5) == 0 {
			return namedPrim(k)
		}
		return t
	}
	nm := []string{"a", "b", "c", "d", "e", "f", "g", "h"}
	fs := []*Field{}
	for _, n := range nm {
		fs = append(fs, xfield(n, "n", mk()))
	}
	cn := []string{"n8", "n16", "n32", "n64", "nu"}
	for i, n := range cn {
		fs = append(fs, xfield(n, "n", prim(uintKinds[i])))
	}
	o := prim(allInts[r.Intn(len(allInts))])
	fs = append(fs, xfield("x", "n", o), xfield("z", "n", t))
	x.lay("map", fs...)
	x.values()
	grid := []uint64{0, 1, ^uint64(0), 1 << 63 >> uint(64-8*t.W), 1<<63>>uint(64-8*t.W) - 1, 2, 3, 7, 1<<uint(8*t.W-2) + 1, uint64(r.Intn(100))}
	for s := 0; s < 2; s++ {
		v := x.gr.vals[s][0]
		for i := range nm {
			switch r.Intn(3) {
			case 0:
				v[i] = x.g.value(t)
			default:
				v[i] = beBytes(grid[r.Intn(len(grid))], t.W)
			}
		}
		for i := range cn {
			w := prim(uintKinds[i]).W
			v[len(nm)+i] = beBytes([]uint64{0, 1, 3, uint64(8*t.W - 1), uint64(8 * t.W), uint64(8*t.W + 1), 255, 64, 63}[r.Intn(9)], w)
			if r.Intn(8) == 0 {
				v[len(nm)+i] = beBytes(r.Uint64(), w)
			}
		}
		v[len(nm)+len(cn)+1] = beBytes(0, t.W)
	}
	any := func() string { return nm[r.Intn(len(nm))] }
	for j := 0; j < 30; j++ {
		x.add(any() + x.sp() + arithOps[(j+x.i)%9] + " " + any())
	}
	for j := 0; j < 14; j++ {
		x.add(any() + x.sp() + x.one("<<", ">>") + x.sp() + x.one("n8", "n16", "n32", "n64", "nu", "0", "1", "7", "8", "15", "31", "32", "63", "64", "65", "200", "18446744073709551615", "a", "x"))
	}
	for j := 0; j < 8; j++ {
		x.add(x.one("-", "+", "^", "- -", "-^", "^-", "^ ^", "!") + x.sp() + any())
	}
	for j := 0; j < 6; j++ {
		x.add(any() + x.sp() + arithOps[r.Intn(len(arithOps))] + " " + x.one("x", "z", "0", "nu", "true", "nil"))
	}
	for j := 0; j < 8; j++ {
		x.addX(x.sc.integer(t, 3))
	}
	x.again(10)
}

var poison = []string{"1/(a-a)", "a/0", "nope", "np.X", "*np", "v[9]", "v[-1]", "a.X", "f()", "!a", "-s", "f(s)"}

func (x *xgen) logic() {
	r := x.r
	kinds := append(append([]string{}, allInts...), "float32", "float64", "string", "bool")
	k := kinds[x.i%len(kinds)]
	t := prim(k)
	mk := func() *T {
		if k != "int" && k != "uint" && k != "uintptr" && r.Intn(4) == 0 {
			return namedPrim(k)
		}
		return t
	}
	o := prim(kinds[r.Intn(len(kinds))])
	obj := strct(xfield("X", "n", t))
	mkb := func() *T { return []*T{prim("bool"), namedPrim("bool")}[r.Intn(2)] }
	x.lay("map", xfield("a", "n", mk()), xfield("b", "n", mk()), xfield("c", "n", mk()), xfield("d", "n", mk()), xfield("o", "n", o),
		xfield("p", "n", mkb()), xfield("q", "n", mkb()), xfield("np", "n", ptr(obj)), xfield("t", "n", ptr(obj)), xfield("h", "n", ptr(t)),
		xfield("v", "n", array(2, t)), xfield("f", "n", fnT("negi")), xfield("s", "n", prim("string")), xfield("sl", "n", slice(t)))
	x.values()
	for s := 0; s < 2; s++ {
		v := x.gr.vals[s][0]
		for i := 0; i < 4; i++ {
			if i > 0 && r.Intn(3) == 0 {
				v[i] = v[r.Intn(i)]
			} else if t.K == "int" || t.K == "uint" {
				if r.Intn(2) == 0 {
					v[i] = beBytes([]uint64{0, 1, ^uint64(0), 1 << uint(8*t.W-1), 1<<uint(8*t.W-1) - 1, 256, 128}[r.Intn(7)], t.W)
				}
			}
		}
		v[7] = []any{}
	}
	any := func() string { return x.one("a", "b", "c", "d", "v[0]", "v[1]", "np.X", "t.X", "*h", "a", "b") }
	for j := 0; j < 24; j++ {
		x.add(any() + x.sp() + cmpOps[j%6] + x.sp() + any())
	}
	for j := 0; j < 6; j++ {
		x.add(any() + cmpOps[j] + x.one("o", "nil", "true", "\"a\"", "1", "0", "1.5", "-1", "o"))
		x.add(x.one("h", "t", "np", "sl", "a", "nil", "f") + x.one("==", "!=", "==", "!=", "<") + x.one("nil", "h", "t", "np"))
	}
	bo := func() string {
		return x.one("p", "q", "!p", "!q", "a==b", "a != c", "true", "false", "(p||q)", "p&&q", "!(a==b)", "np==nil", "nil != t", "!!p")
	}
	for j := 0; j < 10; j++ {
		x.add(bo() + x.sp() + x.one("&&", "||", "==", "!=", "&&", "||") + x.sp() + bo())
	}
	for j := 0; j < 10; j++ {
		pz := poison[r.Intn(len(poison))]
		if r.Intn(2) == 0 {
			x.add(bo() + "?" + x.one("a", "b", "s", "p") + ":" + pz)
		} else {
			x.add(bo() + " ? " + pz + " : " + x.one("a", "b", "s", "p"))
		}
	}
	for j := 0; j < 6; j++ {
		x.add(x.one("a", "s", "1", "nil", "t", "v", "p", "0", "1.0") + x.one("&&p", "||q", " ? a : b", "&& a", "|| s", "&& true"))
		x.add("!" + x.one("a", "s", "1", "nil", "t", "p", "1.5", "true"))
	}
	for j := 0; j < 8; j++ {
		x.addX(x.sc.boolean(4))
	}
	x.again(12)
}

func (x *xgen) constant() string {
	r := x.r
	switch r.Intn(10) {
	case 0:
		return x.one("0", "1", "2", "127", "128", "255", "256", "-1", "-128", "-129", "32767", "32768", "65535", "65536", "-32768", "2147483647", "2147483648", "4294967295", "-2147483648", "9223372036854775807", "-9223372036854775808")
	case 1:
		return x.one("1.5", "0.25", "-2.5", "1e3", "1.0", "0.0", "3.25e-2", ".5")
	case 2:
		return x.one("true", "false")
	case 3:
		return x.one("nil", "\"a\"", "\"\"", "'a'", "'\\n'")
	case 4, 5:
		return strconv.Itoa(r.Intn(128))
	}
	return x.one("0", "1", "2", "3", "7", "100", "-1", "-3", "0x10", "077")
}

func (x *xgen) consts() {
	r := x.r
	kinds := append(append([]string{}, allInts...), "float32", "float64", "string", "bool")
	fs := []*Field{}
	for i := 0; i < 5; i++ {
		k := kinds[(x.i*5+i)%len(kinds)]
		t := prim(k)
		if k != "int" && k != "uint" && k != "uintptr" && r.Intn(4) == 0 {
			t = namedPrim(k)
		}
		fs = append(fs, xfield(string(rune('a'+i)), "n", t))
	}
	fs = append(fs, xfield("addu8", "n", fnT("addu8")), xfield("cat", "n", fnT("cat")), xfield("negi", "n", fnT("negi")), xfield("pick", "n", fnT("pick")), xfield("half", "n", fnT("half")), xfield("sums", "n", fnT("sums")), xfield("joins", "n", fnT("joins")),
		xfield("v", "n", array(3, prim("uint16"))), xfield("l", "n", slice(prim("float32"))), xfield("s", "n", prim("string")), xfield("h", "n", ptr(prim("int"))), xfield("p", "n", prim("bool")),
		xfield("ms", "n", mapT(prim("string"), prim("int16"))), xfield("mi", "n", mapT(prim("int"), prim("uint8"))), xfield("mu", "n", mapT(prim("uint8"), prim("string"))), xfield("mb", "n", mapT(prim("bool"), prim("int"))))
	x.lay("map", fs...)
	x.values()
	v := func() string { return x.one("a", "b", "c", "d", "e") }
	for j := 0; j < 24; j++ {
		if j%2 == 0 {
			x.add(v() + x.sp() + binOps[r.Intn(len(binOps))] + " " + x.constant())
		} else {
			x.add(x.constant() + x.sp() + binOps[r.Intn(len(binOps))] + " " + v())
		}
	}
	for j := 0; j < 10; j++ {
		x.add(x.constant() + x.sp() + binOps[r.Intn(len(binOps))] + " " + x.constant())
	}
	for j := 0; j < 8; j++ {
		x.add(x.one("(1+2)", "(3*4-1)", "(1<<3)", "(7/2)", "-(5)", "^0", "^7", "(1.5+1.0)", "-(1.5)", "(p?1:2)", "(p ? 1.5 : 2.5)", "(true&&p)", "(1==1)", "+3", "- -3", "(2.0*3.0)", "(1.0/4.0)") + x.sp() + x.one(binOps...) + " " + x.one(v(), x.constant()))
	}
	for j := 0; j < 12; j++ {
		switch r.Intn(10) {
		case 8:
			args := []string{}
			for n := r.Intn(6); n > 0; n-- {
				args = append(args, x.one(x.constant(), v(), "1", "255", "v[0]"))
			}
			x.add("sums(" + strings.Join(args, ",") + ")")
		case 9:
			args := []string{}
			for n := r.Intn(4); n > 0; n-- {
				args = append(args, x.one("\"x\"", "s", "\"\"", "cat(s,s)", v(), x.constant()))
			}
			x.add("joins(" + strings.Join(args, ",") + ")")
		case 0:
			x.add("addu8(" + x.constant() + "," + x.one(x.constant(), v()) + ")")
		case 1:
			x.add("half(" + x.one(x.constant(), v()) + ")")
		case 2:
			x.add("negi(" + x.one(x.constant(), v()) + ")")
		case 3:
			x.add("pick(" + x.one("true", "p", "1", x.constant()) + "," + x.constant() + "," + x.one(x.constant(), v()) + ")")
		case 4:
			x.add(x.one("v", "l", "s") + "[" + x.one(x.constant(), v(), "0", "1", "2") + "]")
		case 5:
			x.add(x.one("ms", "mi", "mu", "mb") + "[" + x.one(x.constant(), x.constant(), v(), "\"a\"", "1", "0", "true") + "]")
		case 6:
			x.add("cat(" + x.one("\"x\"", v(), x.constant()) + "," + x.one("\"y\"", "s", "nil") + ")")
		case 7:
			x.add(x.one("h", "ms", "l", "negi", "sums", "s", "v") + x.one("==", "!=") + x.one("nil", x.constant()))
		}
	}
	for j := 0; j < 4; j++ {
		x.add(x.one("-", "!", "^", "+", "*", "&") + x.constant())
	}
	x.again(10)
}

// world is a random environment of several layers with nested values.
func (x *xgen) world() []*T {
	r := x.r
	names := []string{"a", "b", "cc", "Dd", "_e", "é", "λx", "名", "жук9", "x1", "trueish", "nilly", "int9"}
	prims := append(append([]string{}, allInts...), "float32", "float64", "string", "bool")
	var typ func(d int) *T
	typ = func(d int) *T {
		if d > 0 {
			switch r.Intn(9) {
			case 0, 1:
				s := strct()
				for i, n, o := 0, 1+r.Intn(3), r.Intn(4); i < n; i++ {
					s.F = append(s.F, xfield(string(rune('A'+o+i)), "n", typ(d-1)))
				}
				x.embed(s)
				if r.Intn(3) == 0 {
					s.F = append(s.F, xfield("hid", "u", typ(0)))
				}
				return s
			case 2:
				return array(1+r.Intn(3), typ(d-1))
			case 3:
				return slice(typ(d - 1))
			case 4, 5:
				return ptr(typ(d - 1))
			case 6:
				if r.Intn(2) == 0 {
					return mapT([]*T{prim("string"), prim("int"), prim("uint8"), prim("bool")}[r.Intn(4)], typ(d-1))
				}
			}
		}
		k := prims[r.Intn(len(prims))]
		if k != "int" && k != "uint" && k != "uintptr" && r.Intn(5) == 0 {
			return namedPrim(k)
		}
		return prim(k)
	}
	var ts []*T
	for l, n := 0, 1+r.Intn(3); l < n; l++ {
		if r.Intn(2) == 0 {
			s := x.lay("struct")
			for i, n := 0, 1+r.Intn(5); i < n; i++ {
				if r.Intn(6) == 0 {
					s.t.F = append(s.t.F, xfield(string(rune('a'+i)), "u", typ(1)))
				} else {
					s.t.F = append(s.t.F, xfield(string(rune('A'+i)), "n", typ(3)))
				}
			}
			x.embed(s.t)
		} else {
			s := x.lay("map")
			perm := r.Perm(len(names))
			for _, i := range perm[:2+r.Intn(4)] {
				s.t.F = append(s.t.F, xfield(names[i], "n", typ(3)))
			}
			if r.Intn(3) == 0 {
				s.t.F = append(s.t.F, xfield(string(rune('A'+r.Intn(5))), "n", typ(2)))
			}
			for _, f := range []string{"addu8", "cat", "negi", "pick", "half", "sums", "joins"} {
				if r.Intn(3) == 0 {
					s.t.F = append(s.t.F, xfield(f, "n", fnT(f)))
				}
			}
		}
	}
	x.values()
	return ts
}

// embed makes some struct fields of a struct embedded.
func (x *xgen) embed(t *T) {
	for _, f := range t.F {
		e := f.T
		if e.K == "ptr" {
			e = e.E[0]
		}
		if e.K == "struct" && f.Cls == "n" && x.r.Intn(2) == 0 {
			f.Em = true
		}
	}
}

// promoted is a name seen through embedded structs, when f is one.
func (x *xgen) promoted(f *Field) *Field {
	for f.Em && x.r.Intn(4) > 0 {
		e := f.T
		if e.K == "ptr" {
			e = e.E[0]
		}
		f = e.F[x.r.Intn(len(e.F))]
	}
	return f
}

// path walks from a name towards something, sometimes off the map.
func (x *xgen) path() (string, *T) {
	r := x.r
	l := x.gr.lays[r.Intn(len(x.gr.lays))]
	f := x.promoted(l.t.F[r.Intn(len(l.t.F))])
	s, t := f.Nm, f.T
	for d := 0; d < 4 && r.Intn(5) > 0; d++ {
		if r.Intn(30) == 0 {
			return s + x.one(".X", "[0]", "()", ".A.B", "[a]"), nil
		}
		switch t.K {
		case "struct":
			if len(t.F) == 0 {
				return s, t
			}
			g := x.promoted(t.F[r.Intn(len(t.F))])
			s, t = s+x.sp()+"."+x.sp()+g.Nm, g.T
		case "array", "slice":
			n := t.N
			if n == 0 {
				n = 2
			}
			s, t = s+"["+x.sp()+x.one(strconv.Itoa(r.Intn(n)), strconv.Itoa(r.Intn(n)), "0", strconv.Itoa(n), "-1", "a")+x.sp()+"]", t.E[0]
		case "str":
			return s + "[" + x.one("0", "1", "9") + "]", prim("uint8")
		case "map":
			k := x.constant()
			switch t.E[0].K {
			case "str":
				k = x.one(`""`, `"a"`, `"b"`, `"key"`)
			case "bool":
				k = x.one("true", "false")
			default:
				k = x.one("0", "1", "2")
			}
			s, t = s+"["+k+"]", t.E[1]
		case "ptr":
			if t.E[0].K == "struct" && r.Intn(2) == 0 {
				g := x.promoted(t.E[0].F[r.Intn(len(t.E[0].F))])
				s, t = s+"."+g.Nm, g.T
			} else {
				s, t = "(*"+s+")", t.E[0]
			}
		case "fn":
			s, t = s+"("+x.one("1", "1,2", `"a","b"`, "true,1,2", "2.5", "", "1,2,3")+")", nil
			return s, t
		default:
			return s, t
		}
	}
	return s, t
}

func (x *xgen) access() {
	x.world()
	r := x.r
	for j := 0; j < 34; j++ {
		p, t := x.path()
		switch r.Intn(8) {
		case 0:
			p = "&" + x.sp() + p
		case 1:
			p = "*&" + p
		case 2:
			p = "*" + p
		case 3:
			if t != nil && t.K == "struct" && len(t.F) > 0 {
				p = "(&" + p + ")." + t.F[0].Nm
			}
		}
		x.add(p)
	}
	for j := 0; j < 8; j++ {
		a, _ := x.path()
		b, _ := x.path()
		x.add(a + x.one("==", "+", "<", "!=", "&&") + " " + b)
		x.add(x.one("addu8", "cat", "negi", "pick", "half", "sums", "joins") + "(" + a + x.one("", ",1", ","+b, ",1,2", ","+b+",1") + ")")
	}
	for j := 0; j < 4; j++ {
		x.addX(x.sc.boolean(2))
	}
	x.again(24)
}

func (x *xgen) fuzzsrc() {
	x.world()
	r := x.r
	pieces := []string{"a", "b", "cc", "A", "B", "(", ")", "[", "]", ".", ",", "?", ":", "+", "-", "*", "/", "%", "&", "|", "^", "<", ">", "=", "!", "<<", ">>", "&^", "&&", "||", "==", "!=", "<=", ">=",
		"1", "0", "2.5", "0x", "1e", "'a'", "'", "\"", "\"s\"", "$'x'", "$", "\\", "nil", "true", "int", "bits", " ", "\t", "~", "#", "@", ";", "{", "}", "`", "addu8", "negi(", "é", "09", "0b2", "1.", ".5", "..", "99999999999999999999", "'\\", "\"\\x", "\\u12", "_", "int8", "byte", "\n", "0x1p4", "1_0"}
	for j := 0; j < 22; j++ {
		s := ""
		for k, n := 0, 1+r.Intn(9); k < n; k++ {
			s += pieces[r.Intn(len(pieces))]
		}
		x.add(s)
	}
	valid := func() string {
		switch r.Intn(4) {
		case 0:
			s, _ := x.path()
			return s
		case 1:
			return x.sc.boolean(3).text(r)
		}
		a, _ := x.path()
		b, _ := x.path()
		return a + x.sp() + binOps[r.Intn(len(binOps))] + " " + b
	}
	for j := 0; j < 26; j++ {
		s := []rune(valid())
		for k, n := 0, 1+r.Intn(2); k < n && len(s) > 0; k++ {
			i := r.Intn(len(s))
			switch r.Intn(4) {
			case 0:
				s = append(s[:i:i], s[i+1:]...)
			case 1:
				s = append(s[:i:i], append([]rune(pieces[r.Intn(len(pieces))]), s[i:]...)...)
			case 2:
				s = s[:i]
			case 3:
				j := r.Intn(len(s))
				s[i], s[j] = s[j], s[i]
			}
		}
		if utf8.ValidString(string(s)) {
			x.add(string(s))
		}
	}
	for j := 0; j < 14; j++ {
		a, _ := x.path()
		b, _ := x.path()
		x.add(x.one(a+x.one(binOps...)+" "+b, x.one("-", "!", "^", "*", "&", "+")+a, a+"["+b+"]", a+"("+b+")", a+".A", a+" ? "+b+" : "+a, "("+a+")("+b+")"))
	}
	n := 20 + r.Intn(60)
	x.add(strings.Repeat("(", n) + "1" + strings.Repeat(")", n-r.Intn(2)))
	x.add(strings.Repeat("- ", n) + "1")
	x.add("1" + strings.Repeat("+1", n))
	x.add(strings.Repeat("(", n))
	x.add(strings.Repeat("1?", n/8) + "1")
	x.add("1" + strings.Repeat(" ? 1 : 2", n/4))
	x.again(8)
}

func (x *xgen) number() string {
	r := x.r
	u := r.Uint64() >> uint(r.Intn(64))
	if r.Intn(4) == 0 {
		u = []uint64{0, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1 << 32, 1<<31 - 1, 255, 7, 8, 10}[r.Intn(10)]
	}
	switch r.Intn(12) {
	case 0:
		return fmt.Sprintf("0x%x", u)
	case 1:
		return fmt.Sprintf("0X%X", u)
	case 2:
		return fmt.Sprintf("0%o", u)
	case 3:
		return fmt.Sprintf("-%d", u)
	case 4:
		return fmt.Sprintf("-0x%x", u)
	case 5:
		return fmt.Sprintf("%d%d", u, r.Intn(100))
	case 6, 7, 8:
		return x.float()
	case 9:
		return x.one("0x", "0xg", "09", "018", "0x1g", "1e", "1e+", "1.2.3", "18446744073709551616", "0x10000000000000000", "02000000000000000000000", "1a", "0b101", "00", "0x0", "000017", "1x", "-9223372036854775808", "-9223372036854775809", "0xFFFFFFFFFFFFFFFF", "1ee3", "1e3.5", "1e999", "0b", "0b12", "0f", "9f", "0e0")
	}
	return strconv.FormatUint(u, 10)
}
func (x *xgen) float() string {
	r := x.r
	d := func(n int) string {
		s := ""
		for i := 0; i < n; i++ {
			s += strconv.Itoa(r.Intn(10))
		}
		return s
	}
	var s string
	switch r.Intn(6) {
	case 0:
		s = d(1+r.Intn(8)) + "." + d(r.Intn(9))
	case 1:
		s = "." + d(1+r.Intn(9))
	case 2:
		s = strconv.FormatFloat(math.Float64frombits(r.Uint64()&^(0x7ff<<52)|uint64(1023-60+r.Intn(120))<<52), 'g', -1, 64)
	case 3:
		return d(1+r.Intn(3)) + x.one("", "."+d(r.Intn(3))) + x.one("e", "E") + x.one("", "+", "-") + strconv.Itoa(r.Intn(18))
	case 4:
		s = strconv.FormatFloat(float64(r.Intn(4000)-2000)/16, 'g', -1, 64)
		if !strings.ContainsAny(s, ".e") {
			s += ".0"
		}
		return s
	case 5:
		// half-way between two neighbours, or next to it
		s = strconv.FormatUint(1<<53+2*uint64(r.Intn(1000))+1, 10) + x.one(".0", ".00000001", "."+d(4))
	}
	if r.Intn(4) == 0 {
		s = "-" + s
	}
	return s
}

var runesPool = []rune{'a', 'Z', '0', ' ', '~', '"', '\'', '\\', '$', '{', ',', 'é', 'ß', 'λ', 'ж', '世', '界', '😀', 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xfffd, '\t'}

func (x *xgen) escape(q rune) string {
	r := x.r
	switch r.Intn(14) {
	case 0, 1:
		return "\\" + x.one("a", "b", "f", "n", "r", "t", "v", "\\")
	case 2:
		return "\\" + string(q)
	case 3:
		return fmt.Sprintf("\\x%02x", r.Intn(256))
	case 4:
		return fmt.Sprintf("\\x%02X", r.Intn(256))
	case 5:
		return fmt.Sprintf("\\%03o", r.Intn(256))
	case 6:
		return fmt.Sprintf("\\u%04x", runesPool[r.Intn(len(runesPool))]&0xffff)
	case 7:
		return fmt.Sprintf("\\u%04X", r.Intn(0x10000))
	case 8:
		return fmt.Sprintf("\\U%08x", runesPool[r.Intn(len(runesPool))])
	case 9:
		return fmt.Sprintf("\\U%08x", r.Intn(0x120000))
	case 10:
		return x.one("\\x", "\\xg0", "\\8", "\\400", "\\19", "\\u123", "\\u00g0", "\\ud800", "\\U00110000", "\\q", "\\\"", "\\'", "\\ ", "\\U0000", "\\377", "\\000", "\\0", "\\77", "\\udfff", "\\ue000", "\\ud7ff")
	}
	c := runesPool[r.Intn(len(runesPool))]
	if c == q || c == '\\' {
		return "\\" + string(c)
	}
	return string(c)
}

func (x *xgen) literals() {
	r := x.r
	x.lay("map", xfield("u", "n", prim("uint64")), xfield("i", "n", prim("int64")), xfield("f", "n", prim("float64")), xfield("s", "n", prim("string")), xfield("p", "n", ptr(prim("int"))))
	x.values()
	for j := 0; j < 24; j++ {
		n := x.number()
		x.add(n)
		if r.Intn(3) == 0 {
			x.add(x.one("u", "i", "f") + x.one("+", "==", "<", "-") + x.sp() + n)
		}
	}
	for j := 0; j < 16; j++ {
		q, o := '"', `"`
		if r.Intn(2) == 0 {
			q, o = '\'', `$'`
		}
		s := o
		for k, n := 0, r.Intn(6); k < n; k++ {
			s += x.escape(q)
		}
		if r.Intn(12) > 0 {
			s += string(q)
		}
		x.add(s)
		if r.Intn(4) == 0 {
			x.add(s + " + " + x.one("s", `"z"`, "$'z'"))
		}
	}
	for j := 0; j < 12; j++ {
		s := "'" + x.escape('\'')
		if r.Intn(10) == 0 {
			s += x.escape('\'')
		}
		if r.Intn(12) > 0 {
			s += "'"
		}
		x.add(s)
	}
	for _, s := range []string{"true", "false", "nil", "nil == p", "p != nil", "true == false", "''", "'''", "'\\''", "\"'\"", "$'\"'", "$\"a\"", "$ 'a'", "\"a", "$'a", "'a", "'ab'", "\"\\", "$", "True", "NIL", "null"} {
		if r.Intn(4) == 0 {
			x.add(s)
		}
	}
	x.again(4)
}

var xprofiles = map[string]func(*xgen){
	"syntax": (*xgen).syntax, "ints": (*xgen).ints, "logic": (*xgen).logic, "consts": (*xgen).consts,
	"conc": func(x *xgen) {
		x.gr.conc = true
		[]func(*xgen){(*xgen).access, (*xgen).access, (*xgen).ints, (*xgen).logic, (*xgen).consts}[x.i%5](x)
	},
	"access": (*xgen).access, "fuzzsrc": (*xgen).fuzzsrc, "literals": (*xgen).literals,
}

func makeGroup(prof string, seed int64, i int) *XGroup {
	r := rand.New(rand.NewSource(seed*1000003 + int64(i)*7919 + int64(hash("x"+prof))))
	g := &gen{r: r, p: profile{name: prof}}
	x := &xgen{g: g, r: r, gr: &XGroup{ID: i}, sc: &scope{r: r, g: g, nobits: true}, i: i}
	f := xprofiles[prof]
	if f == nil {
		fatal("no profile", prof)
	}
	f(x)
	return x.gr
}
