package main

import (
	"math"
	"math/rand"
)

// gen makes up schemas.  Its knobs are per-thousand probabilities or weights.
type gen struct {
	r    *rand.Rand
	p    profile
	wild bool // values need not fit
	nest int  // depth of the value being made
}

type profile struct {
	name string
	// weights of field kinds
	kind map[string]int
	// per mille
	skip, order, cond, conv, named, embed, partial int
	minF, maxF, depth                              int
	// per mille of sequences
	long int
	// per mille: byte-aligned group padding after bit fields
	exprDepth int
	topKinds  map[string]int // kinds of the top-level type; default struct
	pool      []string       // named top-level types to draw from
	poolPM    int
	plan      string
	raw       int  // as in Case
	off       bool // the library starts without expressions
	// signed bit fields in containers of up to 32 bits
	signedBits bool
	schema     func(g *gen) *T // makes the top-level type instead
}

func (g *gen) pm(n int) bool { return g.r.Intn(1000) < n }
func weighted(r *rand.Rand, w map[string]int, order []string) string {
	n := 0
	for _, k := range order {
		n += w[k]
	}
	x := r.Intn(n)
	for _, k := range order {
		if x < w[k] {
			return k
		}
		x -= w[k]
	}
	panic("weighted")
}

var intKinds = []string{"int8", "int16", "int32", "int64", "int"}
var uintKinds = []string{"uint8", "uint16", "uint32", "uint64", "uint"}

func (g *gen) intT(signed bool) *T {
	k := uintKinds
	if signed {
		k = intKinds
	}
	n := 4
	if g.r.Intn(6) == 0 {
		n = 5
	}
	return prim(k[g.r.Intn(n)])
}
func (g *gen) anyInt() *T { return g.intT(g.r.Intn(2) == 0) }

func wireW(t *T) int {
	if t.G == "int" || t.G == "uint" {
		return 4
	}
	return t.W
}

// customT is some type with a codec of its own.
func (g *gen) customT() *T {
	if g.pm(g.p.partial) {
		return partial([]string{"CuU", "CuT", "CuW", "CuY", "CuZ"}[g.r.Intn(5)])
	}
	return custom([]string{"CuP", "CuV", "CuB", "CuN", "CuA", "CuS"}[g.r.Intn(6)])
}

func (g *gen) maybeNamed(t *T) *T {
	if g.pm(g.p.named) && (t.K != "complex") && t.G != "int" && t.G != "uint" {
		return namedPrim(t.G)
	}
	return t
}

var fieldKinds = []string{"int", "bool", "float", "complex", "bits", "xbits", "str", "slice", "cstr", "cslice", "fstr", "farr", "array",
	"ptr", "struct", "structs", "custom", "customs", "blank", "ignored", "unexp", "sized", "while", "switch", "inout"}

// structT makes up a struct type.  pre is put before the names of its fields.
func (g *gen) structT(depth int, pre string) *T {
	n := g.p.minF + g.r.Intn(g.p.maxF-g.p.minF+1)
	if depth > 0 && n > 4 {
		n = 1 + n/2
	}
	if depth > 0 && g.r.Intn(12) == 0 {
		n = 0
	}
	t := strct()
	sc := &scope{r: g.r, g: g}
	st := &structGen{g: g, t: t, sc: sc, depth: depth, aligned: 0, pre: pre}
	for len(t.F) < n {
		st.field(weighted(g.r, g.p.kind, fieldKinds))
		if st.done {
			break
		}
	}
	st.finish()
	return t
}

var topOrder = []string{"struct", "int", "bool", "float", "complex", "str", "slice", "array", "ptr", "custom"}

// topT makes up the type that is passed to the library.
func (g *gen) topT() *T {
	if g.p.schema != nil {
		return g.p.schema(g)
	}
	if g.p.topKinds == nil {
		return g.structT(0, "")
	}
	// elements are made by a throw-away struct generator
	s := &structGen{g: g, t: strct(), sc: &scope{r: g.r, g: g}, depth: 0}
	elem := func() *T { e, be := s.elemT(); _ = be; return e }
	switch weighted(g.r, g.p.topKinds, topOrder) {
	case "int":
		return g.anyInt()
	case "bool":
		return g.maybeNamed(prim("bool"))
	case "float":
		return g.maybeNamed(prim([]string{"float32", "float64"}[g.r.Intn(2)]))
	case "complex":
		return prim([]string{"complex64", "complex128"}[g.r.Intn(2)])
	case "str":
		return g.maybeNamed(prim("string"))
	case "slice":
		return slice(elem())
	case "array":
		return array(g.r.Intn(5), elem())
	case "ptr":
		return ptr(elem())
	case "custom":
		c := custom([]string{"CuP", "CuV", "CuB", "CuN", "CuA", "CuS", "CuR"}[g.r.Intn(7)])
		if g.pm(g.p.partial) {
			c = partial([]string{"CuU", "CuT", "CuW", "CuY", "CuZ"}[g.r.Intn(5)])
		}
		switch {
		case c.Nm == "CuR":
		case g.r.Intn(6) == 0:
			return array(g.r.Intn(4), c)
		case g.r.Intn(6) == 0:
			return slice(c)
		case g.r.Intn(6) == 0:
			return ptr(c)
		}
		return c
	}
	return g.structT(0, "")
}

type structGen struct {
	g       *gen
	t       *T
	sc      *scope
	depth   int
	aligned int // bits past a byte boundary; -1 unknown
	done    bool
	pre     string
	pend    []func() // counted fields still to come
}

func (s *structGen) name() string {
	n := len(s.t.F)
	base := s.pre + string(rune('A'+n%26))
	for i := n / 26; i > 0; i-- {
		base += "x"
	}
	if s.g.r.Intn(4) == 0 {
		// letters and digits that a tag or expression must read to the end
		base += []string{"0", "9", "7z", "_", "_1", "z", "Z", "a9Z", "\u00e9", "\u00f10"}[s.g.r.Intn(10)]
		if s.pre == "" && s.g.r.Intn(6) == 0 {
			base = "\u00c9" + base
		}
	}
	return base
}

// wideBits: unless the profile asks for them, signed bit fields have 64-bit
// containers (those of up to 32 bits are a known finding).
func (s *structGen) wideBits(f *Field) {
	if f.Bw == 0 && f.Bi == nil || s.g.p.signedBits || f.Bt.K != "int" || wireW(f.Bt) == 8 {
		return
	}
	if f.T.K == "bool" {
		f.Bt = prim("u" + f.Bt.G)
		return
	}
	if s.g.r.Intn(2) == 0 {
		f.Bt = prim("int64")
		if f.T.W < 8 && s.g.p.conv == 0 {
			f.T = f.Bt
		}
		return
	}
	f.Bt = prim("u" + f.Bt.G)
	f.T = prim("u" + f.T.G)
}

func (s *structGen) push(f *Field) {
	s.wideBits(f)
	s.t.F = append(s.t.F, f)
	if f.Cls == "n" && f.Sw == nil && f.T.K != "cu" {
		s.sc.add(id(f.Nm), f.T, 0)
	}
}

// promote makes the names of an embedded struct known.
func (s *structGen) promote(t *T) {
	if f := s.t.F[len(s.t.F)-1]; !f.Em {
		return
	}
next:
	for _, f := range t.F {
		for _, o := range s.t.F {
			if o.Nm == f.Nm {
				continue next
			}
		}
		if f.Em && f.T.K == "struct" {
			for _, g := range f.T.F {
				if g.Cls == "n" && g.Nm[0] != f.Nm[0] && g.Sw == nil {
					s.sc.add(id(g.Nm), g.T, 1)
				}
			}
		}
		if f.Cls == "n" && f.Sw == nil && f.T.K != "cu" {
			s.sc.add(id(f.Nm), f.T, 1)
		}
	}
}

func newField(nm string, t, bt *T) *Field {
	return &Field{Nm: nm, Cls: "n", T: t, Bt: bt, O: "n"}
}

// decorate adds skip, order, condition.
func (s *structGen) decorate(f *Field) {
	g := s.g
	if g.pm(g.p.skip) {
		f.Sk = 1 + g.r.Intn(3)
		if g.r.Intn(12) == 0 {
			f.Sk = []int{8, 9, 10, 15, 16, 26, 47, 171}[g.r.Intn(8)]
		}
	}
	if g.pm(g.p.order) {
		f.O = []string{"b", "l"}[g.r.Intn(2)]
	}
	if g.pm(g.p.cond) && len(s.sc.ents) > 0 {
		f.If = s.sc.boolean(g.p.exprDepth)
		s.aligned = -1
	}
}

func (g *gen) scalar() *T {
	switch g.r.Intn(8) {
	case 0:
		return prim("bool")
	case 1:
		return prim([]string{"float32", "float64"}[g.r.Intn(2)])
	}
	return g.anyInt()
}

// length is that of an array.
func (g *gen) length() int {
	if g.r.Intn(40) == 0 || g.pm(g.p.long) {
		return 9 + g.r.Intn(32)
	}
	return g.r.Intn(5)
}

// convT is a declared type for native type t.
func (g *gen) convT(t *T) *T {
	switch t.K {
	case "int":
		return g.intT(true)
	case "uint":
		return g.intT(false)
	case "float":
		return prim([]string{"float32", "float64"}[g.r.Intn(2)])
	case "complex":
		return prim([]string{"complex64", "complex128"}[g.r.Intn(2)])
	case "bool":
		return g.anyInt()
	}
	return t
}

// elemT makes up an element type: native and declared.
func (s *structGen) elemT() (*T, *T) {
	g := s.g
	switch x := g.r.Intn(12); {
	case x < 3:
		t := prim("uint8")
		return t, t
	case x < 8 || s.depth >= g.p.depth:
		t := g.scalar()
		if g.pm(g.p.conv) {
			return t, g.convT(t)
		}
		t = g.maybeNamed(t)
		return t, t
	case x < 9:
		a := g.scalar()
		t := array(1+g.r.Intn(3), a)
		return t, t
	case x < 10:
		t := ptr(g.scalar())
		if g.r.Intn(3) == 0 {
			t = []*T{prim("string"), slice(g.scalar())}[g.r.Intn(2)]
		}
		return t, t
	default:
		t := g.structT(s.depth+1, "")
		return t, t
	}
}

func (s *structGen) useBits(n int) {
	if s.aligned >= 0 {
		s.aligned = (s.aligned + n) % 8
	}
}

func (s *structGen) field(kind string) {
	g, r := s.g, s.g.r
	nm := s.name()
	switch kind {
	case "int":
		t := g.anyInt()
		bt := t
		if g.pm(g.p.conv) {
			bt = g.convT(t)
		} else {
			t = g.maybeNamed(t)
			bt = t
		}
		f := newField(nm, t, bt)
		s.decorate(f)
		s.push(f)
	case "bool":
		t := g.maybeNamed(prim("bool"))
		f := newField(nm, t, t)
		if r.Intn(2) == 0 {
			f.Bt = g.anyInt()
		}
		if r.Intn(4) == 0 && f.Bt.K != "bool" {
			f.Bw = 1 + r.Intn(8*wireW(f.Bt)-1)
			s.useBits(f.Bw)
		}
		f.Va, f.Iv = r.Intn(2) == 0, r.Intn(2) == 0
		s.decorate(f)
		s.push(f)
	case "float", "complex":
		t := prim([]string{"float32", "float64"}[r.Intn(2)])
		if kind == "complex" {
			t = prim([]string{"complex64", "complex128"}[r.Intn(2)])
		}
		bt := t
		if g.pm(g.p.conv) {
			bt = g.convT(t)
		} else {
			t = g.maybeNamed(t)
			bt = t
		}
		f := newField(nm, t, bt)
		s.decorate(f)
		s.push(f)
	case "bits":
		t := g.anyInt()
		bt := t
		if g.pm(g.p.conv) {
			bt = g.convT(t)
		}
		f := newField(nm, t, bt)
		f.Bw = 1 + r.Intn(8*wireW(bt)-1)
		if r.Intn(3) > 0 && f.Bw > 12 {
			f.Bw = 1 + f.Bw%12
		}
		s.useBits(f.Bw)
		s.decorate(f)
		s.push(f)
	case "xbits":
		t := g.anyInt()
		f := newField(nm, t, t)
		if e := s.sc.pick(func(t *T) bool { return t.K == "uint" }); e != nil && r.Intn(4) > 0 {
			m := []int64{3, 7}[r.Intn(2)]
			f.Bi = bin("+", bin("&", e.x, lit(m)), lit(1))
			if r.Intn(6) == 0 {
				f.Bi = bin("&", e.x, lit(m))
			}
		} else {
			f.Bi = lit(int64(1 + r.Intn(8*wireW(t))))
		}
		s.aligned = -1
		s.decorate(f)
		s.push(f)
	case "str", "slice":
		if kind == "str" {
			f := newField(nm, prim("string"), prim("string"))
			s.decorate(f)
			s.push(f)
		} else {
			e, be := s.elemT()
			f := newField(nm, slice(e), slice(be))
			s.decorate(f)
			s.push(f)
		}
	case "cstr", "cslice":
		s.counted(kind)
	case "fstr":
		f := newField(nm, prim("string"), array(r.Intn(6), prim("uint8")))
		if g.pm(g.p.named) {
			f.T = namedPrim("string")
		}
		s.decorate(f)
		s.push(f)
	case "farr":
		e, be := s.elemT()
		for !tagTypeable(be) {
			e, be = s.elemT()
		}
		f := newField(nm, slice(e), array(g.length(), be))
		s.decorate(f)
		s.push(f)
	case "array":
		e, be := s.elemT()
		n := g.length()
		f := newField(nm, array(n, e), array(n, be))
		s.decorate(f)
		s.push(f)
	case "ptr":
		e, be := s.elemT()
		f := newField(nm, ptr(e), ptr(be))
		s.decorate(f)
		s.push(f)
	case "struct":
		if s.depth >= g.p.depth {
			return
		}
		em := g.pm(g.p.embed)
		pre := ""
		if em {
			pre = []string{"E", "E", "G", "H", ""}[r.Intn(5)]
		}
		t := g.structT(s.depth+1, pre)
		f := newField(nm, t, t)
		if em && r.Intn(4) == 0 {
			f = newField(nm, ptr(t), ptr(t))
		}
		f.Em = em
		s.decorate(f)
		s.push(f)
		s.promote(t)
		s.aligned = -1
	case "structs":
		if s.depth >= g.p.depth {
			return
		}
		t := g.structT(s.depth+1, "")
		f := newField(nm, array(r.Intn(4), t), nil)
		f.Bt = f.T
		s.decorate(f)
		s.push(f)
		s.aligned = -1
	case "custom":
		if s.aligned != 0 && s.g.p.kind["bits"] > 0 {
			return
		}
		c := g.customT()
		t := c
		if r.Intn(5) == 0 {
			t = ptr(c)
		}
		f := newField(nm, t, t)
		s.decorate(f)
		s.push(f)
	case "customs":
		if s.aligned != 0 && s.g.p.kind["bits"] > 0 {
			return
		}
		c := g.customT()
		n := r.Intn(4)
		f := newField(nm, array(n, c), nil)
		f.Bt = f.T
		if c.G == "uint16" && r.Intn(2) == 0 {
			f = newField(nm, slice(c), array(n, prim("uint16")))
		}
		s.decorate(f)
		s.push(f)
	case "blank":
		t := g.anyInt()
		switch r.Intn(4) {
		case 0:
			t = array(r.Intn(4), g.anyInt())
		case 1:
			t = strct(newField("A", g.anyInt(), nil), newField("B", prim("uint8"), nil))
			t.F[0].Bt, t.F[1].Bt = t.F[0].T, t.F[1].T
		}
		f := newField("_", t, t)
		f.Cls = "b"
		if t.K != "array" && t.K != "struct" && r.Intn(4) == 0 {
			f.Bw = 1 + r.Intn(8*wireW(t)-1)
			s.useBits(f.Bw)
		}
		if g.pm(g.p.skip) {
			f.Sk = 1 + r.Intn(2)
		}
		s.t.F = append(s.t.F, f)
	case "ignored":
		t := []*T{prim("int"), prim("string"), slice(prim("uint16")), ptr(prim("uint8")), prim("bool")}[r.Intn(5)]
		f := newField(nm, t, t)
		f.Cls = "x"
		s.push(f)
	case "unexp":
		t := []*T{prim("int"), prim("string"), slice(prim("uint16")), ptr(prim("uint8")), prim("bool")}[r.Intn(5)]
		f := newField("u"+nm, t, t)
		f.Cls = "u"
		s.push(f)
	case "sized":
		var t, bt *T
		if r.Intn(3) == 0 {
			t = prim("string")
			bt = t
		} else {
			e, be := s.elemT()
			t, bt = slice(e), slice(be)
		}
		f := newField(nm, t, bt)
		n := int64(r.Intn(4))
		small := t.K == "str" || primTypes[t.E[0].G] != nil && s.depth < 2
		if small && r.Intn(4) == 0 {
			n = int64(r.Intn(41))
		}
		e := s.sc.pick(isIntT)
		switch {
		case e == nil || r.Intn(4) == 0:
			f.Sz = lit(n)
			f.want = func(map[string]int64) int { return int(n) }
		default:
			m := []int64{1, 3, 7}[r.Intn(3)]
			if small {
				m = []int64{1, 3, 7, 7, 15, 31}[r.Intn(6)]
			}
			f.Sz = bin("&", e.x, lit(m))
			if e.x.Op == "id" {
				nm := e.x.S
				f.want = func(sc map[string]int64) int { return int(sc[nm] & m) }
				k := r.Intn(7)
				if k == 0 && e.t.W > countWidth(bt) || k == 3 && !small {
					k = 6
				}
				switch k {
				case 0:
					f.Sz = e.x
					f.want = func(sc map[string]int64) int { return int(sc[nm]) }
				case 1:
					f.Sz = bin("+", f.Sz, lit(1))
					f.want = func(sc map[string]int64) int { return int(sc[nm]&m) + 1 }
				case 2:
					f.Sz = bin("%", e.x, lit(3))
					f.want = func(sc map[string]int64) int { return int(sc[nm] % 3) }
				case 3:
					f.Sz = bin("*", bin("&", e.x, lit(7)), lit(4))
					f.want = func(sc map[string]int64) int { return int(sc[nm]&7) * 4 }
				}
			}
		}
		s.decorate(f)
		s.push(f)
	case "while":
		if s.depth > 0 {
			return
		}
		var e, be *T
		for {
			e, be = s.elemT()
			if sizeFloor(be) > 0 {
				break
			}
		}
		f := newField(nm, slice(e), slice(be))
		if r.Intn(4) == 0 && primTypes[be.G] != nil {
			n := 1 + r.Intn(4)
			f = newField(nm, array(n, e), slice(be))
		}
		f.Wh = []*X{un("u!", id("_eof")), bin("==", id("_eof"), boolLit(false)), bin("!=", id("_eof"), boolLit(true))}[r.Intn(3)]
		if r.Intn(4) == 0 {
			f.Wh = bin("&&", f.Wh, s.sc.boolean(1))
		}
		s.decorate(f)
		s.push(f)
		s.done = true
	case "switch":
		s.switc()
	case "inout":
		t := g.anyInt()
		bt := t
		if g.pm(g.p.conv) {
			bt = g.convT(t)
		}
		f := newField(nm, t, bt)
		if r.Intn(3) == 0 {
			f.Bw = 1 + r.Intn(8*wireW(bt)-1)
			s.useBits(f.Bw)
		}
		s.push(f) // so that the expressions can mention the field itself
		c := smallLit(r)
		switch r.Intn(4) {
		case 0:
			f.In, f.Ou = bin("+", id(nm), c), bin("-", id(nm), c)
		case 1:
			f.In, f.Ou = bin("^", id(nm), c), bin("^", c, id(nm))
		case 2:
			f.In = bin("^", id(nm), s.sc.integer(f.T, g.p.exprDepth))
			if r.Intn(2) == 0 {
				f.Ou = f.In
			}
		default:
			f.Ou = bin("^", id(nm), s.sc.integer(f.T, g.p.exprDepth))
		}
		if r.Intn(12) == 0 {
			f.In = s.sc.boolean(0)
		}
		s.decorate(f)
	}
}

// sizeFloor is a lower bound on the bits an element takes.
func sizeFloor(t *T) int { return sizeFloorAt(t, 0) }
func sizeFloorAt(t *T, d int) int {
	if d > 4 {
		return 0
	}
	switch t.K {
	case "bool", "int", "uint", "float", "complex":
		return 8
	case "array":
		return t.N * sizeFloorAt(t.E[0], d+1)
	case "struct":
		n := 0
		for _, f := range t.F {
			if (f.Cls == "n" || f.Cls == "b") && f.If == nil && f.Sw == nil && f.Bi == nil {
				if f.Bw > 0 {
					n += f.Bw
				} else {
					n += sizeFloorAt(f.Bt, d+1)
				}
			}
		}
		return n
	case "ptr":
		return sizeFloorAt(t.E[0], d+1)
	}
	return 0
}

// countWidth is how wide a counter of such a slice may be: elements that may take
// no space in the input are made as often as the counter says.
func countWidth(b *T) int {
	if b.K == "str" || sizeFloor(b.E[0]) > 0 {
		return 8
	}
	return 1
}

// counted adds a counter and, later, the field it counts.
func (s *structGen) counted(kind string) {
	g, r := s.g, s.g.r
	var t, b *T
	if kind == "cstr" {
		t, b = prim("string"), prim("string")
		if r.Intn(4) == 0 {
			b = slice(prim("uint8"))
		}
	} else {
		e, be := s.elemT()
		t, b = slice(e), slice(be)
	}
	maxW := countWidth(b)
	ct := g.anyInt()
	for ct.G == "int" || ct.G == "uint" || ct.W > maxW {
		ct = g.anyInt()
	}
	bt := ct
	if g.pm(g.p.conv) {
		bt = g.convT(ct)
		for bt.G == "int" || bt.G == "uint" || bt.W > maxW {
			bt = g.convT(ct)
		}
		if r.Intn(4) == 0 {
			ct = prim(ct.K) // plain int or uint holding a sized count
		}
	}
	cnt := newField(s.name(), ct, bt)
	if g.p.kind["bits"] > 0 && r.Intn(3) == 0 {
		cnt.Bw = 1 + r.Intn(8*bt.W-1)
		s.useBits(cnt.Bw)
	}
	if g.pm(g.p.skip) {
		cnt.Sk = 1 + r.Intn(3)
	}
	if g.pm(g.p.order) {
		cnt.O = []string{"b", "l"}[r.Intn(2)]
	}
	s.push(cnt)
	byOf := r.Intn(2) == 0
	shared := r.Intn(6) == 0
	var second *Field // another counter of the same field
	if byOf && r.Intn(12) == 0 {
		second = newField(s.name(), ct, bt)
		s.push(second)
	}
	add := func() {
		f := newField(s.name(), t, b)
		if byOf {
			cnt.Szof = f.Nm
			if second != nil {
				second.Szof = f.Nm
			}
		} else {
			f.Szfr = cnt.Nm
		}
		s.decorate(f)
		s.push(f)
		if !shared {
			return
		}
		// another field with the same counter
		t, b := prim("string"), prim("string")
		if r.Intn(2) == 0 {
			t = slice(prim([]string{"uint8", "uint16", "bool"}[r.Intn(3)]))
			b = t
		}
		o := newField(s.name(), t, b)
		o.Szfr = cnt.Nm
		o.like = f.Nm
		s.decorate(o)
		s.push(o)
	}
	if r.Intn(2) == 0 {
		add()
	} else {
		s.pend = append(s.pend, add)
	}
}

func (s *structGen) finish() {
	for _, add := range s.pend {
		if s.done {
			// a while slice must stay last
			last := s.t.F[len(s.t.F)-1]
			s.t.F = s.t.F[:len(s.t.F)-1]
			add()
			last.Nm = s.name()
			s.t.F = append(s.t.F, last)
		} else {
			add()
		}
	}
}

func (s *structGen) switc() {
	g, r := s.g, s.g.r
	if s.depth >= g.p.depth+1 {
		return
	}
	on := s.sc.pick(func(t *T) bool { return (isIntT(t) || t.K == "bool" || t.K == "str") })
	var onx *X
	var ont *T
	switch {
	case on != nil && r.Intn(8) > 0:
		onx, ont = on.x, on.t
		if isIntT(ont) && r.Intn(2) == 0 {
			onx = bin("&", onx, lit(3))
		}
	case r.Intn(2) == 0:
		onx, ont = lit(int64(r.Intn(3))), prim("int")
	default:
		onx, ont = s.sc.boolean(1), prim("bool")
	}
	u := &structGen{g: g, t: strct(), sc: &scope{r: r, g: g}, depth: s.depth + 1, aligned: -1}
	n := 1 + r.Intn(4)
	kinds := []string{"int", "bool", "fstr", "array", "struct", "ptr", "float", "farr"}
	if g.p.kind["bits"] > 0 {
		kinds = append(kinds, "bits")
	}
	hasDef := false
	for len(u.t.F) < n {
		k := len(u.t.F)
		u.sc.ents = nil // conditions of cases speak about the enclosing struct
		u.sc.ents = append(u.sc.ents, s.sc.ents...)
		u.field(kinds[r.Intn(len(kinds))])
		if len(u.t.F) == k {
			continue
		}
		f := u.t.F[k]
		switch {
		case !hasDef && r.Intn(4) == 0:
			f.Df = true
			hasDef = true
		case ont.K == "bool":
			f.Ca = boolLit(r.Intn(2) == 0)
			if r.Intn(5) == 0 {
				f.Ca = s.sc.boolean(1)
			}
		case ont.K == "str":
			f.Ca = strLit(g.pooled())
		default:
			f.Ca = lit(int64(r.Intn(4)))
			if r.Intn(8) == 0 {
				f.Ca = s.sc.integer(ont, 1)
			}
		}
	}
	if r.Intn(6) == 0 {
		// a case of another kind is no match
		for _, f := range u.t.F {
			if f.Ca != nil && r.Intn(2) == 0 {
				f.Ca = []*X{boolLit(r.Intn(2) == 0), strLit(g.pooled()), lit(int64(r.Intn(2)))}[r.Intn(3)]
			}
		}
	}
	if r.Intn(16) == 0 { // an invalid one: two defaults, or a field that is no case
		for _, f := range u.t.F {
			if r.Intn(2) == 0 {
				f.Ca = nil
				f.Df = r.Intn(2) == 0
			}
		}
	}
	if r.Intn(8) == 0 {
		u.field("unexp")
	}
	if r.Intn(8) == 0 {
		u.field("ignored")
	}
	f := newField(s.name(), u.t, u.t)
	f.Sw = onx
	s.decorate(f)
	s.push(f)
	s.aligned = -1
}

// ------------------------------------------------------------------- values

func (g *gen) count() int {
	if g.nest > 5 {
		return 0
	}
	if g.nest <= 1 && g.pm(g.p.long) {
		return 8 + g.r.Intn(60)
	}
	switch g.r.Intn(20) {
	case 0:
		if g.nest <= 1 && g.r.Intn(3) == 0 {
			return 17 + g.r.Intn(24)
		}
		return 5 + g.r.Intn(12)
	case 1, 2, 3, 4:
		return 0
	}
	return g.r.Intn(4)
}

func (g *gen) intVal(w int, signed bool) []int {
	r := g.r
	switch r.Intn(6) {
	case 0, 1:
		return beBytes(uint64(r.Intn(5)), w)
	case 2:
		return beBytes(r.Uint64()>>uint(r.Intn(64)), w)
	case 3:
		e := []uint64{1 << 63, 1<<63 - 1, ^uint64(0), 1 << 31, 1<<31 - 1, 1 << 15, 1<<15 - 1, 0x80, 0x7f, 0xff, 0xffff, 0xffffffff}
		return beBytes(e[r.Intn(len(e))], w)
	}
	return beBytes(r.Uint64(), w)
}

func (g *gen) floatVal(w int) []int {
	r := g.r
	var f float64
	switch r.Intn(5) {
	case 0:
		f = []float64{0, math.Copysign(0, -1), math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat32, math.SmallestNonzeroFloat64, 1.5, 2, math.SmallestNonzeroFloat32}[r.Intn(13)]
	case 1:
		f = math.Float64frombits(r.Uint64())
	case 2:
		f = float64(math.Float32frombits(r.Uint32()))
	default:
		f = float64(r.Intn(2000)-1000) / 8
	}
	if w == 4 {
		return beBytes(uint64(math.Float32bits(float32(f))), 4)
	}
	return beBytes(math.Float64bits(f), 8)
}

func (g *gen) text(n int) []int {
	if s := g.pooled(); len(s) == n && g.r.Intn(2) == 0 {
		return byteInts([]byte(s))
	}
	b := make([]int, n)
	for i := range b {
		b[i] = []int{97, 98, 99, 0, 200, 255}[g.r.Intn(6)]
	}
	return b
}

func (g *gen) listVal(e *T, n int) []any {
	r := make([]any, n)
	for i := range r {
		r[i] = g.value(e)
	}
	return r
}

// value makes up a value of type t.
func (g *gen) value(t *T) any {
	switch t.K {
	case "bool":
		return []int{g.r.Intn(2)}
	case "int", "uint":
		return g.intVal(t.W, t.K == "int")
	case "float":
		return g.floatVal(t.W)
	case "complex":
		return append(g.floatVal(t.W/2), g.floatVal(t.W/2)...)
	case "str":
		if g.r.Intn(3) == 0 {
			return byteInts([]byte(g.pooled()))
		}
		return g.text(g.count())
	case "slice":
		return g.listVal(t.E[0], g.count())
	case "array":
		return g.listVal(t.E[0], t.N)
	case "ptr":
		if g.r.Intn(5) == 0 || g.nest > 5 {
			return []any{}
		}
		return []any{g.value(t.E[0])}
	case "ref":
		return []int{[]int{0, 0, 99}[g.r.Intn(3)]}
	case "struct":
		return g.structVal(t)
	case "cu":
		switch t.Nm {
		case "CuN":
			v := g.intVal(2, false)
			if g.r.Intn(30) == 0 {
				v[0] = 0xEE
			}
			return v
		case "CuA":
			return g.intVal(2, false)
		case "CuS":
			return g.text(g.r.Intn(4))
		}
		d := g.text(g.r.Intn(4))
		if len(d) > 0 && g.r.Intn(30) == 0 {
			d[0] = 0xEE
		}
		return []any{d, 0, 0}
	}
	panic("value " + t.K)
}

// counterBits is how many bits the counter of a field can hold, 0 without one.
func counterBits(t *T, f *Field) int {
	for _, c := range t.F {
		if c != f && (c.Szof == f.Nm || f.Szfr == c.Nm) && isIntT(c.T) {
			k := c.Bw
			if k == 0 {
				k = 8 * wireW(c.Bt)
			}
			return min(k, 8*c.T.W)
		}
	}
	return 0
}

// structVal makes lengths agree with sizes most of the time.
func (g *gen) structVal(t *T) []any {
	g.nest++
	defer func() { g.nest-- }()
	r := make([]any, len(t.F))
	sc := map[string]int64{}
	lens := map[string]int{}
	for i, f := range t.F {
		v := g.value(f.T)
		counts := f.Szof != ""
		for _, o := range t.F {
			if o.Szfr == f.Nm {
				counts = true
			}
		}
		used := false
		for _, o := range t.F {
			if o.want != nil {
				used = true
			}
		}
		if isIntT(f.T) && used && !counts && g.r.Intn(5) > 0 {
			v = beBytes(uint64(g.r.Intn([]int{6, 6, 6, 34}[g.r.Intn(4)])), f.T.W)
		}
		if f.Bw > 0 && isIntT(f.T) && f.If == nil && g.r.Intn(4) > 0 {
			// a value that its bits can represent
			u := g.r.Uint64() & (1<<uint(f.Bw) - 1)
			if f.T.K == "int" {
				u = uint64(int64(u<<uint(64-f.Bw)) >> uint(64-f.Bw))
			}
			v = beBytes(u, f.T.W)
		}
		n := -1
		if f.want != nil && !g.wild && g.r.Intn(10) > 0 {
			n = f.want(sc)
		}
		if f.Bt.K == "array" && f.T.K != "array" && g.r.Intn(8) > 0 && !g.wild {
			n = g.r.Intn(f.Bt.N + 1)
			if f.T.K == "slice" && g.r.Intn(2) == 0 {
				n = f.Bt.N
			}
		}
		if (f.Szfr != "" || f.Bt.K == "slice") && g.r.Intn(60) == 0 && (f.T.K == "str" || f.T.E[0].G == "uint8") {
			n = 120 + g.r.Intn(200) // long enough to overflow small counters
		}
		if k := counterBits(t, f); k > 0 && k <= 9 && g.r.Intn(24) == 0 && (f.T.K == "str" || primTypes[f.T.E[0].G] != nil) {
			// as many as the counter can hold, or one too many
			n = 1<<uint(k-g.r.Intn(2)) - g.r.Intn(2)
		}
		if f.like != "" && g.r.Intn(10) > 0 {
			n = lens[f.like]
		}
		if n >= 0 && n < 400 {
			if f.T.K == "str" {
				v = g.text(n)
			} else if f.T.K == "slice" {
				v = g.listVal(f.T.E[0], n)
			}
		}
		switch a := v.(type) {
		case []int:
			lens[f.Nm] = len(a)
		case []any:
			lens[f.Nm] = len(a)
		}
		if isIntT(f.T) {
			b := v.([]int)
			u := beVal(b)
			if f.T.K == "int" {
				sh := uint(64 - 8*len(b))
				sc[f.Nm] = int64(u<<sh) >> sh
			} else {
				sc[f.Nm] = int64(u)
			}
		}
		if f.Em && f.T.K == "struct" {
			for j, p := range f.T.F {
				if _, ok := sc[p.Nm]; !ok && isIntT(p.T) {
					b := v.([]any)[j].([]int)
					sh := uint(64 - 8*len(b))
					if sc[p.Nm] = int64(beVal(b)); p.T.K == "int" {
						sc[p.Nm] = int64(beVal(b)<<sh) >> sh
					}
				}
			}
		}
		r[i] = v
	}
	return r
}

// namedTypes are the specification's view of the predeclared struct types.
var namedTypes = map[string]*T{}
