package main

// Lists, strings, skips and sizes around the widths of the smaller integers.

var hugeLens = []int{127, 128, 255, 256, 257, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000}

// hugeT is a small struct with one thing of n elements; also its value.
func (g *gen) hugeT() (*T, []any) {
	r := g.r
	n := hugeLens[r.Intn(len(hugeLens))]
	t := &T{K: "struct", G: "struct"}
	var x []any
	add := func(f *Field, v any) {
		if r.Intn(4) == 0 {
			f.O = []string{"b", "l"}[r.Intn(2)]
		}
		t.F = append(t.F, f)
		x = append(x, v)
	}
	small := func(nm string) {
		e := prim([]string{"uint8", "uint16", "int32"}[r.Intn(3)])
		add(newField(nm, e, e), g.value(e))
	}
	elem := func() *T {
		if n > 20000 {
			return prim([]string{"uint8", "uint8", "int8", "bool"}[r.Intn(4)])
		}
		return prim([]string{"uint8", "uint8", "int8", "bool", "uint16", "int32", "float32", "uint64"}[r.Intn(8)])
	}
	native := func(e *T) *T {
		if r.Intn(4) == 0 {
			return prim("string")
		}
		return slice(e)
	}
	list := func(e *T) []any {
		// mostly the same, as it would be in a file
		v, a := g.value(e), make([]any, n)
		for i := range a {
			if r.Intn(8) == 0 {
				v = g.value(e)
			}
			a[i] = v
		}
		return a
	}
	val := func(t *T) any {
		if t.K == "str" {
			s := make([]int, n)
			for i := range s {
				s[i] = 97 + i%26
			}
			return s
		}
		return list(t.E[0])
	}
	count := func() *T {
		k := []string{"uint16", "uint32", "uint64", "int32", "int64", "int16", "uint8"}[r.Intn(14)%7]
		return prim(k)
	}
	if r.Intn(2) == 0 {
		small("A")
	}
	if n <= 4097 && r.Intn(4) == 0 {
		f := newField("S", prim("uint8"), prim("uint8"))
		f.Bw = 1 + r.Intn(7)
		add(f, []int{r.Intn(1 << f.Bw)})
	}
	switch r.Intn(6) {
	case 0, 1: // counted
		c := newField("N", count(), nil)
		c.Bt = c.T
		if r.Intn(3) == 0 {
			if c.T.K == "int" {
				c.Bt = prim([]string{"int16", "int32", "int64"}[r.Intn(3)])
			} else {
				c.Bt = prim([]string{"uint16", "uint32", "uint64"}[r.Intn(3)])
			}
		}
		e := elem()
		l := newField("D", native(e), nil)
		l.Bt = l.T
		if r.Intn(2) == 0 {
			c.Szof = "D"
		} else {
			l.Szfr = "N"
		}
		add(c, g.intVal(c.T.W, c.T.K == "int"))
		if r.Intn(3) == 0 {
			small("M")
		}
		add(l, val(l.T))
	case 2: // an expression
		c := newField("N", prim([]string{"uint16", "uint32", "int64", "int32"}[r.Intn(4)]), nil)
		c.Bt = c.T
		e := elem()
		l := newField("D", native(e), nil)
		l.Bt = l.T
		by := 0
		switch r.Intn(3) {
		case 0:
			l.Sz = id("N")
		case 1:
			l.Sz, by = bin("+", id("N"), lit(3)), 3
		case 2:
			l.Sz, by = lit(int64(n)), n-1
		}
		if by == 1 && r.Intn(2) == 0 {
			by++
		}
		add(c, beBytes(uint64(max(n-by, 0)), c.T.W))
		add(l, val(l.T))
	case 3: // of a fixed length
		e := elem()
		a := array(n, e)
		f := newField("D", a, a)
		if e.G == "uint8" && r.Intn(2) == 0 {
			f.T = prim("string")
		} else if r.Intn(4) == 0 {
			f.T = slice(e)
		}
		add(f, val(f.T))
	case 4: // skipped
		f := newField("D", prim("uint16"), prim("uint16"))
		f.Sk = n
		add(f, g.value(f.T))
	case 5: // ends with the input
		e := elem()
		if e.G != "uint8" {
			e = prim("uint8")
		}
		l := newField("D", slice(e), slice(e))
		l.Wh = un("u!", id("_eof"))
		add(l, val(l.T))
		if n > 700 {
			x[len(x)-1] = x[len(x)-1].([]any)[:700]
		}
		return t, x
	}
	small("Z")
	return t, x
}

func (p *planner) huge() {
	r := p.r
	t, x := p.g.hugeT()
	t.render(r)
	p.c.T = t
	p.do(&Op{Op: []string{"sizeof", "bitsize"}[r.Intn(2)], X: x})
	pk := p.do(&Op{Op: "pack", X: x})
	if pk.St == "ok" {
		p.do(&Op{Op: "unpack", Inp: pk.Out, Of: 2})
		p.virt("vdec", 2)
		in := pk.Out
		if r.Intn(2) == 0 {
			in = in[:len(in)-1-r.Intn(min(3, len(in)))]
		} else {
			in = append(append([]int{}, in...), 1, 2)
		}
		p.do(&Op{Op: "unpack", Inp: in})
	}
}
