package main

import (
	"bytes"
	"fmt"
	"go/format"
	"math/rand"
	"os"
	"strings"
)

// Families of named struct types that refer to each other: root and parent
// references, recursion.  A reference needs a declared Go type, so they are made
// up once (command gennamed) and compiled in; the specification's view of them is
// made up again at start, by the same program, and compared.

const families = 60

// namedOrder lists the named struct types in the order of their making.
var namedOrder []string

var refProfile = profile{
	name: "refs",
	kind: map[string]int{"int": 5, "bool": 2, "bits": 1, "xbits": 2, "sized": 5, "inout": 2, "cstr": 2, "cslice": 1, "fstr": 1, "switch": 1, "ignored": 1},
	cond: 300, order: 60, skip: 60, minF: 1, maxF: 3, depth: 1, exprDepth: 2,
}

// nodes counts the types in the unrolled form of t, both declared and Go ones.
func (t *T) nodes(d map[string]int) int {
	n := 1
	for _, e := range t.E {
		n += e.nodes(d)
	}
	if t.Nm != "" && t.K == "struct" {
		if d[t.Nm] >= unrolled {
			return 1
		}
		d[t.Nm]++
		defer func() { d[t.Nm]-- }()
	}
	for _, f := range t.F {
		n += 2 * f.T.nodes(d)
		if n > 1e6 {
			break
		}
	}
	return n
}

// makeFamily makes up family k, such that it does not grow too much.
func makeFamily(k int) []*T {
	for try := 0; ; try++ {
		ts := tryFamily(k, try)
		n := 0
		for _, t := range ts {
			n = max(n, t.nodes(map[string]int{}))
		}
		if n < 1600 {
			return ts
		}
	}
}

func tryFamily(k, try int) []*T {
	r := rand.New(rand.NewSource(int64(7700 + k + 1000*try)))
	g := &gen{r: r, p: refProfile}
	n := 2 + r.Intn(3)
	var ts []*T
	var sgs []*structGen
	nLead := map[string][]entry{}
	for i := 0; i < n; i++ {
		t := strct()
		t.Nm = fmt.Sprintf("F%02d%c", k, 'A'+i)
		s := &structGen{g: g, t: t, sc: &scope{r: r, g: g}, aligned: 0}
		for j := 1 + r.Intn(3); j > 0; j-- {
			nt := prim([]string{"uint8", "uint8", "uint16", "int8", "bool", "uint32"}[r.Intn(6)])
			f := newField(s.name(), nt, nt)
			if len(t.F) == 0 {
				f.T = prim("uint8")
				f.Bt = f.T
			}
			s.push(f)
		}
		nLead[t.Nm] = append([]entry{}, s.sc.ents...)
		ts, sgs = append(ts, t), append(sgs, s)
	}
	// the container of each type but the first
	pa := make([]int, n)
	for i := 1; i < n; i++ {
		pa[i] = r.Intn(i)
	}
	for i, s := range sgs {
		t := s.t
		refs := []func(){}
		nref := 0
		addRef := func(cls string, to *T, sure bool) {
			nm := map[string]string{"r": "Root", "p": "Par"}[cls]
			if nref > 0 {
				nm += fmt.Sprint(nref)
			}
			nref++
			t.F = append(t.F, &Field{Nm: nm, Cls: cls, T: refTo(to.Nm), Bt: refTo(to.Nm), O: "n"})
			if !sure && r.Intn(6) > 0 {
				return // probably nil
			}
			for _, e := range nLead[to.Nm] {
				s.sc.ents = append(s.sc.ents, entry{dot(id(nm), e.x.S), e.t}, entry{dot(id(nm), e.x.S), e.t})
			}
			// and what the other type refers to
			for _, f := range to.F {
				if (f.Cls == "r" || f.Cls == "p") && r.Intn(2) == 0 {
					for _, e := range nLead[f.T.Nm] {
						s.sc.ents = append(s.sc.ents, entry{dot(dot(id(nm), f.Nm), e.x.S), e.t})
					}
				}
			}
		}
		if r.Intn(4) > 0 {
			to := ts[0]
			if r.Intn(8) == 0 {
				to = ts[r.Intn(n)]
			}
			refs = append(refs, func() { addRef("r", to, to == ts[0]) })
		}
		for j := r.Intn(3); j > 0 || (i > 0 && len(refs) == 0); j-- {
			k := r.Intn(n)
			sure := false
			if i > 0 && r.Intn(6) > 0 {
				k, sure = pa[i], true
				for k > 0 && r.Intn(3) == 0 {
					k = pa[k]
				}
			}
			refs = append(refs, func() { addRef("p", ts[k], sure) })
		}
		child := func(c *T) {
			nm := s.name()
			f := newField(nm, c, c)
			switch r.Intn(7) {
			case 0, 1:
				s.decorate(f)
			case 2:
				f.T = ptr(c)
				s.decorate(f)
			case 3:
				f.T = array(r.Intn(3), c)
				s.decorate(f)
			case 4: // counted
				cnt := newField(nm, prim("uint8"), prim("uint8"))
				t.F = append(t.F, cnt)
				f.Nm = s.name()
				f.T = slice(c)
				if r.Intn(2) == 0 {
					cnt.Szof = f.Nm
				} else {
					f.Szfr = cnt.Nm
				}
				s.decorate(f)
			case 5: // a case of a switch
				u := strct(newField("A", c, c))
				if r.Intn(2) == 0 {
					u.F[0].T = ptr(c)
					u.F[0].Bt = u.F[0].T
				}
				u.F[0].Ca = lit(int64(r.Intn(2)))
				o := ts[n-1]
				if r.Intn(2) == 0 && o != c && pa[n-1] == i {
					u.F = append(u.F, newField("B", ptr(o), ptr(o)))
					u.F[1].Df = true
				}
				f.T = u
				f.Sw = bin("&", s.sc.pick(isIntT).x, lit(1))
			case 6: // inside an unnamed struct
				f.T = strct(newField("A", prim("uint8"), prim("uint8")), newField("B", c, c))
				if r.Intn(2) == 0 {
					f.T.F[1].If = bin("!=", id("A"), lit(0))
				}
				s.decorate(f)
			}
			f.Bt = f.T
			t.F = append(t.F, f)
		}
		items := []func(){}
		for j := 1 + r.Intn(3); j > 0; j-- {
			items = append(items, func() { s.field(weighted(r, refProfile.kind, fieldKinds)) })
		}
		for j := i + 1; j < n; j++ {
			if c := ts[j]; pa[j] == i {
				items = append(items, func() { child(c) })
				if r.Intn(4) == 0 {
					items = append(items, func() { child(c) })
				}
			}
		}
		if r.Intn(3) == 0 { // recursion, conditional
			c := ts[r.Intn(i+1)]
			items = append(items, func() {
				f := newField(s.name(), ptr(c), ptr(c))
				e := nLead[t.Nm][0]
				f.If = bin("==", bin("&", e.x, lit(3)), lit(int64(1+r.Intn(3))))
				if r.Intn(2) == 0 {
					f.If = bin(">", e.x, lit(int64(150+r.Intn(50))))
				}
				t.F = append(t.F, f)
			})
		}
		if r.Intn(5) > 0 {
			for _, f := range refs {
				f()
			}
		} else {
			items = append(items, refs...)
		}
		r.Shuffle(len(items), func(a, b int) { items[a], items[b] = items[b], items[a] })
		for _, f := range items {
			f()
		}
		s.finish()
		if i == 0 && r.Intn(8) == 0 {
			f := newField(s.name(), slice(ts[n-1]), slice(ts[n-1]))
			f.Wh = un("u!", id("_eof"))
			t.F = append(t.F, f)
		}
	}
	// tags last, when everything is there
	seen := map[*T]bool{}
	for _, u := range ts {
		seen[u] = true
	}
	for _, t := range ts {
		for _, f := range t.F {
			f.T.renderR(r, seen)
			f.renderTag(r)
		}
	}
	return ts
}

func init() {
	for k := 0; k < families; k++ {
		ts := makeFamily(k)
		for _, t := range ts {
			namedTypes[t.Nm] = t
			namedOrder = append(namedOrder, t.Nm)
		}
	}
	if len(os.Args) > 1 && os.Args[1] == "gennamed" {
		genNamed()
		os.Exit(0)
	}
	for _, t := range makeTwins() {
		namedTypes[t.Nm] = t
	}
	for _, nm := range namedOrder {
		checkNamed(namedTypes[nm])
	}
}

// checkNamed makes sure that the compiled type is what the specification sees.
func checkNamed(t *T) {
	gt, ok := goTypes[t.Nm]
	if !ok || gt.NumField() != len(t.F) {
		fatal("named_gen.go is stale: " + t.Nm)
	}
	for i, f := range t.F {
		gf := gt.Field(i)
		if gf.Name != f.Nm || string(gf.Tag) != f.tag || gf.Type != f.T.Go() {
			fatal("named_gen.go is stale: "+t.Nm+"."+f.Nm, gf.Tag, f.tag, gf.Type, f.T.Go())
		}
	}
}

func genNamed() {
	var b bytes.Buffer
	b.WriteString("package main\n\n// Made by gennamed; see named.go.\n\nimport \"reflect\"\n\n")
	for _, nm := range namedOrder {
		fmt.Fprintf(&b, "type %s %s\n\n", nm, namedTypes[nm].body())
	}
	b.WriteString("func init() {\nfor _, v := range []any{\n")
	for i, nm := range namedOrder {
		b.WriteString(nm + "{},")
		if i%8 == 7 {
			b.WriteString("\n")
		}
	}
	b.WriteString("\n} {\nt := reflect.TypeOf(v)\ngoTypes[t.Name()] = t\n}\n}\n")
	b.WriteString("func init() {\n")
	for _, t := range makeTwins() {
		fmt.Fprintf(&b, "{\ntype Twin %s\ngoTypes[%q] = reflect.TypeOf(Twin{})\n}\n", t.body(), t.Nm)
	}
	b.WriteString("}\n")
	out, err := format.Source(b.Bytes())
	if err != nil {
		fatal(err, b.String())
	}
	os.WriteFile("a_named_gen.go", out, 0o644)
}

// familyPool lists the named types with the given last letters.
func familyPool(letters string) []string {
	var r []string
	for _, l := range letters {
		for _, nm := range namedOrder {
			if strings.HasSuffix(nm, string(l)) {
				r = append(r, nm)
			}
		}
	}
	return r
}

const twins = 24

// makeTwins makes up struct types that differ but all have the same name.
func makeTwins() []*T {
	var ts []*T
	for k := 0; k < twins; k++ {
		r := rand.New(rand.NewSource(int64(4400 + k)))
		p := profiles["all"]
		p.minF, p.maxF, p.signedBits = 2, 4, false
		p.kind = map[string]int{"int": 6, "bool": 2, "bits": 2, "cstr": 2, "cslice": 2, "fstr": 2, "sized": 2, "blank": 1, "switch": 1, "array": 1}
		p.named = 0
		g := &gen{r: r, p: p}
		t := g.structT(1, "")
		t.render(r)
		t.Nm = fmt.Sprintf("Twin%d", k)
		ts = append(ts, t)
	}
	return ts
}
