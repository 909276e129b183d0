package main

import (
	"math/rand"
	"reflect"
	"strconv"
	"strings"
)

// Types as their source says, for the specification to make sense of the tags.

var tagKeys = []string{"struct", "struct-if", "struct-size", "struct-bits", "struct-in", "struct-out", "struct-while", "struct-switch", "struct-case"}

func textJSON(s string) any {
	cp, ch := []int{}, []string{}
	for _, c := range s {
		cp = append(cp, int(c))
		ch = append(ch, string(c))
	}
	return map[string]any{"cp": cp, "ch": ch}
}

// rawJSON is t with the text of its tags in place of their meaning.
func (t *T) rawJSON(d map[string]int) any {
	m := map[string]any{"k": t.K, "g": t.G, "w": t.W, "nm": t.Nm}
	switch t.K {
	case "array":
		m["n"] = t.N
		m["e"] = []any{t.E[0].rawJSON(d)}
	case "slice", "ptr":
		m["e"] = []any{t.E[0].rawJSON(d)}
	case "map":
		m["e"] = []any{t.E[0].rawJSON(d), t.E[1].rawJSON(d)}
	case "struct":
		if t.Nm != "" {
			if d[t.Nm] >= unrolled {
				m["k"] = "deep"
				return m
			}
			d[t.Nm]++
			defer func() { d[t.Nm]-- }()
		}
		gt := t.Go()
		f := make([]any, len(t.F))
		for i := range t.F {
			sf := gt.Field(i)
			ex := "e"
			if sf.Name == "_" {
				ex = "b"
			} else if sf.PkgPath != "" {
				ex = "u"
			}
			tags := []any{}
			for _, k := range tagKeys {
				if v, ok := sf.Tag.Lookup(k); ok {
					tags = append(tags, []any{k, textJSON(v)})
				}
			}
			fm := map[string]any{"nm": sf.Name, "ex": ex, "t": t.F[i].T.rawJSON(d), "tags": tags}
			if sf.Anonymous {
				fm["em"] = true
			}
			f[i] = fm
		}
		m["f"] = f
	}
	return m
}

// things that are no options, or none for most fields
var badOptions = []string{"foo", "", "", " big", "bigger", "BIG", "big little", "big;little", "skip=", "skip=x", "skip=08", "skip=-1", "skip=1.5", "skip", "skip=1 2", "skip==1",
	"skip=0x", "skip=0xg", "skip=0x1G", "skip=0xaF", "skip=1f", "skip=0b12", "skip=1a", "skip=a", "skip='a'", "sizeof=Nope", "sizefrom=Nope", "sizeof=", "sizefrom=", "sizeof=9a", "sizeof=A/", "sizeof=A:", "sizeof=A@", "sizeof=[", "sizeof=`", "sizeof=A{", "sizeof=A\u00d7", "sizeof=\u00d7A", "skip=9:", "skip=/1", "sizeof=A.B", "sizefrom=A B", "sizeof", "sizeof=\"A\"",
	"if=", "if=(1", "if=1)", "if='", "if=1 +", "if=\"", "if", "if=[", "if={}", "if=1 1", "if=1]", "if=$'x", "size=1", "bits=3", "size=", "size=(", "bits=", "bits", "in=", "in=1=", "out=@",
	"while=", "while=!", "switch=", "case=", "case", "case=#", "switch", "-", "-,big", "--", "uint8:8", "uint8:0", "uint8:9", "uint8:", "uint8:x", "uint8:300", "uint16:261", "uint8:-1", "uint8:1:2",
	"uint32:32", "int64:64", "int16:16", "bool:1", "[4]uint8:3", "string:3", "[]uint8:1", "*uint8:3", ":3", "map[string]int", "chan int", "[-1]uint8", "[x]uint8", "[...]uint8", "[2", "[]", "[4]", "[4.0]uint8",
	"struct{}", "func()", "*", "*uint9", "uint9", "uint8 uint8", "Uint8", "interface{}", "error", "1", "[1]", "uint8]", "root=1", "rootx", "parents", "default=1", "variantbool=1", "invertedbol", "msb2", "network order",
	"Skip=1", "Sizeof=A", "a.b", "a=1", "=", "=1", "%", "\"", "'", "if=A ? 1", "if=A ? 1 :", "if=f(", "if=f(,)", "if=1,,", "switch=A B", "\u00e9", "sizeof=\u00e9"}

// spoil changes one tag of t into one that is probably bad.
func (t *T) spoil(r *rand.Rand) {
	var fs []*Field
	for _, f := range t.F {
		if f.Cls != "u" {
			fs = append(fs, f)
		}
	}
	if len(fs) == 0 {
		return
	}
	f := fs[r.Intn(len(fs))]
	var parts []string
	for _, k := range tagKeys {
		v, ok := reflect.StructTag(f.tag).Lookup(k)
		if !ok && (k != "struct" && (r.Intn(12) > 0 || f.tag == "")) {
			continue
		}
		parts = append(parts, k, v)
	}
	if len(parts) == 0 {
		parts = []string{"struct", ""}
	}
	i := 2 * r.Intn(len(parts)/2)
	v := parts[i+1]
	if parts[i] == "struct" && r.Intn(3) == 0 {
		// a good option, often on a field to which it does not apply
		o := []string{"size=1", "size=A", "bits=3", "sizeof=" + fs[r.Intn(len(fs))].Nm, "sizefrom=" + fs[r.Intn(len(fs))].Nm}[r.Intn(5)]
		if v != "" {
			o = v + "," + o
		}
		v = o
	} else if parts[i] == "struct" && r.Intn(10) < 7 {
		o := badOptions[r.Intn(len(badOptions))]
		switch r.Intn(5) {
		case 0:
			if v != "" {
				v = o + "," + v
				break
			}
			fallthrough
		case 1, 2:
			if v != "" {
				v += ","
			}
			v += o
		case 3:
			v = o
		case 4:
			// in place of one of the options
			os := strings.Split(v, ",")
			os[r.Intn(len(os))] = o
			v = strings.Join(os, ",")
		}
	} else {
		cs := []rune(v)
		k := 0
		if len(cs) > 0 {
			k = r.Intn(len(cs) + 1)
		}
		junk := []rune("()[]{},:=+-*/%!&|<>?.'\"$0x9a_ #@\\é")
		switch r.Intn(4) {
		case 0:
			cs = append(cs[:k:k], append([]rune{junk[r.Intn(len(junk))]}, cs[k:]...)...)
		case 1:
			if k < len(cs) {
				cs = append(cs[:k:k], cs[k+1:]...)
			}
		case 2:
			if k < len(cs) {
				cs[k] = junk[r.Intn(len(junk))]
			}
		case 3:
			cs = cs[:k]
		}
		v = string(cs)
	}
	parts[i+1] = v
	var out []string
	for j := 0; j < len(parts); j += 2 {
		out = append(out, parts[j]+":"+strconv.Quote(parts[j+1]))
	}
	f.tag = strings.Join(out, " ")
}

// badtags: every operation, twice, on a type of which one tag was spoilt, alone
// and inside another type.
func (p *planner) badtags() {
	r := p.r
	p.c.Raw = 2
	t := p.c.T
	t.spoil(r)
	in := strct(newField("A", prim("uint8"), prim("uint8")), newField("B", t, t), newField("C", slice(t), slice(t)))
	ts := []*T{nil, nil, nil, in}
	x := p.g.value(t)
	for i := 0; i < 7; i++ {
		o := &Op{T: ts[r.Intn(4)], Op: []string{"unpack", "pack", "sizeof", "bitsize"}[(r.Intn(4)+i)%4], ByVal: r.Intn(5) == 0, X: x}
		if o.T != nil {
			o.X = []any{[]int{7}, x, []any{x}}
		}
		if o.Op == "unpack" {
			o.Inp = p.bytes(40)
			if r.Intn(2) == 0 {
				o.X = nil
			}
		}
		p.do(o)
	}
}
