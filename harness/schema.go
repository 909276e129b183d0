// Package main drives the real restruct library for the TLA+ checks: it makes
// up types, values and expressions, runs the library on them, and records what
// happened in the vocabulary of the specification (see spec/Codec.tla).
package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
)

// T is a type of the specification.
type T struct {
	K, G string
	W, N int
	Nm   string
	E    []*T
	F    []*Field
}

// X is an expression.  Src, when set, is its exact text.
type X struct {
	Op, S string
	V     []int
	A     []*X
}

// Field is a struct field of the specification.
type Field struct {
	Nm, Cls                        string
	T, Bt                          *T
	O                              string
	Sk, Bw                         int
	Va, Iv                         bool
	Szof, Szfr                     string
	Df, Em                         bool // Em: embedded
	If, Sz, Bi, In, Ou, Wh, Sw, Ca *X   `json:"-"`

	// tag as rendered
	tag string
	// how many elements a generated value should have: nil = free
	want func(scope map[string]int64) int
	like string // another field that has the same counter
}

var none = map[string]any{"op": "none"}

func (x *X) json() any {
	if x == nil {
		return none
	}
	m := map[string]any{"op": x.Op}
	switch x.Op {
	case "id":
		m["s"] = x.S
	case "int", "flt", "bool", "str", "rune":
		m["v"] = nn(x.V)
	case "nil", "unspec", "bad":
	case ".":
		m["s"] = x.S
		fallthrough
	default:
		a := make([]any, len(x.A))
		for i := range x.A {
			a[i] = x.A[i].json()
		}
		m["a"] = a
	}
	return m
}

func nn(v []int) []int {
	if v == nil {
		return []int{}
	}
	return v
}

func (t *T) json() any { return t.jsonD(map[string]int{}) }

// unrolled is how many times a recursive type occurs inside itself before it is
// left out; the specification does not judge what goes deeper.
const unrolled = 3

func (t *T) jsonD(d map[string]int) any {
	m := map[string]any{"k": t.K, "g": t.G, "w": t.W, "nm": t.Nm}
	switch t.K {
	case "array":
		m["n"] = t.N
		m["e"] = []any{t.E[0].jsonD(d)}
	case "slice", "ptr":
		m["e"] = []any{t.E[0].jsonD(d)}
	case "map":
		m["e"] = []any{t.E[0].jsonD(d), t.E[1].jsonD(d)}
	case "struct":
		if t.Nm != "" {
			if d[t.Nm] >= unrolled {
				m["k"] = "deep"
				return m
			}
			d[t.Nm]++
			defer func() { d[t.Nm]-- }()
		}
		f := make([]any, len(t.F))
		for i := range t.F {
			f[i] = t.F[i].jsonD(d)
		}
		m["f"] = f
	}
	return m
}

func (f *Field) json() any { return f.jsonD(map[string]int{}) }
func (f *Field) jsonD(d map[string]int) any {
	m := map[string]any{"nm": f.Nm, "cls": f.Cls, "t": f.T.jsonD(d), "bt": f.Bt.jsonD(d), "o": f.O,
		"sk": f.Sk, "bw": f.Bw, "va": f.Va, "iv": f.Iv, "szof": f.Szof, "szfr": f.Szfr, "df": f.Df,
		"xif": f.If.json(), "xsz": f.Sz.json(), "xbi": f.Bi.json(), "xin": f.In.json(),
		"xou": f.Ou.json(), "xwh": f.Wh.json(), "xsw": f.Sw.json(), "xca": f.Ca.json()}
	if f.Em {
		m["em"] = true
	}
	return m
}

// ---------------------------------------------------------------- basic types

func prim(g string) *T {
	switch g {
	case "bool":
		return &T{K: "bool", G: g, W: 1}
	case "int", "uint":
		return &T{K: g, G: g, W: 8}
	case "uintptr":
		return &T{K: "uint", G: g, W: 8}
	case "int8", "int16", "int32", "int64":
		n, _ := strconv.Atoi(g[3:])
		return &T{K: "int", G: g, W: n / 8}
	case "uint8", "uint16", "uint32", "uint64":
		n, _ := strconv.Atoi(g[4:])
		return &T{K: "uint", G: g, W: n / 8}
	case "float32", "float64":
		n, _ := strconv.Atoi(g[5:])
		return &T{K: "float", G: g, W: n / 8}
	case "complex64", "complex128":
		n, _ := strconv.Atoi(g[7:])
		return &T{K: "complex", G: g, W: n / 8}
	case "string":
		return &T{K: "str", G: g}
	}
	panic("prim " + g)
}

// named returns a basic type with a type name.
func namedPrim(g string) *T {
	t := prim(g)
	t.Nm = "N" + g
	return t
}
func slice(e *T) *T        { return &T{K: "slice", G: "slice", W: 8, E: []*T{e}} }
func array(n int, e *T) *T { return &T{K: "array", G: "array", N: n, E: []*T{e}} }
func ptr(e *T) *T          { return &T{K: "ptr", G: "ptr", W: 8, E: []*T{e}} }
func strct(f ...*Field) *T { return &T{K: "struct", G: "struct", F: f} }
func refTo(nm string) *T   { return &T{K: "ref", G: "ptr", W: 8, Nm: nm} }
func custom(nm string) *T {
	g := map[string]string{"CuN": "uint16", "CuA": "array", "CuS": "slice", "CuR": "map"}[nm]
	if g == "" {
		g = "struct"
	}
	return &T{K: "cu", G: g, Nm: nm}
}

var primTypes = map[string]reflect.Type{
	"bool": reflect.TypeOf(false), "int": reflect.TypeOf(0), "uint": reflect.TypeOf(uint(0)),
	"int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)), "uintptr": reflect.TypeOf(uintptr(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)),
	"complex64": reflect.TypeOf(complex64(0)), "complex128": reflect.TypeOf(complex128(0)),
	"string": reflect.TypeOf(""),
}

// predeclared Go types by name: custom codecs, named basic types, named structs.
var goTypes = map[string]reflect.Type{}

const pkgPath = "main" // as in declared types

// Go returns the Go type of t.
func (t *T) Go() reflect.Type {
	if t.K == "ref" {
		return reflect.PtrTo(mustType(t.Nm))
	}
	if t.Nm != "" {
		return mustType(t.Nm)
	}
	switch t.K {
	case "array":
		return reflect.ArrayOf(t.N, t.E[0].Go())
	case "slice":
		return reflect.SliceOf(t.E[0].Go())
	case "ptr":
		return reflect.PtrTo(t.E[0].Go())
	case "map":
		return reflect.MapOf(t.E[0].Go(), t.E[1].Go())
	case "struct":
		fs := make([]reflect.StructField, len(t.F))
		for i, f := range t.F {
			fs[i] = reflect.StructField{Name: f.Nm, Type: f.T.Go(), Tag: reflect.StructTag(f.tag), Anonymous: f.Em}
			if f.Cls == "u" || f.Cls == "b" {
				fs[i].PkgPath = pkgPath
			}
		}
		return reflect.StructOf(fs)
	}
	return primTypes[t.G]
}

func mustType(nm string) reflect.Type {
	if r, ok := goTypes[nm]; ok {
		return r
	}
	panic("no Go type named " + nm)
}

// src is t as Go source, for the generated file of named types.
func (t *T) src() string {
	if t.K == "ref" {
		return "*" + t.Nm
	}
	if t.Nm != "" {
		return t.Nm
	}
	return t.body()
}
func (t *T) body() string {
	switch t.K {
	case "array":
		return fmt.Sprintf("[%d]%s", t.N, t.E[0].src())
	case "slice":
		return "[]" + t.E[0].src()
	case "ptr":
		return "*" + t.E[0].src()
	case "map":
		return "map[" + t.E[0].src() + "]" + t.E[1].src()
	case "struct":
		var b strings.Builder
		b.WriteString("struct {\n")
		for _, f := range t.F {
			fmt.Fprintf(&b, "%s %s %s\n", f.Nm, f.T.src(), "`"+f.tag+"`")
		}
		b.WriteString("}")
		return b.String()
	}
	return t.G
}

// tagType is a declared type as tag text.
func (t *T) tagType(r *rand.Rand) string {
	switch t.K {
	case "array":
		return fmt.Sprintf("[%s]%s", intText(t.N, r), t.E[0].tagType(r))
	case "slice":
		if t.E[0].G == "uint8" && r.Intn(3) == 0 {
			return "string"
		}
		return "[]" + t.E[0].tagType(r)
	case "ptr":
		return "*" + t.E[0].tagType(r)
	}
	if t.G == "uint8" && r.Intn(3) == 0 {
		return "byte"
	}
	if t.G == "int32" && r.Intn(3) == 0 {
		return "rune"
	}
	return t.G
}

func intText(n int, r *rand.Rand) string {
	switch r.Intn(9) {
	case 5:
		return fmt.Sprintf("0X%x", n)
	case 3:
		return fmt.Sprintf("0b%b", n)
	case 4:
		return fmt.Sprintf("0x%02x", n)
	case 0:
		return fmt.Sprintf("0x%x", n)
	case 1:
		return fmt.Sprintf("0X%X", n)
	case 2:
		if n > 0 {
			return fmt.Sprintf("0%o", n)
		}
	}
	return strconv.Itoa(n)
}

// render makes up the tag text of every field of t (recursively), choosing
// among equivalent spellings.
func (t *T) render(r *rand.Rand) {
	seen := map[*T]bool{}
	t.renderR(r, seen)
}
func (t *T) renderR(r *rand.Rand, seen map[*T]bool) {
	if seen[t] || (t.Nm != "" && t.K == "struct" && goTypes[t.Nm] != nil) {
		return
	}
	seen[t] = true
	for _, e := range t.E {
		e.renderR(r, seen)
	}
	for _, f := range t.F {
		f.T.renderR(r, seen)
		f.renderTag(r)
	}
}

func sameT(a, b *T) bool {
	if a == b {
		return true
	}
	if a.K != b.K || a.G != b.G || a.N != b.N || len(a.E) != len(b.E) {
		return false
	}
	for i := range a.E {
		if !sameT(a.E[i], b.E[i]) {
			return false
		}
	}
	return len(a.F) == 0 && len(b.F) == 0
}

func quoteTag(s string) string { return strconv.Quote(s) }

func (f *Field) renderTag(r *rand.Rand) {
	switch f.Cls {
	case "x":
		f.tag = `struct:"-"`
		return
	case "r":
		f.tag = `struct:"root"`
		return
	case "p":
		f.tag = `struct:"parent"`
		return
	}
	var opts []string
	if !sameT(f.T, f.Bt) || f.Bw != 0 || (f.tagTypeable() && r.Intn(6) == 0) {
		s := f.Bt.tagType(r)
		if f.Bw != 0 {
			s += ":" + strings.ToLower(intText(f.Bw, r))
		}
		opts = append(opts, s)
	}
	switch f.O {
	case "b":
		opts = append(opts, []string{"big", "msb", "network"}[r.Intn(3)])
	case "l":
		opts = append(opts, []string{"little", "lsb"}[r.Intn(2)])
	}
	if f.Sk != 0 || r.Intn(40) == 0 {
		opts = append(opts, "skip="+intText(f.Sk, r))
	}
	if f.Va {
		opts = append(opts, "variantbool")
	}
	if f.Iv {
		opts = append(opts, "invertedbool")
	}
	if f.Szof != "" {
		opts = append(opts, "sizeof="+f.Szof)
	}
	if f.Szfr != "" {
		opts = append(opts, "sizefrom="+f.Szfr)
	}
	if f.Df {
		opts = append(opts, "default")
	}
	var own []string
	for _, e := range []struct {
		k string
		x *X
	}{{"if", f.If}, {"size", f.Sz}, {"bits", f.Bi}, {"in", f.In}, {"out", f.Ou}, {"while", f.Wh}, {"switch", f.Sw}, {"case", f.Ca}} {
		if e.x == nil {
			continue
		}
		txt := e.x.text(r)
		if r.Intn(2) == 0 {
			own = append(own, "struct-"+e.k+":"+quoteTag(txt))
		} else {
			opts = append(opts, e.k+"="+txt)
		}
	}
	r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	if len(opts) > 0 {
		own = append(own, "struct:"+quoteTag(strings.Join(opts, ",")))
	}
	r.Shuffle(len(own), func(i, j int) { own[i], own[j] = own[j], own[i] })
	f.tag = strings.Join(own, " ")
}

// tagTypeable: can the declared type be written in a tag?
func (f *Field) tagTypeable() bool { return tagTypeable(f.T) && tagTypeable(f.Bt) }
func tagTypeable(t *T) bool {
	if t.Nm != "" || t.K == "struct" || t.K == "cu" || t.K == "ref" || t.K == "map" || t.K == "str" {
		return false
	}
	for _, e := range t.E {
		if !tagTypeable(e) {
			return false
		}
	}
	return true
}
