package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"unicode"
)

// ------------------------------------------------------------------ building

func id(s string) *X            { return &X{Op: "id", S: s} }
func un(op string, a *X) *X     { return &X{Op: op, A: []*X{a}} }
func bin(op string, a, b *X) *X { return &X{Op: op, A: []*X{a, b}} }
func dot(a *X, nm string) *X    { return &X{Op: ".", S: nm, A: []*X{a}} }
func call(f *X, a ...*X) *X     { return &X{Op: "call", A: append([]*X{f}, a...)} }
func tern(c, a, b *X) *X        { return &X{Op: "?:", A: []*X{c, a, b}} }
func boolLit(b bool) *X {
	if b {
		return &X{Op: "bool", V: []int{1}}
	}
	return &X{Op: "bool", V: []int{0}}
}
func strLit(s string) *X { return &X{Op: "str", V: byteInts([]byte(s))} }

// lit is a non-negative integer literal, or the negation of one.
func lit(n int64) *X {
	if n < 0 {
		return un("u-", litU(uint64(-n)))
	}
	return litU(uint64(n))
}
func litU(n uint64) *X { return &X{Op: "int", V: append([]int{0}, beBytes(n, 8)...)} }

// ----------------------------------------------------------------- rendering

var precOf = map[string]int{"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3,
	"+": 4, "-": 4, "|": 4, "^": 4, "*": 5, "/": 5, "%": 5, "<<": 5, ">>": 5, "&": 5, "&^": 5}

func (x *X) prec() int {
	if p, ok := precOf[x.Op]; ok {
		return p
	}
	switch x.Op {
	case "?:":
		return 0
	case "u+", "u-", "u!", "u^", "u*", "u&":
		return 6
	}
	return 7
}

func (x *X) text(r *rand.Rand) string { return x.txt(r, 0) }

func (x *X) txt(r *rand.Rand, min int) string {
	p := x.prec()
	s := x.txt0(r, p)
	if p < min || r.Intn(12) == 0 {
		s = "(" + sp(r) + s + sp(r) + ")"
	}
	return s
}
func sp(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0, 1:
		return " "
	case 2:
		return "  "
	case 3:
		return "\t"
	}
	return ""
}
func opChar(c byte) bool { return strings.IndexByte("+-*/%&|^<>=!?:.", c) >= 0 }

func (x *X) txt0(r *rand.Rand, p int) string {
	switch x.Op {
	case "id":
		return x.S
	case "int":
		n := beVal(x.V[1:])
		switch r.Intn(5 + 1) {
		case 5:
			if n > 0 && n < 0xd800 && r.Intn(2) == 0 {
				return "'" + charText(r, rune(n), '\'') + "'"
			}
		case 0:
			return fmt.Sprintf("0x%x", n)
		case 1:
			return fmt.Sprintf("0X%X", n)
		case 2:
			return fmt.Sprintf("0%o", n)
		}
		return strconv.FormatUint(n, 10)
	case "bool":
		if x.V[0] == 1 {
			return "true"
		}
		return "false"
	case "nil":
		return "nil"
	case "str":
		q, o := byte('"'), `"`
		if r.Intn(3) == 0 {
			q, o = '\'', `$'`
		}
		t := o
		for _, c := range x.V {
			t += byteText(r, byte(c), q)
		}
		return t + string(q)
	case ".":
		return x.A[0].txt(r, 7) + "." + x.S
	case "[]":
		return x.A[0].txt(r, 7) + "[" + sp(r) + x.A[1].txt(r, 0) + sp(r) + "]"
	case "call":
		s := x.A[0].txt(r, 7) + "("
		for i, a := range x.A[1:] {
			if i > 0 {
				s += sp(r) + "," + sp(r)
			}
			s += a.txt(r, 0)
		}
		return s + ")"
	case "?:":
		return x.A[0].txt(r, 1) + " ? " + x.A[1].txt(r, 0) + " : " + x.A[2].txt(r, 0)
	}
	if p == 6 {
		a := x.A[0].txt(r, 6)
		if opChar(a[0]) || (x.Op == "u-" && a[0] >= '0' && a[0] <= '9' && r.Intn(2) == 0) {
			return x.Op[1:] + " " + a
		}
		return x.Op[1:] + sp(r) + a
	}
	a, b := x.A[0].txt(r, p), x.A[1].txt(r, p+1)
	s1, s2 := sp(r), sp(r)
	if opChar(b[0]) && s2 == "" {
		s2 = " "
	}
	return a + s1 + x.Op + s2 + b
}

// byteText and charText are ways to write a byte of a string and a rune.
func byteText(r *rand.Rand, c, q byte) string {
	switch k := r.Intn(12); {
	case k == 0 || c >= 0x7f || c < 0x20 && k < 6:
		return fmt.Sprintf("\\x%02x", c)
	case k == 1:
		return fmt.Sprintf("\\%03o", c)
	case k == 2 || c < 0x20:
		return fmt.Sprintf("\\u%04X", c)
	case c == q || c == '\\':
		return "\\" + string(c)
	}
	return string(c)
}
func charText(r *rand.Rand, c rune, q byte) string {
	if c < 0x7f {
		return byteText(r, byte(c), q)
	}
	switch r.Intn(3) {
	case 0:
		return fmt.Sprintf("\\u%04x", c)
	case 1:
		return fmt.Sprintf("\\U%08X", c)
	}
	if !unicode.IsPrint(c) {
		return fmt.Sprintf("\\u%04x", c)
	}
	return string(c)
}

// strPool are strings that values have and expressions mention.
var strPool = []string{"", "a", "a", "ab", "b", "\\", "\"", "'", "\\\\", "a\\", "\\\"", "(", "],", "a,b", "{", "x)}", "$'", "\xff", "0x", "? :"}

func (g *gen) pooled() string { return strPool[g.r.Intn(len(strPool))] }

// ---------------------------------------------------------------- generation

type entry struct {
	x *X
	t *T
}

// scope is what an expression may mention.
type scope struct {
	ents []entry
	r    *rand.Rand
	g    *gen
	// package bits is not to be mentioned
	nobits bool
}

// add makes a field and what can be reached from it visible.
func (s *scope) add(x *X, t *T, depth int) {
	switch t.K {
	case "bool", "int", "uint", "float", "str":
		s.ents = append(s.ents, entry{x, t})
	case "struct":
		for _, f := range t.F {
			if f.Cls == "n" || f.Cls == "x" {
				s.add(dot(x, f.Nm), f.T, depth+1)
			}
		}
	case "array":
		if t.N > 0 {
			s.add(bin("[]", x, lit(int64(s.r.Intn(t.N)))), t.E[0], depth+1)
		}
	case "slice", "ptr":
		if t.K == "slice" && s.r.Intn(3) == 0 {
			s.add(bin("[]", x, lit(int64(s.r.Intn(2)))), t.E[0], depth+1)
		}
		if t.K == "ptr" && s.r.Intn(2) == 0 {
			if t.E[0].K == "struct" {
				s.add(x, t.E[0], depth+1)
			} else {
				s.add(un("u*", x), t.E[0], depth+1)
			}
		}
	case "ref":
		if depth < 3 {
			if st := namedTypes[t.Nm]; st != nil {
				s.add(x, st, depth+2)
			}
		}
	}
}

func (s *scope) pick(ok func(*T) bool) *entry {
	n := 0
	var got *entry
	for i := range s.ents {
		if ok(s.ents[i].t) {
			n++
			if s.r.Intn(n) == 0 {
				got = &s.ents[i]
			}
		}
	}
	return got
}

func isIntT(t *T) bool { return t.K == "int" || t.K == "uint" }

// smallLit is a literal that fits every integer type.
func smallLit(r *rand.Rand) *X {
	switch r.Intn(4) {
	case 0:
		return lit(int64(r.Intn(128)))
	default:
		return lit(int64(r.Intn(6)))
	}
}

// boolean makes an expression of type bool.
func (s *scope) boolean(d int) *X {
	r := s.r
	if d > 0 {
		switch r.Intn(8) {
		case 0:
			return bin("&&", s.boolean(d-1), s.boolean(d-1))
		case 1:
			return bin("||", s.boolean(d-1), s.boolean(d-1))
		case 2:
			return un("u!", s.boolean(d-1))
		case 3:
			return tern(s.boolean(d-1), s.boolean(d-1), s.boolean(d-1))
		}
	}
	if r.Intn(5) == 0 {
		if e := s.pick(func(t *T) bool { return t.K == "bool" }); e != nil {
			return e.x
		}
	}
	if r.Intn(8) == 0 {
		if e := s.pick(func(t *T) bool { return t.K == "str" }); e != nil {
			return bin([]string{"==", "!="}[r.Intn(2)], e.x, strLit(strPool[r.Intn(len(strPool))]))
		}
	}
	if r.Intn(10) == 0 {
		if e := s.pick(func(t *T) bool { return t.K == "float" }); e != nil {
			return bin([]string{"==", "!=", "<", ">=", ">"}[r.Intn(5)], e.x, smallLit(r))
		}
	}
	e := s.pick(isIntT)
	if e == nil {
		return boolLit(r.Intn(3) > 0)
	}
	a := s.integer(e.t, d-1)
	var b *X
	if r.Intn(4) == 0 {
		b = s.integer(e.t, d-1)
	} else {
		b = smallLit(r)
	}
	op := []string{"==", "!=", "<", "<=", ">", ">="}[r.Intn(6)]
	if r.Intn(6) == 0 {
		a, b = b, a
	}
	return bin(op, a, b)
}

// integer makes an expression of integer type t (by kind).
func (s *scope) integer(t *T, d int) *X {
	r := s.r
	if d > 0 {
		switch r.Intn(7) {
		case 0, 1:
			op := []string{"+", "-", "*", "&", "|", "^", "&^"}[r.Intn(7)]
			a := s.integer(t, d-1)
			var b *X
			if r.Intn(2) == 0 {
				b = smallLit(r)
			} else {
				b = s.integer(t, d-1)
			}
			if r.Intn(3) == 0 {
				a, b = b, a
			}
			return bin(op, a, b)
		case 2:
			return bin([]string{"/", "%"}[r.Intn(2)], s.integer(t, d-1), lit(int64(1+r.Intn(5))))
		case 3:
			return bin([]string{"<<", ">>"}[r.Intn(2)], s.integer(t, d-1), lit(int64(r.Intn(5))))
		case 4:
			return tern(s.boolean(d-1), s.integer(t, d-1), s.integer(t, d-1))
		case 5:
			return un([]string{"u^", "u-", "u+"}[r.Intn(3)], s.integer(t, d-1))
		}
	}
	if !s.nobits && r.Intn(8) == 0 {
		for _, b := range []string{"8", "16", "32", "64"} {
			w, _ := strconv.Atoi(b)
			if e := s.pick(func(t *T) bool { return t.K == "uint" && t.W*8 == w && t.G != "uint" && t.G != "uintptr" }); e != nil && t.G == "int" {
				return call(dot(id("bits"), []string{"OnesCount", "Len", "LeadingZeros", "TrailingZeros"}[r.Intn(4)]+b), e.x)
			}
			if t.G == "uint"+b {
				if e := s.pick(func(u *T) bool { return u.G == t.G }); e != nil {
					return call(dot(id("bits"), "Reverse"+b), e.x)
				}
			}
		}
	}
	e := s.pick(func(u *T) bool { return u.G == t.G })
	if e == nil {
		return smallLit(r)
	}
	return e.x
}
