package main

import (
	"fmt"
	"os"
	"strings"
)

// genLoops writes a_loops_gen.go: pairs of types that refer to themselves and to
// each other in every way, up to two parts each.
func genLoops() {
	unary := []string{"[]%s", "*%s", "map[string]%s", "func(%s)", "func(...%s)", "func() %s", "struct{ A %s }", "[2]%s"}
	binary := []string{"struct {\n\tA %s\n\tB %s\n}", "func(%s) %s", "func(%s, %s)"}
	type body struct {
		f    string
		e    []string // "s"elf, "o"ther, "b"asic
		flat bool     // by value
	}
	var bs []body
	for _, f := range unary {
		for _, e := range "sob" {
			bs = append(bs, body{f, []string{string(e)}, strings.HasPrefix(f, "struct") || strings.HasPrefix(f, "[2]")})
		}
	}
	for _, f := range binary {
		for _, e := range "sob" {
			for _, g := range "sob" {
				bs = append(bs, body{f, []string{string(e), string(g)}, strings.HasPrefix(f, "struct")})
			}
		}
	}
	has := func(b body, x string) bool {
		for _, e := range b.e {
			if e == x {
				return true
			}
		}
		return false
	}
	var o strings.Builder
	o.WriteString("// Code generated by harness genloops; DO NOT EDIT.\n\npackage main\n\nimport \"reflect\"\n\n")
	var names []string
	text := func(b body, self, other string) string {
		var as []any
		for _, e := range b.e {
			as = append(as, map[string]string{"s": self, "o": other, "b": "uint8"}[e])
		}
		return fmt.Sprintf(b.f, as...)
	}
	n := 0
	for i, a := range bs {
		for j, b := range bs {
			if a.flat && has(a, "s") || b.flat && has(b, "s") || a.flat && b.flat && has(a, "o") && has(b, "o") {
				continue
			}
			if !has(a, "o") || !has(b, "o") && !(has(b, "s") && len(b.e) == 1) {
				continue
			}
			if n++; n%3 != 0 && len(a.e)+len(b.e) > 2 {
				continue
			}
			x, y := fmt.Sprintf("l%da%d", i, j), fmt.Sprintf("l%db%d", i, j)
			fmt.Fprintf(&o, "type %s %s\ntype %s %s\n", x, text(a, x, y), y, text(b, y, x))
			names = append(names, x, y)
		}
	}
	o.WriteString("\nvar loops = []reflect.Type{\n")
	for _, nm := range names {
		fmt.Fprintf(&o, "\treflect.TypeOf((*%s)(nil)).Elem(),\n", nm)
	}
	o.WriteString("}\n")
	if err := os.WriteFile("a_loops_gen.go", []byte(o.String()), 0o644); err != nil {
		fatal(err)
	}
	fmt.Println(len(names), "types")
}
