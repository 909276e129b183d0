package main

import "strconv"

var bitsFns = []string{"LeadingZeros", "TrailingZeros", "OnesCount", "Len", "Reverse", "ReverseBytes", "RotateLeft"}

// bitsSchema makes a struct whose fields are computed by package bits.
func bitsSchema(g *gen) *T {
	r := g.r
	t := strct()
	w := []int{0, 8, 16, 32, 64}[r.Intn(5)]
	suf, at := "", prim("uint")
	if w > 0 {
		suf = strconv.Itoa(w)
		at = prim("uint" + suf)
	}
	push := func(nm string, ty *T, in *X) {
		f := newField(nm, ty, ty)
		f.In = in
		t.F = append(t.F, f)
	}
	push("A", at, nil)
	push("K", prim("int"), nil)
	push("B", prim(uintKinds[r.Intn(5)]), nil)
	n := 2 + r.Intn(5)
	for i := 0; i < n; i++ {
		f := bitsFns[r.Intn(len(bitsFns))]
		arg := id("A")
		switch r.Intn(6) {
		case 0:
			arg = bin([]string{"^", "+", "-", "*", "|", "&"}[r.Intn(6)], arg, smallLit(r))
		case 1:
			arg = un([]string{"u^", "u-"}[r.Intn(2)], arg)
		case 2:
			arg = bin([]string{"<<", ">>"}[r.Intn(2)], arg, lit(int64(r.Intn(70))))
		}
		fn := dot(id("bits"), f+suf)
		args := []*X{arg}
		if f == "RotateLeft" {
			args = append(args, []*X{id("K"), id("K"), lit(int64(r.Intn(200) - 100)), bin("*", id("K"), lit(-3))}[r.Intn(4)])
		}
		res := prim("int")
		if f == "Reverse" || f == "ReverseBytes" || f == "RotateLeft" {
			res = at
		}
		if r.Intn(25) == 0 {
			// does not work
			switch r.Intn(6) {
			case 0:
				args = append(args, lit(1))
			case 1:
				args = nil
			case 2:
				args[0] = id("K")
			case 3:
				fn = dot(id("bits"), f+"7")
			case 4:
				args[0] = boolLit(true)
			case 5:
				fn = id("bits")
			}
		}
		push(string(rune('M'+i)), res, call(fn, args...))
	}
	return t
}

func init() { profiles["bitsfns"] = profile{schema: bitsSchema, plan: "values"} }
