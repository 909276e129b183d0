package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
)

// Calls that the specification has made up (see spec/CodecMC.tla), with what it
// says of them, are made on the library.

// UnmarshalJSON reads a field as the specification writes it.
func (f *Field) UnmarshalJSON(b []byte) error {
	type plain Field
	if err := json.Unmarshal(b, (*plain)(f)); err != nil {
		return err
	}
	var both struct{ T, Bt json.RawMessage }
	if err := json.Unmarshal(b, &both); err != nil {
		return err
	}
	if bytes.Equal(both.T, both.Bt) {
		f.Bt = f.T
	}
	var e struct{ Xif, Xsz, Xbi, Xin, Xou, Xwh, Xsw, Xca *X }
	if err := json.Unmarshal(b, &e); err != nil {
		return err
	}
	for _, p := range []struct {
		to   **X
		from *X
	}{{&f.If, e.Xif}, {&f.Sz, e.Xsz}, {&f.Bi, e.Xbi}, {&f.In, e.Xin}, {&f.Ou, e.Xou}, {&f.Wh, e.Xwh}, {&f.Sw, e.Xsw}, {&f.Ca, e.Xca}} {
		if p.from != nil && p.from.Op != "none" {
			*p.to = p.from
		}
	}
	return nil
}

// Unit is one line of the table of units.
type Unit struct {
	Unit string
	At   int
	F    json.RawMessage
}

// Call is one call and what it should do.
type Call struct {
	U []string        // units of the struct
	O string          // byte order
	P string          // phase of the behaviour
	M string          // enc, dec
	X json.RawMessage // value to encode
	I []int           // bytes to decode
	S string          // outcome
	R json.RawMessage // value afterwards
	B []int           // bytes
	N int             // size in bits
	C int             // custom codec calls
	W string          // which known error
}

func compact(b []byte) string {
	var o bytes.Buffer
	if err := json.Compact(&o, b); err != nil {
		return string(b)
	}
	return o.String()
}

func jsonOf(x any) string {
	b, _ := json.Marshal(x)
	return string(b)
}

// replay makes the calls in file in and writes one line per difference to out.
func replay(in, out string) {
	limitMemory()
	fh, err := os.Open(in)
	if err != nil {
		fatal(err)
	}
	defer fh.Close()
	w, err := os.Create(out)
	if err != nil {
		fatal(err)
	}
	defer w.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	units := map[string]json.RawMessage{}
	types := map[string]*T{}
	cur := ""
	beforeOp = func(*Case, *Op) {}
	n, ops := 0, 0
	for sc.Scan() {
		var l struct {
			*Unit
			*Call
		}
		if err := json.Unmarshal(sc.Bytes(), &l); err != nil {
			fatal(err)
		}
		if l.Unit != nil && l.Unit.Unit != "" {
			units[fmt.Sprint(l.Unit.Unit, l.Unit.At)] = l.Unit.F
			continue
		}
		c := l.Call
		n++
		cur = fmt.Sprint(c.U)
		t := types[cur]
		if t == nil {
			t = &T{K: "struct", G: "struct"}
			for i, u := range c.U {
				var fs []*Field
				if err := json.Unmarshal(units[fmt.Sprint(u, i+1)], &fs); err != nil {
					fatal(u, err)
				}
				t.F = append(t.F, fs...)
			}
			t.render(rand.New(rand.NewSource(int64(hash(cur)))))
			types[cur] = t
		}
		// told: the call that is running, in case it kills the process
		os.WriteFile(out+".now", sc.Bytes(), 0o644)
		k := &Case{ID: n, T: t}
		report := func(o *Op, aspect string, want any) {
			got := map[string]any{"op": o.Op, "of": 1, "cut": 0, "byval": o.ByVal, "st": o.St, "y": o.Y, "out": nn(o.Out), "n": o.N, "msg": o.Msg, "why": o.Why}
			b, _ := json.Marshal(map[string]any{"aspect": aspect, "phase": c.P, "got": got, "want": want, "call": c, "go": fmt.Sprint(t.Go())})
			w.Write(append(b, '\n'))
		}
		try := func(o *Op) bool {
			o.Ord = c.O
			ops++
			func() {
				defer func() {
					if r := recover(); r != nil {
						report(o, "hang", c.S)
						w.Close()
						os.Exit(0)
					}
				}()
				k.perform(o)
			}()
			if o.St == "panic" {
				report(o, "panic", c.S)
				return false
			}
			if o.InMod {
				report(o, "input", nil)
			}
			if o.Alias {
				report(o, "alias", nil)
			}
			if c.S != "unspec" && o.St != c.S {
				report(o, "status", c.S)
				return false
			}
			// that the input is too short may come to light before a codec fails
			if c.W != "" && o.Op != "sizeof" && o.Op != "bitsize" && !(o.Op == "unpack" && o.Why == "eof") {
				if o.Why != c.W {
					report(o, "error", c.W)
				}
				if o.Calls != c.C {
					report(o, "calls", c.C)
				}
			}
			return o.St == "ok" && c.S == "ok"
		}
		if c.M == "dec" {
			o := &Op{Op: "unpack", Inp: c.I}
			if c.P == "over" {
				// into what already holds something
				if err := json.Unmarshal(c.X, &o.X); err != nil {
					fatal(err)
				}
			}
			if try(o) {
				if y := jsonOf(o.Y); y != compact(c.R) {
					report(o, "value", c.R)
				}
				if o.Calls != c.C {
					report(o, "calls", c.C)
				}
			}
			continue
		}
		for _, byval := range []bool{false, true} {
			var x any
			if err := json.Unmarshal(c.X, &x); err != nil {
				fatal(err)
			}
			o := &Op{Op: "pack", X: x, ByVal: byval && n%3 == 0}
			if byval && !o.ByVal {
				break
			}
			if try(o) {
				if jsonOf(nn(o.Out)) != jsonOf(nn(c.B)) {
					report(o, "bytes", c.B)
				}
				if y := jsonOf(o.Y); !byval && y != compact(c.R) {
					report(o, "post", c.R)
				}
				if o.Calls != c.C {
					report(o, "calls", c.C)
				}
			}
			if c.S == "ok" {
				for _, q := range []string{"sizeof", "bitsize"} {
					s := &Op{Op: q, X: x, ByVal: o.ByVal}
					want := c.N
					if q == "sizeof" {
						want = (c.N + 7) / 8
					}
					if try(s) && s.N != want {
						report(s, "size", want)
					}
				}
			}
		}
	}
	if err := sc.Err(); err != nil {
		fatal(err)
	}
	fmt.Printf("{\"calls\":%d,\"ops\":%d,\"types\":%d}\n", n, ops, len(types))
}
