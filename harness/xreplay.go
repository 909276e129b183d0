package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strings"
	"time"

	"github.com/go-restruct/restruct/expr"
)

// Texts that the specification has made up (see spec/ExprMC.tla), with what they
// mean, are evaluated by the library.

// Text is one source text and its meaning.
type Text struct {
	C []rune // source
	S string // outcome
	K string // class of the type
	G string // Go kind
	V any    // value
}

func floatNaN(v []any) bool {
	b := vecBytes(v)
	if len(b) == 4 {
		return b[0]&0x7f == 0x7f && b[1]&0x80 != 0 && (b[1]&0x7f|b[2]|b[3]) != 0
	}
	if len(b) != 8 || b[0]&0x7f != 0x7f || b[1]&0xf0 != 0xf0 {
		return false
	}
	rest := b[1] & 15
	for _, c := range b[2:] {
		rest |= c
	}
	return rest != 0
}
func vecBytes(v any) []byte {
	a, _ := v.([]any)
	b := make([]byte, len(a))
	for i := range a {
		f, _ := a[i].(float64)
		b[i] = byte(f)
	}
	return b
}
func vecInt(v any, signed bool) *big.Int {
	b := vecBytes(v)
	n := new(big.Int).SetBytes(b)
	if signed && len(b) > 0 && b[0] >= 128 {
		n.Sub(n, new(big.Int).Lsh(big.NewInt(1), uint(8*len(b))))
	}
	return n
}

// matches says whether a result is the expected one; see Matches in spec/ExprTrace.tla.
func (t *Text) matches(g string, v any) bool {
	same := jsonOf(v) == jsonOf(t.V)
	a, _ := v.([]any)
	b, _ := t.V.([]any)
	switch t.K {
	case "ui":
		return (g == "int64" || g == "uint64") && vecInt(v, g == "int64").Cmp(vecInt(t.V, true)) == 0
	case "uf":
		return g == "float64" && (same || floatNaN(a) && floatNaN(b))
	case "ub":
		return g == "bool" && same
	case "float":
		return g == t.G && (same || floatNaN(a) && floatNaN(b))
	case "bool", "int", "uint", "str", "struct", "array", "slice", "ptr":
		return g == t.G && same
	}
	return true
}

func xreplay(in, out string) {
	limitMemory()
	fh, err := os.Open(in)
	if err != nil {
		fatal(err)
	}
	defer fh.Close()
	w, err := os.Create(out)
	if err != nil {
		fatal(err)
	}
	defer w.Close()
	now, err := os.Create(out + ".now")
	if err != nil {
		fatal(err)
	}
	defer now.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	meta := expr.NewMetaResolver()
	n := 0
	for sc.Scan() {
		if n == 0 {
			var lay []struct {
				F  []*Field
				Vs []any
			}
			if err := json.Unmarshal(sc.Bytes(), &lay); err != nil {
				fatal("environment", err)
			}
			for _, l := range lay {
				x := &xlay{kind: "map", t: strct(l.F...)}
				if l.F[0].Nm[0] < 'a' {
					x.kind = "struct"
					for _, f := range l.F {
						if f.Nm[0] >= 'a' {
							f.Cls = "u"
						}
					}
				}
				for _, f := range l.F {
					f.Bt = f.T
				}
				x.set(l.Vs)
				if x.kind == "map" {
					meta.AddResolver(expr.NewMapResolver(x.m))
				} else {
					meta.AddResolver(expr.NewStructResolver(x.sv))
				}
			}
			n++
			continue
		}
		n++
		t := &Text{}
		if err := json.Unmarshal(sc.Bytes(), t); err != nil {
			fatal(err)
		}
		src := string(t.C)
		now.WriteAt([]byte(fmt.Sprintf("%6d\n%s", len(sc.Bytes()), sc.Bytes())), 0)
		report := func(e *XEval, aspect string) {
			b, _ := json.Marshal(map[string]any{"aspect": aspect, "text": src, "want": t, "got": map[string]any{"st": e.St, "g": e.G, "v": e.V, "msg": e.Msg}})
			w.Write(append(b, '\n'))
		}
		e := &XEval{Src: src}
		done := make(chan bool, 1)
		go func() {
			e.St, e.G, e.V, e.Msg = e.observe(func() (any, error) { return expr.Eval(meta, src) })
			p2 := &XEval{}
			p2.St, p2.G, p2.V, p2.Msg = e.observe(func() (any, error) {
				p := expr.Parse(strings.NewReader(src))
				return expr.EvalProgram(meta, p)
			})
			e.Again = p2.St == "panic" && e.St == "err" || p2.St == e.St && p2.G == e.G && jsonOf(p2.V) == jsonOf(e.V)
			done <- true
		}()
		select {
		case <-done:
		case <-time.After(opTimeout):
			report(&XEval{St: "hang"}, "hang")
			fmt.Printf("{\"texts\":%d}\n", n-1)
			return
		}
		v := e.V
		if v == nil {
			e.V = []any{}
		} else {
			json.Unmarshal([]byte(jsonOf(v)), &e.V)
		}
		switch {
		case e.St == "panic":
			report(e, "panic")
		case !e.Again:
			report(e, "again")
		case t.S == "unspec":
		case t.S == "ok" && (t.K == "un" || t.K == "pkg" || t.K == "fn" || t.K == "map" || t.K == "ref"):
		case e.St != t.S:
			report(e, "status")
		case t.S == "ok" && !t.matches(e.G, e.V):
			report(e, "value")
		}
	}
	if err := sc.Err(); err != nil {
		fatal(err)
	}
	fmt.Printf("{\"texts\":%d}\n", n-1)
}
