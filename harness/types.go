package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"unsafe"

	"github.com/go-restruct/restruct/expr"
)

// Descriptions of types (see spec/Types.tla): what the methods of expr's types
// answer is recorded as a graph, beside the graph of the Go types.

// TNode is one type of a graph.
type TNode struct {
	K  string   `json:"k"`
	N  int      `json:"n"`
	Va bool     `json:"va"`
	Nm []string `json:"nm"`
	E  []int    `json:"e"`
	O  string   `json:"o"`
}

// TQ is a question and its answer.
type TQ struct {
	Q    string   `json:"q"`
	How  string   `json:"how"`
	St   string   `json:"st"`
	Go   int      `json:"go"`
	Go2  int      `json:"go2"`
	Lib  int      `json:"lib"`
	Nm   string   `json:"nm"`
	R    any      `json:"r"`
	Lays [][]TRef `json:"lays"`
}

// TRef is a name and its type in the graph of Go types.
type TRef struct {
	Nm string `json:"nm"`
	T  int    `json:"t"`
}

type tcase struct {
	id    int
	r     *rand.Rand
	gonds []*TNode
	lnds  []*TNode
	gos   map[reflect.Type]int
	libs  map[expr.Type]int
	names []string // of the Go types, for people
	qs    []*TQ
	note  func()
}

func (c *tcase) json() any {
	return map[string]any{"id": c.id, "go": c.gonds, "lib": c.lnds, "types": c.names, "qs": c.qs}
}

var exprKinds = map[expr.Kind]string{expr.Invalid: "opaque", expr.Bool: "bool", expr.Int: "int", expr.Int8: "int8", expr.Int16: "int16",
	expr.Int32: "int32", expr.Int64: "int64", expr.Uint: "uint", expr.Uint8: "uint8", expr.Uint16: "uint16", expr.Uint32: "uint32",
	expr.Uint64: "uint64", expr.Uintptr: "uintptr", expr.Float32: "float32", expr.Float64: "float64", expr.String: "string",
	expr.UntypedBool: "ub", expr.UntypedInt: "ui", expr.UntypedFloat: "uf", expr.UntypedNil: "un",
	expr.Array: "array", expr.Slice: "slice", expr.Struct: "struct", expr.Map: "map", expr.Ptr: "ptr", expr.Func: "func", expr.Pkg: "pkg"}

var exprPrims = map[reflect.Kind]expr.Kind{reflect.Bool: expr.Bool, reflect.Int: expr.Int, reflect.Int8: expr.Int8, reflect.Int16: expr.Int16,
	reflect.Int32: expr.Int32, reflect.Int64: expr.Int64, reflect.Uint: expr.Uint, reflect.Uint8: expr.Uint8, reflect.Uint16: expr.Uint16,
	reflect.Uint32: expr.Uint32, reflect.Uint64: expr.Uint64, reflect.Uintptr: expr.Uintptr, reflect.Float32: expr.Float32,
	reflect.Float64: expr.Float64, reflect.String: expr.String}

var symNames = []string{"A", "B", "C", "D", "E", "F", "G", "Q", "a", "", "_"}

// goParts takes a Go type apart.
func goParts(t reflect.Type) (n *TNode, parts []reflect.Type) {
	n = &TNode{K: t.Kind().String(), Nm: []string{}, E: []int{}}
	if _, ok := exprPrims[t.Kind()]; ok {
		return n, nil
	}
	switch t.Kind() {
	case reflect.Array:
		n.N = t.Len()
		return n, []reflect.Type{t.Elem()}
	case reflect.Slice, reflect.Ptr:
		return n, []reflect.Type{t.Elem()}
	case reflect.Map:
		return n, []reflect.Type{t.Key(), t.Elem()}
	case reflect.Func:
		n.N, n.Va = t.NumIn(), t.IsVariadic()
		for i := 0; i < t.NumIn(); i++ {
			parts = append(parts, t.In(i))
		}
		for i := 0; i < t.NumOut(); i++ {
			parts = append(parts, t.Out(i))
		}
		return n, parts
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			n.Nm = append(n.Nm, t.Field(i).Name)
			parts = append(parts, t.Field(i).Type)
		}
		return n, parts
	}
	n.K, n.O = "opaque", t.String()
	return n, nil
}

// libParts takes a description apart.
func libParts(t expr.Type) (n *TNode, parts []expr.Type) {
	k, ok := exprKinds[t.Kind()]
	if !ok {
		k = fmt.Sprint("kind", int(t.Kind()))
	}
	n = &TNode{K: k, Nm: []string{}, E: []int{}}
	switch t := t.(type) {
	case *expr.ArrayType:
		n.N = t.Len()
		return n, []expr.Type{t.Elem()}
	case *expr.SliceType:
		return n, []expr.Type{t.Elem()}
	case *expr.PtrType:
		return n, []expr.Type{t.Elem()}
	case *expr.MapType:
		return n, []expr.Type{t.Key(), t.Value()}
	case *expr.FuncType:
		n.N, n.Va = t.NumIn(), t.IsVariadic()
		for i := 0; i < t.NumIn(); i++ {
			parts = append(parts, t.In(i))
		}
		for i := 0; i < t.NumOut(); i++ {
			parts = append(parts, t.Out(i))
		}
		return n, parts
	case *expr.StructType:
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			n.Nm = append(n.Nm, f.Name)
			parts = append(parts, f.Type)
		}
		return n, parts
	case *expr.PackageType:
		for _, s := range symNames {
			if st := t.Symbol(s); st != nil {
				n.Nm = append(n.Nm, s)
				parts = append(parts, st)
			}
		}
		return n, parts
	}
	if k == "opaque" {
		n.O = t.String()
	}
	return n, nil
}

func (c *tcase) goNode(t reflect.Type) int {
	if i, ok := c.gos[t]; ok {
		return i
	}
	n, parts := goParts(t)
	c.gonds = append(c.gonds, n)
	i := len(c.gonds)
	c.gos[t] = i
	for _, p := range parts {
		n.E = append(n.E, c.goNode(p))
	}
	return i
}

func (c *tcase) libNode(t expr.Type) int {
	if t == nil {
		return 0
	}
	if i, ok := c.libs[t]; ok {
		return i
	}
	n, parts := libParts(t)
	c.lnds = append(c.lnds, n)
	i := len(c.lnds)
	c.libs[t] = i
	if i > 4000 {
		n.K = "endless" // never so many in a case
		return i
	}
	for _, p := range parts {
		if p == nil {
			n.K = "nothing"
			n.E = nil
			return i
		}
		n.E = append(n.E, c.libNode(p))
	}
	return i
}

// ask records one question; f fills in the answer.
func (c *tcase) ask(q *TQ, f func()) {
	if q.R == nil {
		q.R = false
	}
	if q.Lays == nil {
		q.Lays = [][]TRef{}
	}
	q.St = "crash"
	c.qs = append(c.qs, q)
	if c.note != nil {
		c.note()
	}
	q.St = "ok"
	defer func() {
		if e := recover(); e != nil {
			q.St = "panic"
		}
	}()
	f()
}

// made puts a type together with the constructors.
func made(t reflect.Type, depth int) (expr.Type, bool) {
	if k, ok := exprPrims[t.Kind()]; ok {
		return expr.NewPrimitiveType(k), true
	}
	if depth > 6 {
		return nil, false
	}
	n, parts := goParts(t)
	var ps []expr.Type
	for _, p := range parts {
		x, ok := made(p, depth+1)
		if !ok {
			return nil, false
		}
		ps = append(ps, x)
	}
	switch t.Kind() {
	case reflect.Array:
		return expr.NewArrayType(n.N, ps[0]), true
	case reflect.Slice:
		return expr.NewSliceType(ps[0]), true
	case reflect.Ptr:
		return expr.NewPtrType(ps[0]), true
	case reflect.Map:
		return expr.NewMapType(ps[0], ps[1]), true
	case reflect.Func:
		return expr.NewFuncType(ps[:n.N], ps[n.N:], n.Va), true
	case reflect.Struct:
		var fs []expr.Field
		for i, p := range ps {
			fs = append(fs, expr.Field{Name: n.Nm[i], Type: p})
		}
		return expr.NewStructType(fs), true
	}
	return nil, false
}

// ------------------------------------------------------------------ Go types

type TEmb struct{ Q, R int8 }
type tEmbP struct{ S string }
type TMixed struct {
	TEmb
	*tEmbP
	a, _ int
	B    []TEmb
	_    string
}
type TTree struct {
	L, R *TTree
	V    map[string]TTree
}
type TTree2 struct {
	L, R *TTree
	V    map[string]TTree2
}
type TEnum uint8
type TName string
type TChan chan int
type TFace interface{ M(TTree) }
type TFn func(TFn, ...*TTree) (TFn, error)

var declared = []reflect.Type{}

func init() {
	for _, x := range []any{TEmb{}, TMixed{}, TTree{}, TTree2{}, TEnum(0), TName(""), TChan(nil), TFn(nil), struct{ A TFace }{}, rand.Rand{}, strings.Builder{}, reflect.Value{}, [2]TTree2{}, unsafe.Pointer(nil), complex(1, 2), (func(error) any)(nil)} {
		declared = append(declared, reflect.TypeOf(x))
	}
}

var basics = []reflect.Type{}

func init() {
	for _, x := range []any{false, 0, int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), uintptr(0), float32(0), 0.0, "", 0, uint8(0), ""} {
		basics = append(basics, reflect.TypeOf(x))
	}
}

func (c *tcase) basic() reflect.Type { return basics[c.r.Intn(len(basics))] }

func (c *tcase) some(depth int) reflect.Type {
	r := c.r
	if r.Intn(9) == 0 {
		return declared[r.Intn(len(declared))]
	}
	if r.Intn(9) == 0 {
		return loops[r.Intn(len(loops))]
	}
	if depth == 0 || r.Intn(6) == 0 {
		if r.Intn(12) == 0 {
			return []reflect.Type{reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((chan int)(nil)), reflect.TypeOf((*any)(nil)).Elem()}[r.Intn(3)]
		}
		return c.basic()
	}
	switch r.Intn(7) {
	case 0:
		return reflect.ArrayOf(r.Intn(4), c.some(depth-1))
	case 1:
		return reflect.SliceOf(c.some(depth - 1))
	case 2:
		return reflect.PtrTo(c.some(depth - 1))
	case 3:
		for {
			if k := c.some(r.Intn(2)); k.Comparable() {
				return reflect.MapOf(k, c.some(depth-1))
			}
		}
	case 4:
		var in, out []reflect.Type
		for n := r.Intn(4); n > 0; n-- {
			in = append(in, c.some(depth-1))
		}
		for n := r.Intn(3); n > 0; n-- {
			out = append(out, c.some(depth-1))
		}
		va := len(in) > 0 && r.Intn(3) == 0
		if va {
			in[len(in)-1] = reflect.SliceOf(in[len(in)-1])
		}
		return reflect.FuncOf(in, out, va)
	}
	return c.strct(1+r.Intn(4), func() reflect.Type { return c.some(depth - 1) })
}

func (c *tcase) strct(n int, f func() reflect.Type) reflect.Type {
	var fs []reflect.StructField
	for _, k := range c.r.Perm(6)[:n] {
		sf := reflect.StructField{Name: symNames[k], Type: f()}
		if c.r.Intn(3) == 0 {
			sf.Tag = `struct:"-"`
		}
		fs = append(fs, sf)
	}
	return reflect.StructOf(fs)
}

// variant makes a type of the same structure, or with one difference somewhere.
func (c *tcase) variant(t reflect.Type, differ bool) reflect.Type {
	r := c.r
	n, parts := goParts(t)
	at := -1
	if differ && len(parts) > 0 {
		at = r.Intn(len(parts) + 1)
	} else if differ {
		at = 0
	}
	if t.Name() != "" && len(parts) > 0 && r.Intn(3) > 0 && (t.Kind() != reflect.Struct || t.NumField() > 6) {
		return t
	}
	if t.Kind() == reflect.Map && at == 0 && !parts[1].Comparable() {
		at = 2
	}
	for i := range parts {
		if i == at {
			parts[i] = c.variant(parts[i], true)
		} else if r.Intn(4) == 0 && !(t.Kind() == reflect.Map && i == 0) {
			parts[i] = c.variant(parts[i], false)
		}
	}
	here := at == len(parts)
	if t.Kind() == reflect.Map && !parts[0].Comparable() {
		return t
	}
	switch t.Kind() {
	case reflect.Array:
		if here {
			n.N++
		}
		return reflect.ArrayOf(n.N, parts[0])
	case reflect.Slice:
		if here {
			return reflect.PtrTo(parts[0])
		}
		return reflect.SliceOf(parts[0])
	case reflect.Ptr:
		if here {
			return reflect.SliceOf(parts[0])
		}
		return reflect.PtrTo(parts[0])
	case reflect.Map:
		if here {
			return reflect.MapOf(parts[0], reflect.PtrTo(parts[1]))
		}
		return reflect.MapOf(parts[0], parts[1])
	case reflect.Func:
		k := n.N
		if here && len(parts) > 0 {
			switch {
			case n.Va:
				n.Va = false
			case k > 0 && r.Intn(2) == 0:
				k-- // the last parameter becomes a result
			case k < len(parts):
				k++
			default:
				k--
			}
		} else if here {
			parts = append(parts, c.basic())
		}
		n.Va = n.Va && k > 0 && parts[k-1].Kind() == reflect.Slice
		return reflect.FuncOf(parts[:k], parts[k:], n.Va)
	case reflect.Struct:
		var fs []reflect.StructField
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() || f.Anonymous {
				return t
			}
			fs = append(fs, reflect.StructField{Name: f.Name, Type: parts[i], Tag: `x:"y"`})
		}
		if here {
			switch {
			case len(fs) > 1 && r.Intn(2) == 0:
				fs[0], fs[1] = fs[1], fs[0]
			case len(fs) > 0 && r.Intn(2) == 0:
				fs[r.Intn(len(fs))].Name = "Z"
			case len(fs) > 0 && r.Intn(2) == 0:
				fs = fs[:len(fs)-1]
			default:
				fs = append(fs, reflect.StructField{Name: "Y", Type: c.basic()})
			}
		}
		return reflect.StructOf(fs)
	}
	if differ {
		for {
			if u := c.basic(); u.Kind() != t.Kind() {
				return u
			}
		}
	}
	for _, d := range []reflect.Type{reflect.TypeOf(TEnum(0)), reflect.TypeOf(TName(""))} {
		if d.Kind() == t.Kind() {
			return d
		}
	}
	return t
}

// ------------------------------------------------------------------ questions

type described struct {
	t   reflect.Type
	lib expr.Type
}

func (c *tcase) run(loopsOnly bool) {
	r := c.r
	var ts []reflect.Type
	add := func(t reflect.Type) {
		if t.Kind() != reflect.Interface {
			ts = append(ts, t)
		}
	}
	if loopsOnly {
		// neighbours in the list of recursive types resemble each other
		i := r.Intn(len(loops))
		for k := 0; k < 5; k++ {
			add(loops[(i+k)%len(loops)])
			add(loops[r.Intn(len(loops))])
		}
	} else {
		for n := 3 + r.Intn(3); n > 0; n-- {
			t := c.some(r.Intn(4))
			add(t)
			if r.Intn(2) == 0 {
				add(c.variant(t, false))
			}
			if r.Intn(3) > 0 {
				add(c.variant(t, true))
			}
		}
	}
	var ds []described
	for _, t := range ts {
		c.names = append(c.names, t.String())
	}
	desc := func(how string, t reflect.Type, f func() expr.Type) {
		q := &TQ{Q: "desc", How: how, Go: c.goNode(t)}
		c.ask(q, func() {
			d := f()
			q.Lib = c.libNode(d)
			ds = append(ds, described{t, d})
			if q.Lib == 0 {
				q.St = "nothing"
			}
		})
	}
	c.ask(&TQ{Q: "start"}, func() {})
	if r.Intn(3) == 0 {
		// several at a time, first
		got := make([][]expr.Type, 4)
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := range got {
			got[g] = make([]expr.Type, len(ts))
			wg.Add(1)
			go func(order []int) {
				defer wg.Done()
				defer func() { recover() }()
				<-start
				for _, i := range order {
					got[g][i] = expr.TypeOf(reflect.Zero(ts[i]).Interface())
				}
			}(r.Perm(len(ts)))
		}
		close(start)
		wg.Wait()
		for g := range got {
			for i, t := range ts {
				desc("concurrently", t, func() expr.Type { return got[g][i] })
			}
		}
	}
	for _, i := range r.Perm(len(ts)) {
		t := ts[i]
		desc("TypeOf", t, func() expr.Type { return expr.TypeOf(reflect.Zero(t).Interface()) })
		if r.Intn(2) == 0 {
			desc("ValueOf", t, func() expr.Type { return expr.ValueOf(reflect.Zero(t).Interface()).Type() })
		}
		if m, ok := made(t, 0); ok {
			desc("constructors", t, func() expr.Type { return m })
		}
	}
	for _, d := range ds {
		if t := d.t; t.Kind() == reflect.Struct {
			st, ok := d.lib.(*expr.StructType)
			for _, nm := range append([]string{"", "Zz"}, c.fieldNames(t)...) {
				q := &TQ{Q: "field", Go: c.goNode(t), Nm: nm}
				c.ask(q, func() {
					if !ok {
						q.St = "nothing"
						return
					}
					if f, found := st.FieldByName(nm); found {
						q.Lib = c.libNode(f.Type)
						if f.Name != nm || q.Lib == 0 {
							q.St = "name"
						}
					}
				})
			}
		}
		if r.Intn(2) == 0 {
			q := &TQ{Q: "str", Go: c.goNode(d.t), R: ""}
			c.ask(q, func() { q.R = d.lib.String() })
		}
	}
	for k := 0; k < 40 && len(ds) > 0; k++ {
		a, b := ds[r.Intn(len(ds))], ds[r.Intn(len(ds))]
		q := &TQ{Q: "eq", Go: c.goNode(a.t), Go2: c.goNode(b.t)}
		c.ask(q, func() { q.R = expr.TypeEqual(a.lib, b.lib) })
	}
	if !loopsOnly {
		c.resolvers()
	}
}

func (c *tcase) fieldNames(t reflect.Type) (r []string) {
	for i := 0; i < t.NumField(); i++ {
		if nm := t.Field(i).Name; nm != "_" {
			r = append(r, nm)
		}
	}
	return r
}

type pkgTypes struct{ t *expr.PackageType }

func (p pkgTypes) TypeResolve(nm string) expr.Type { return p.t.Symbol(nm) }

// resolvers asks rows of resolvers for names.
func (c *tcase) resolvers() {
	r := c.r
	for k := 0; k < 3; k++ {
		values := expr.NewMetaResolver()
		types := expr.NewMetaTypeResolver()
		var one expr.TypeResolver
		var lays [][]TRef
		how := []string{}
		onlyValues := r.Intn(3) == 0
		for n := 1 + r.Intn(3); n > 0; n-- {
			st := c.strct(r.Intn(4), func() reflect.Type {
				for {
					if t := c.some(r.Intn(3)); t.Kind() != reflect.Interface {
						return t
					}
				}
			})
			lay := []TRef{}
			tm := map[string]expr.Type{}
			vm := map[string]expr.Value{}
			for i := 0; i < st.NumField(); i++ {
				f := st.Field(i)
				lay = append(lay, TRef{f.Name, c.goNode(f.Type)})
				tm[f.Name] = expr.TypeOf(reflect.Zero(f.Type).Interface())
				vm[f.Name] = expr.ValueOf(reflect.Zero(f.Type).Interface())
			}
			sort.Slice(lay, func(i, j int) bool { return lay[i].Nm < lay[j].Nm })
			kind := r.Intn(5)
			if onlyValues {
				kind = 3 + r.Intn(2)
			}
			switch kind {
			case 0:
				one = expr.NewStructTypeResolver(reflect.Zero(st).Interface())
				how = append(how, "StructTypeResolver")
			case 1:
				one = expr.NewMapTypeResolver(tm)
				how = append(how, "MapTypeResolver")
			case 2:
				pkg := expr.NewPackage(vm)
				if r.Intn(2) == 0 {
					one = pkgTypes{expr.TypeOf(pkg).(*expr.PackageType)}
				} else {
					one = pkgTypes{expr.ValueOf(pkg).Type().(*expr.PackageType)}
				}
				how = append(how, "package")
			case 3:
				v := expr.NewStructResolver(reflect.Zero(st))
				values.AddResolver(v)
				one = expr.NewTypeResolverAdapter(v)
				how = append(how, "StructResolver")
			case 4:
				v := expr.NewMapResolver(vm)
				values.AddResolver(v)
				one = expr.NewTypeResolverAdapter(v)
				how = append(how, "MapResolver")
			}
			types.AddResolver(one)
			lays = append(lays, lay)
		}
		if onlyValues {
			one = expr.NewTypeResolverAdapter(values)
			how = append(how, "MetaResolver")
		} else if len(lays) > 1 || r.Intn(2) == 0 {
			one = types
			how = append(how, "MetaTypeResolver")
		}
		for _, nm := range symNames {
			if nm == "_" {
				continue
			}
			q := &TQ{Q: "res", How: strings.Join(how, " "), Lays: lays, Nm: nm}
			c.ask(q, func() { q.Lib = c.libNode(one.TypeResolve(nm)) })
		}
	}
}

func newTCase(prof string, seed int64, i int) *tcase {
	return &tcase{id: i, r: rand.New(rand.NewSource(seed*1000003 + int64(i)*7919 + int64(len(prof)))),
		gos: map[reflect.Type]int{}, libs: map[expr.Type]int{}, gonds: []*TNode{}, lnds: []*TNode{}, names: []string{}, qs: []*TQ{}}
}

func typesChild(prof string, seed int64, from, n, step int, side string) {
	limitMemory()
	f, err := os.Create(side)
	if err != nil {
		fatal(err)
	}
	w := bufio.NewWriter(os.Stdout)
	for i := from; i <= n; i += step {
		c := newTCase(prof, seed, i)
		c.note = func() {
			b := asciiJSON(c.json())
			f.WriteAt(append([]byte(fmt.Sprintf("%10d\n", len(b))), b...), 0)
		}
		c.run(prof == "loops")
		w.Write(asciiJSON(c.json()))
		w.WriteByte('\n')
		w.Flush()
	}
}

// --------------------------------------------------------------------- replay

// TTerm is a type made up by the specification.
type TTerm struct {
	K  string
	N  int
	Va bool
	Nm []string
	E  []*TTerm
	O  string
}

func (t *TTerm) Go() reflect.Type {
	var es []reflect.Type
	for _, e := range t.E {
		es = append(es, e.Go())
	}
	switch t.K {
	case "array":
		return reflect.ArrayOf(t.N, es[0])
	case "slice":
		return reflect.SliceOf(es[0])
	case "ptr":
		return reflect.PtrTo(es[0])
	case "map":
		return reflect.MapOf(es[0], es[1])
	case "func":
		return reflect.FuncOf(es[:t.N], es[t.N:], t.Va)
	case "opaque":
		return reflect.TypeOf((chan int)(nil))
	case "struct":
		var fs []reflect.StructField
		for i, e := range es {
			fs = append(fs, reflect.StructField{Name: t.Nm[i], Type: e})
		}
		return reflect.StructOf(fs)
	}
	for _, b := range basics {
		if b.Kind().String() == t.K {
			return b
		}
	}
	panic("type " + t.K)
}

// treplay asks the library about the types that the specification made up: lines
// of a type and what is to be seen along its paths.
func treplay(in, out string) {
	limitMemory()
	fh, err := os.Open(in)
	if err != nil {
		fatal(err)
	}
	defer fh.Close()
	w, err := os.Create(out)
	if err != nil {
		fatal(err)
	}
	defer w.Close()
	bads, asked := 0, 0
	differs := func(term any, what string, want, got any) {
		if bads++; bads <= 20 {
			b, _ := json.Marshal(map[string]any{"term": term, "aspect": what, "want": want, "got": got})
			w.Write(append(b, '\n'))
		}
	}
	guarded := func(term any, f func()) {
		defer func() {
			if e := recover(); e != nil {
				differs(term, "panic", nil, fmt.Sprint(e))
			}
		}()
		f()
	}
	type known struct {
		term *TTerm
		libs []expr.Type
	}
	var all []known
	sc := bufio.NewScanner(fh)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		var l struct {
			T *TTerm
			S []struct {
				P  []int
				K  string
				N  int
				Va bool
				Nm []string
				L  int
				S  string
			}
		}
		if err := json.Unmarshal(sc.Bytes(), &l); err != nil {
			fatal(err)
		}
		t := l.T.Go()
		k := known{term: l.T}
		guarded(l.T, func() { k.libs = append(k.libs, expr.TypeOf(reflect.Zero(t).Interface())) })
		guarded(l.T, func() {
			if m, ok := made(t, 0); ok {
				k.libs = append(k.libs, m)
			}
		})
		for _, lib := range k.libs {
			for _, s := range l.S {
				guarded(l.T, func() {
					asked++
					x := lib
					for _, p := range s.P {
						_, parts := libParts(x)
						if n, _ := libParts(x); n.K == "struct" {
							f, ok := x.(*expr.StructType).FieldByName(n.Nm[p-1])
							if !ok || f.Name != n.Nm[p-1] || !expr.TypeEqual(f.Type, parts[p-1]) {
								differs(l.T, "field", n.Nm[p-1], f.Name)
							}
						}
						x = parts[p-1]
					}
					n, parts := libParts(x)
					want := fmt.Sprint(s.K, s.N, s.Va, s.Nm, s.L, s.S)
					if got := fmt.Sprint(n.K, n.N, n.Va, n.Nm, len(parts), x.String()); got != want {
						differs(l.T, "description", want, got)
					}
				})
			}
		}
		all = append(all, k)
	}
	if len(all) == 0 {
		fatal("no types")
	}
	// by the specification's own account, only the same terms are equal
	rnd := rand.New(rand.NewSource(1))
	eq := func(i, j int) {
		for _, a := range all[i].libs {
			for _, b := range all[j].libs {
				guarded(all[i].term, func() {
					asked++
					if got := expr.TypeEqual(a, b); got != (i == j) {
						differs([]any{all[i].term, all[j].term}, "equal", i == j, got)
					}
				})
			}
		}
	}
	for i := range all {
		for j := range all {
			if len(all) < 300 || i == j || rnd.Intn(len(all)) < 12 {
				eq(i, j)
			}
		}
	}
	fmt.Printf("{\"types\":%d,\"asked\":%d}\n", len(all), asked)
}
