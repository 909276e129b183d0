package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"unsafe"
)

// Values in the specification's vocabulary: scalars, strings and []byte are
// []int of bytes, everything composite is []any.

func beBytes(u uint64, w int) []int {
	b := make([]int, w)
	for i := w - 1; i >= 0; i-- {
		b[i] = int(u & 255)
		u >>= 8
	}
	return b
}
func beVal(b []int) uint64 {
	u := uint64(0)
	for _, x := range b {
		u = u<<8 | uint64(x)
	}
	return u
}
func byteInts(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}
func intBytes(v []int) []byte {
	r := make([]byte, len(v))
	for i, x := range v {
		r[i] = byte(x)
	}
	return r
}

type frameRef struct {
	typ reflect.Type
	ptr unsafe.Pointer
}

// encl are the enclosing structs during a traversal, outermost first.
type encl []frameRef

// open makes unexported fields accessible.
func open(v reflect.Value) reflect.Value {
	if v.CanInterface() || !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func (t *T) get(v reflect.Value, st encl) any {
	switch t.K {
	case "bool":
		if v.Bool() {
			return []int{1}
		}
		return []int{0}
	case "int":
		return beBytes(uint64(v.Int()), t.W)
	case "uint":
		return beBytes(v.Uint(), t.W)
	case "float":
		return fbytes(v.Float(), v, t.W)
	case "complex":
		c := v.Complex()
		if t.W == 8 {
			// the two float32 halves, bit for bit
			p := (*[2]uint32)(addrOf(v))
			return append(beBytes(uint64(p[0]), 4), beBytes(uint64(p[1]), 4)...)
		}
		return append(beBytes(math.Float64bits(real(c)), 8), beBytes(math.Float64bits(imag(c)), 8)...)
	case "str":
		return byteInts([]byte(v.String()))
	case "slice", "array":
		r := make([]any, v.Len())
		for i := range r {
			r[i] = t.E[0].get(v.Index(i), st)
		}
		return r
	case "ptr":
		if v.IsNil() {
			return []any{}
		}
		return []any{t.E[0].get(v.Elem(), st)}
	case "ref":
		if v.IsNil() {
			return []int{0}
		}
		for i := len(st) - 1; i >= 0; i-- {
			if st[i].typ == v.Type().Elem() && st[i].ptr == v.UnsafePointer() {
				return []int{i + 1}
			}
		}
		return []int{99}
	case "struct":
		var me encl
		if v.CanAddr() {
			me = append(append(me, st...), frameRef{v.Type(), unsafe.Pointer(v.UnsafeAddr())})
		} else {
			me = append(append(me, st...), frameRef{v.Type(), nil})
		}
		return t.getFields(v, me)
	case "fn":
		return []any{}
	case "map":
		r := []any{}
		it := v.MapRange()
		for it.Next() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(it.Value())
			r = append(r, []any{t.E[0].get(it.Key(), st), t.E[1].get(e, st)})
		}
		sortEntries(r)
		return r
	case "cu":
		switch x := v.Interface().(type) {
		case CuP:
			return x.cuBody.get()
		case CuV:
			return x.cuBody.get()
		case CuB:
			return x.cuBody.get()
		case CuR:
			return x.p.get()
		case CuN:
			return beBytes(uint64(x), 2)
		case CuA:
			return byteInts(x[:])
		case CuS:
			return byteInts(x)
		}
	}
	panic(fmt.Sprintf("get %s %v", t.K, v.Type()))
}

// The struct of a switch is not an enclosing struct of its cases.
func (t *T) getFields(v reflect.Value, me encl) any {
	r := make([]any, len(t.F))
	for i, f := range t.F {
		if f.Sw != nil && f.T.K == "struct" {
			r[i] = f.T.getFields(open(v.Field(i)), me)
		} else {
			r[i] = f.T.get(open(v.Field(i)), me)
		}
	}
	return r
}
func (t *T) setFields(v reflect.Value, x any, me encl) {
	a := anys(x)
	for i, f := range t.F {
		if f.Sw != nil && f.T.K == "struct" {
			f.T.setFields(open(v.Field(i)), a[i], me)
		} else {
			f.T.set(open(v.Field(i)), a[i], me)
		}
	}
}

func sortEntries(r []any) {
	sort.Slice(r, func(i, j int) bool { return fmt.Sprint(r[i].([]any)[0]) < fmt.Sprint(r[j].([]any)[0]) })
}

func addrOf(v reflect.Value) unsafe.Pointer {
	if v.CanAddr() {
		return unsafe.Pointer(v.UnsafeAddr())
	}
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p.UnsafePointer()
}

func fbytes(f float64, v reflect.Value, w int) []int {
	if w == 4 {
		return beBytes(uint64(*(*uint32)(addrOf(v))), 4)
	}
	return beBytes(math.Float64bits(f), 8)
}

func (c *cuBody) get() any {
	return []any{byteInts(c.D), int(c.Ord), int(c.Rem)}
}

func ints(x any) []int {
	switch x := x.(type) {
	case []int:
		return x
	case []any:
		r := make([]int, len(x))
		for i, e := range x {
			switch e := e.(type) {
			case int:
				r[i] = e
			case float64:
				r[i] = int(e)
			}
		}
		return r
	}
	panic(fmt.Sprintf("ints %T", x))
}
func anys(x any) []any {
	switch x := x.(type) {
	case []any:
		return x
	case []int:
		r := make([]any, len(x))
		for i, e := range x {
			r[i] = e
		}
		return r
	}
	panic(fmt.Sprintf("anys %T", x))
}

// set stores value x into v (addressable).  References are set to nil or, for
// a level, to that enclosing struct; 99 makes up a detached struct.
func (t *T) set(v reflect.Value, x any, st encl) {
	switch t.K {
	case "bool":
		v.SetBool(ints(x)[0] != 0)
	case "int":
		b := ints(x)
		u := beVal(b)
		sh := uint(64 - 8*len(b))
		v.SetInt(int64(u<<sh) >> sh)
	case "uint":
		v.SetUint(beVal(ints(x)))
	case "float":
		if t.W == 4 {
			*(*uint32)(addrOf(v)) = uint32(beVal(ints(x)))
		} else {
			v.SetFloat(math.Float64frombits(beVal(ints(x))))
		}
	case "complex":
		b := ints(x)
		if t.W == 8 {
			p := (*[2]uint32)(addrOf(v))
			p[0], p[1] = uint32(beVal(b[:4])), uint32(beVal(b[4:]))
		} else {
			v.SetComplex(complex(math.Float64frombits(beVal(b[:8])), math.Float64frombits(beVal(b[8:]))))
		}
	case "str":
		v.SetString(string(intBytes(ints(x))))
	case "slice":
		a := anys(x)
		v.Set(reflect.MakeSlice(v.Type(), len(a), len(a)))
		for i := range a {
			t.E[0].set(v.Index(i), a[i], st)
		}
	case "array":
		a := anys(x)
		for i := range a {
			t.E[0].set(v.Index(i), a[i], st)
		}
	case "ptr":
		a := anys(x)
		if len(a) == 0 {
			v.Set(reflect.Zero(v.Type()))
		} else {
			v.Set(reflect.New(v.Type().Elem()))
			t.E[0].set(v.Elem(), a[0], st)
		}
	case "ref":
		l := ints(x)[0]
		switch {
		case l == 0:
			v.Set(reflect.Zero(v.Type()))
		case l <= len(st):
			v.Set(reflect.NewAt(st[l-1].typ, st[l-1].ptr))
		default:
			v.Set(reflect.New(v.Type().Elem()))
		}
	case "struct":
		me := append(append(encl{}, st...), frameRef{v.Type(), unsafe.Pointer(v.UnsafeAddr())})
		t.setFields(v, x, me)
	case "fn":
		v.Set(reflect.ValueOf(testFns[t.Nm]))
	case "map":
		a := anys(x)
		v.Set(reflect.MakeMap(v.Type()))
		for _, kv := range a {
			k := reflect.New(v.Type().Key()).Elem()
			e := reflect.New(v.Type().Elem()).Elem()
			t.E[0].set(k, anys(kv)[0], st)
			t.E[1].set(e, anys(kv)[1], st)
			v.SetMapIndex(k, e)
		}
	case "cu":
		switch p := v.Addr().Interface().(type) {
		case *CuP:
			p.cuBody.set(x)
		case *CuV:
			p.cuBody.set(x)
		case *CuB:
			p.cuBody.set(x)
		case *CuR:
			p.p = &cuBody{}
			p.p.set(x)
		case *CuN:
			*p = CuN(beVal(ints(x)))
		case *CuA:
			copy(p[:], intBytes(ints(x)))
		case *CuS:
			*p = intBytes(ints(x))
		}
	default:
		panic("set " + t.K)
	}
}
func (c *cuBody) set(x any) {
	a := anys(x)
	c.D = intBytes(ints(a[0]))
	o := ints([]any{a[1], a[2]})
	c.Ord, c.Rem = uint8(o[0]), uint8(o[1])
}

// fresh returns a new zero value of t, addressable.
func (t *T) fresh() reflect.Value {
	v := reflect.New(t.Go()).Elem()
	if t.Nm == "CuR" {
		v.Set(reflect.ValueOf(CuR{&cuBody{}}))
	}
	return v
}
