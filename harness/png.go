package main

import (
	"hash/crc32"
	"reflect"

	"github.com/go-restruct/restruct/formats/png"
)

// The PNG format description, as the specification sees it.

func init() {
	goTypes["pngFile"] = reflect.TypeOf(png.File{})
	goTypes["pngChunk"] = reflect.TypeOf(png.Chunk{})
	goTypes["pngIHDR"] = reflect.TypeOf(png.ChunkIHDR{})
	goTypes["pngIDAT"] = reflect.TypeOf(png.ChunkIDAT{})
	goTypes["pngIEND"] = reflect.TypeOf(png.ChunkIEND{})
	goTypes["pngRaw"] = reflect.TypeOf(png.ChunkRaw{})
	goTypes["pngColorType"] = reflect.TypeOf(png.ColorGreyscale)
	u8, u32 := prim("uint8"), prim("uint32")
	named := func(nm string, fs ...*Field) *T {
		t := strct(fs...)
		t.Nm = nm
		namedTypes[nm] = t
		return t
	}
	f := func(nm string, t *T) *Field { return newField(nm, t, t) }
	ct := prim("uint8")
	ct.Nm = "pngColorType"
	ihdr := named("pngIHDR", f("Width", u32), f("Height", u32), f("BitDepth", u8), f("ColorType", ct),
		f("CompressionMethod", u8), f("FilterMethod", u8), f("InterlaceMethod", u8))
	iend := named("pngIEND")
	body := func(nm string) *T {
		d := f("Data", slice(u8))
		d.Sz = dot(id("Parent"), "Len")
		p := f("Parent", refTo("pngChunk"))
		p.Cls = "p"
		return named(nm, p, d)
	}
	idat, raw := body("pngIDAT"), body("pngRaw")
	kase := func(nm string, t *T, c string) *Field {
		k := f(nm, ptr(t))
		if c == "" {
			k.Df = true
		} else {
			k.Ca = strLit(c)
		}
		return k
	}
	data := f("Data", strct(kase("IHDR", ihdr, "IHDR"), kase("IDAT", idat, "IDAT"), kase("IEND", iend, "IEND"), kase("Raw", raw, "")))
	data.Sw = id("Type")
	chunk := named("pngChunk", f("Len", u32), newField("Type", prim("string"), array(4, u8)), data, f("CRC", u32))
	// the compiled type has its own tags, and so its own type for Data
	goTypes["pngData"] = reflect.TypeOf(png.Chunk{}.Data)
	data.T.Nm = "pngData"
	chunks := f("Chunks", slice(chunk))
	chunks.Wh = un("u!", id("_eof"))
	named("pngFile", f("Magic", array(8, u8)), f("Header", chunk), chunks)
	profiles["png"] = derive("all", func(p *profile) { p.pool, p.poolPM, p.plan = []string{"pngFile"}, 1000, "png" })
	profiles["pngchunk"] = derive("all", func(p *profile) { p.pool, p.poolPM, p.plan = []string{"pngChunk"}, 1000, "png" })
}

var pngMagic = []int{0x89, 'P', 'N', 'G', 13, 10, 26, 10}

// pngChunkBytes makes up a well-formed chunk.
func (p *planner) pngChunkBytes(kind string) []int {
	r := p.r
	n := 0
	switch kind {
	case "IHDR":
		n = 13
	case "IEND":
	default:
		n = []int{0, 0, 1, 2, 3, 4, 5, 7, 12, 13, 14, 40}[r.Intn(12)]
		if r.Intn(30) == 0 {
			n = 250 + r.Intn(20)
		}
	}
	b := beBytes(uint64(n), 4)
	b = append(b, byteInts([]byte(kind))...)
	for i := 0; i < n; i++ {
		b = append(b, r.Intn(256))
	}
	crc := crc32.ChecksumIEEE(intBytes(b[4:]))
	if r.Intn(4) == 0 {
		crc = r.Uint32()
	}
	return append(b, beBytes(uint64(crc), 4)...)
}

func (p *planner) pngKind() string {
	r := p.r
	switch r.Intn(8) {
	case 0:
		return "IHDR"
	case 1, 2, 3:
		return "IDAT"
	case 4:
		return "IEND"
	case 5:
		return []string{"PLTE", "tEXt", "iDAT", "IDAt", "ihdr", "IHD", "IDATX"[:4], "IEN", "", "AAAA"}[r.Intn(10)]
	}
	b := make([]byte, 4)
	for i := range b {
		b[i] = byte('A' + r.Intn(26) + 32*r.Intn(2))
	}
	if r.Intn(4) == 0 {
		b[r.Intn(4)] = byte(128 + r.Intn(128))
	}
	return string(b)
}

// png: well-formed files there and back, cut, damaged, and values packed.
func (p *planner) png() {
	r := p.r
	file := func() ([]int, []int) {
		var b, ends []int
		chunk := func(k string) {
			for len(k) < 4 {
				k += "\x00"
			}
			b = append(b, p.pngChunkBytes(k)...)
			ends = append(ends, len(b))
		}
		if p.c.T.Nm == "pngChunk" {
			chunk(p.pngKind())
			return b, ends
		}
		b = append(b, pngMagic...)
		if r.Intn(6) == 0 {
			b[r.Intn(8)] = r.Intn(256)
		}
		chunk([]string{"IHDR", "IHDR", "IHDR", p.pngKind()}[r.Intn(4)])
		for n := r.Intn(6); n > 0; n-- {
			chunk(p.pngKind())
		}
		if r.Intn(2) == 0 {
			chunk("IEND")
		}
		return b, ends
	}
	whole, ends := file()
	for i := 0; i < 3; i++ {
		b, e := file()
		whole, ends = b, e
		var x any
		if i > 0 {
			x = p.dirty()
		}
		u := p.do(&Op{Op: "unpack", Inp: b, X: x, Ord: "b"})
		if u.St != "ok" {
			continue
		}
		k := len(p.c.Ops)
		p.do(&Op{Op: "pack", X: u.Y, Of: k, Ord: "b", Canon: true})
		p.do(&Op{Op: []string{"sizeof", "bitsize"}[r.Intn(2)], X: u.Y, ByVal: r.Intn(2) == 0})
	}
	// cut: at the end of a chunk only whole files remain
	for i := 0; i < 5; i++ {
		n := r.Intn(len(whole))
		if i == 0 {
			n = ends[r.Intn(len(ends))]
		} else if i == 1 {
			n = max(0, ends[r.Intn(len(ends))]-1-r.Intn(5))
		}
		p.do(&Op{Op: "unpack", Inp: append([]int{}, whole[:n]...), Ord: "b"})
	}
	for i := 0; i < 3; i++ {
		in := append([]int{}, whole...)
		if i == 0 && len(in) > 20 {
			e := ends[r.Intn(len(ends))]
			if e+4 <= len(in) { // the length of the next chunk
				copy(in[e:], p.bytes(4))
			}
		}
		for n := r.Intn(2); n >= 0; n-- {
			in[r.Intn(len(in))] = p.bytes(1)[0]
		}
		u := p.do(&Op{Op: "unpack", Inp: in, Ord: "b"})
		if u.St == "ok" {
			p.do(&Op{Op: "pack", X: u.Y, Ord: "b"})
		}
	}
	p.do(&Op{Op: "pack", X: p.dirty(), Ord: "b"})
	u := p.do(&Op{Op: "unpack", Inp: whole, Ord: "l"})
	if u.St == "ok" {
		p.do(&Op{Op: "pack", X: u.Y, Ord: "l"})
	}
}
