package main

var profiles = map[string]profile{
	"layout": {kind: map[string]int{"int": 8, "bool": 2, "float": 2, "complex": 2, "str": 1, "slice": 1, "cstr": 2, "cslice": 3, "fstr": 1, "farr": 2, "array": 4, "ptr": 3, "struct": 4, "structs": 2},
		embed: 150, order: 150, conv: 300, named: 100, skip: 50, minF: 1, maxF: 7, depth: 2, exprDepth: 1},
	// bit fields at all offsets, with everything that can follow them
	"bits": {kind: map[string]int{"int": 2, "bool": 3, "float": 1, "complex": 1, "bits": 14, "xbits": 3, "str": 1, "cstr": 1, "cslice": 2, "fstr": 2, "farr": 1, "array": 2, "ptr": 1, "struct": 2, "structs": 1, "blank": 2},
		order: 150, conv: 250, skip: 80, named: 150, minF: 1, maxF: 8, depth: 1, exprDepth: 1, signedBits: true},
	"order": {kind: map[string]int{"int": 8, "bool": 1, "float": 2, "complex": 1, "bits": 2, "cslice": 2, "farr": 1, "array": 2, "ptr": 2, "struct": 4, "structs": 3, "switch": 1},
		embed: 150, order: 500, conv: 100, named: 150, minF: 2, maxF: 6, depth: 3, exprDepth: 1},
	// the same with custom codecs, byte-aligned
	"ordercu": {kind: map[string]int{"int": 5, "float": 1, "cslice": 1, "array": 1, "ptr": 1, "struct": 4, "structs": 2, "custom": 5, "customs": 2},
		order: 500, minF: 2, maxF: 6, depth: 3, exprDepth: 1},
	"counters": {kind: map[string]int{"int": 2, "bits": 2, "cstr": 6, "cslice": 8, "ignored": 2, "unexp": 2, "blank": 2, "struct": 2, "fstr": 1},
		embed: 200, order: 100, conv: 400, skip: 100, named: 150, minF: 2, maxF: 8, depth: 1, exprDepth: 1},
	"bools": {kind: map[string]int{"bool": 12, "bits": 2, "int": 1, "array": 1, "struct": 1, "cslice": 1},
		order: 200, named: 100, minF: 1, maxF: 8, depth: 1, exprDepth: 1},
	"fixed": {kind: map[string]int{"fstr": 8, "farr": 8, "bits": 3, "int": 3, "array": 3, "struct": 2, "structs": 1},
		order: 100, conv: 300, named: 50, skip: 200, minF: 1, maxF: 6, depth: 2, exprDepth: 1},
	"skips": {kind: map[string]int{"int": 5, "bits": 4, "blank": 6, "ignored": 4, "unexp": 4, "bool": 1, "cstr": 2, "cslice": 2, "fstr": 2, "farr": 1, "array": 2, "ptr": 1, "struct": 2, "float": 1, "switch": 1},
		order: 100, conv: 100, skip: 350, minF: 2, maxF: 9, depth: 2, exprDepth: 1},
	"conds": {kind: map[string]int{"int": 8, "bool": 3, "bits": 3, "float": 1, "cstr": 1, "cslice": 1, "fstr": 1, "farr": 1, "array": 2, "ptr": 2, "struct": 2, "structs": 2, "switch": 1},
		embed: 400, cond: 450, order: 80, skip: 80, named: 150, minF: 2, maxF: 7, depth: 2, exprDepth: 3},
	"sizes": {kind: map[string]int{"int": 8, "bits": 3, "xbits": 6, "sized": 9, "struct": 2, "structs": 1, "bool": 1},
		embed: 400, cond: 60, order: 80, skip: 80, conv: 100, named: 150, minF: 2, maxF: 7, depth: 2, exprDepth: 2},
	"switches": {kind: map[string]int{"int": 7, "bool": 2, "fstr": 1, "switch": 8, "struct": 1, "array": 1, "structs": 1, "bits": 1},
		embed: 400, cond: 80, order: 100, skip: 80, named: 150, minF: 2, maxF: 6, depth: 2, exprDepth: 2},
	"whiles": {kind: map[string]int{"int": 4, "while": 5, "bits": 1, "cstr": 1, "bool": 1, "ptr": 1},
		cond: 60, order: 100, skip: 100, conv: 150, named: 150, minF: 1, maxF: 4, depth: 2, exprDepth: 1},
	"inouts": {kind: map[string]int{"int": 6, "inout": 8, "bool": 1, "struct": 2, "structs": 1, "bits": 1},
		embed: 400, order: 100, skip: 80, conv: 200, named: 150, minF: 2, maxF: 6, depth: 2, exprDepth: 2},
	"customs": {kind: map[string]int{"int": 3, "custom": 8, "customs": 4, "struct": 2, "structs": 2, "cslice": 1, "ptr": 1, "blank": 1, "cstr": 1},
		partial: 250, order: 150, cond: 80, skip: 80, named: 150, minF: 1, maxF: 6, depth: 2, exprDepth: 1},
	// everything at once
	"all": {kind: map[string]int{"int": 8, "bool": 3, "float": 2, "complex": 1, "bits": 4, "xbits": 1, "str": 1, "slice": 1, "cstr": 2, "cslice": 2, "fstr": 2, "farr": 2, "array": 2, "ptr": 2, "struct": 3, "structs": 2, "custom": 1, "blank": 2, "ignored": 1, "unexp": 1, "sized": 2, "while": 1, "switch": 2, "inout": 2},
		embed: 200, order: 150, cond: 100, conv: 200, named: 60, skip: 100, minF: 1, maxF: 9, depth: 2, exprDepth: 2},
}

func derive(from string, f func(*profile)) profile {
	p := profiles[from]
	k := map[string]int{}
	for n, w := range p.kind {
		k[n] = w
	}
	p.kind = k
	f(&p)
	return p
}

func init() {
	all := func(name, plan string, f func(*profile)) {
		profiles[name] = derive("all", func(p *profile) {
			p.plan = plan
			p.signedBits = false
			f(p)
		})
	}
	none := func(*profile) {}
	tops := map[string]int{"struct": 4, "int": 2, "bool": 1, "float": 1, "complex": 1, "str": 1, "slice": 2, "array": 3, "ptr": 2}
	all("cuts", "cuts", func(p *profile) { p.maxF = 6 })
	all("cutsbits", "cuts", func(p *profile) {
		p.kind["bits"], p.kind["bool"], p.kind["blank"], p.kind["fstr"], p.kind["custom"] = 12, 6, 4, 4, 0
		p.maxF, p.skip = 6, 250
	})
	all("fuzz", "fuzz", func(p *profile) { p.kind["cslice"], p.kind["sized"], p.kind["while"] = 5, 5, 2 })
	all("dests", "dests", func(p *profile) {
		p.kind["ptr"], p.kind["farr"], p.kind["while"], p.kind["switch"], p.kind["cslice"], p.kind["ignored"], p.kind["unexp"] = 6, 5, 3, 5, 6, 3, 3
		p.cond = 200
	})
	all("repack", "repack", none)
	profiles["repackfloats"] = derive("layout", func(p *profile) {
		p.kind = map[string]int{"float": 8, "complex": 4, "cslice": 1, "array": 1, "ptr": 1, "struct": 1, "int": 1}
		p.plan = "repack"
	})
	all("repackbits", "repack", func(p *profile) {
		p.kind["bits"], p.kind["bool"], p.kind["fstr"], p.kind["xbits"] = 16, 5, 4, 3
	})
	all("repackflow", "repack", func(p *profile) {
		p.kind["sized"], p.kind["switch"], p.kind["while"], p.kind["inout"], p.kind["custom"] = 5, 5, 3, 4, 3
		p.cond = 250
	})
	all("repackcount", "repack", func(p *profile) { p.kind["cslice"], p.kind["cstr"] = 8, 6 })
	all("byval", "byval", func(p *profile) { p.kind["custom"], p.kind["customs"], p.kind["bits"] = 5, 3, 0; p.kind["xbits"] = 0 })
	all("again", "again", none)
	all("againslices", "again", func(p *profile) {
		p.kind = map[string]int{"cslice": 8, "cstr": 4, "slice": 4, "str": 2, "farr": 6, "fstr": 4, "sized": 4, "bits": 1, "inout": 3, "bool": 2}
		p.maxF = 4
	})
	all("tops", "", func(p *profile) { p.topKinds = tops; p.maxF = 4 })
	all("topsval", "byval", func(p *profile) { p.topKinds = tops; p.maxF = 4 })
	profiles["customtops"] = derive("customs", func(p *profile) {
		p.topKinds = map[string]int{"custom": 3, "struct": 1, "array": 1}
	})
	profiles["customvals"] = derive("customs", func(p *profile) {
		p.topKinds = map[string]int{"custom": 2, "struct": 3, "array": 1, "ptr": 1}
		p.plan = "byval"
	})
	profiles["switchdests"] = derive("switches", func(p *profile) { p.plan = "dests" })
	profiles["whiledests"] = derive("whiles", func(p *profile) { p.plan = "dests" })
	profiles["skipdests"] = derive("skips", func(p *profile) { p.plan = "dests" })
	profiles["counteragain"] = derive("counters", func(p *profile) { p.plan = "again" })
	profiles["inoutagain"] = derive("inouts", func(p *profile) { p.plan = "again" })
	all("hist", "hist", func(p *profile) { p.maxF = 5 })
	all("beta", "beta", func(p *profile) {
		p.off, p.maxF = true, 4
		p.kind["switch"], p.kind["sized"], p.kind["while"], p.kind["inout"], p.kind["custom"] = 3, 3, 2, 3, 3
	})
	all("conc", "conc", func(p *profile) { p.maxF = 5; p.kind["switch"], p.kind["struct"] = 4, 5; p.cond = 200 })
	all("badtags", "badtags", func(p *profile) { p.maxF = 4 })
	profiles["badcounts"] = derive("counters", func(p *profile) { p.plan, p.maxF = "badtags", 5 })
	// a few fields many structs deep
	deep := func(name string, cond int, f func(map[string]int)) {
		profiles[name] = derive("all", func(p *profile) {
			p.kind = map[string]int{"struct": 7, "int": 5, "bool": 3, "structs": 1, "fstr": 1}
			p.minF, p.maxF, p.depth, p.cond, p.named, p.signedBits = 1, 3, 6, cond, 0, false
			f(p.kind)
		})
	}
	deep("deepconds", 400, func(map[string]int) {})
	deep("deepsizes", 0, func(k map[string]int) { k["sized"], k["xbits"] = 6, 2 })
	deep("deepswitches", 50, func(k map[string]int) { k["switch"] = 5 })
	deep("deepwhiles", 50, func(k map[string]int) { k["while"] = 4 })
	deep("deepinouts", 50, func(k map[string]int) { k["inout"] = 6 })
	// one feature among all the others
	mix := func(name string, f func(*profile)) { all(name+"mix", "", f) }
	mix("order", func(p *profile) { p.order, p.kind["while"], p.kind["sized"], p.kind["cslice"] = 500, 4, 4, 4 })
	mix("bits", func(p *profile) {
		p.kind["bits"], p.kind["xbits"], p.kind["bool"], p.kind["custom"] = 14, 3, 5, 0
	})
	mix("counter", func(p *profile) { p.kind["cslice"], p.kind["cstr"] = 9, 6 })
	mix("bool", func(p *profile) { p.kind["bool"] = 16 })
	mix("fixed", func(p *profile) { p.kind["fstr"], p.kind["farr"] = 9, 9 })
	mix("skip", func(p *profile) {
		p.kind["blank"], p.kind["ignored"], p.kind["unexp"], p.skip = 6, 4, 4, 350
	})
	mix("cond", func(p *profile) { p.cond = 450 })
	mix("size", func(p *profile) { p.kind["sized"], p.kind["xbits"] = 9, 6; p.kind["custom"] = 0 })
	mix("switch", func(p *profile) { p.kind["switch"] = 10 })
	mix("while", func(p *profile) { p.kind["while"] = 8 })
	mix("inout", func(p *profile) { p.kind["inout"] = 10 })
	mix("custom", func(p *profile) { p.kind["custom"], p.kind["customs"], p.kind["bits"], p.kind["xbits"] = 9, 4, 0, 0 })
	pool := func(name, letters, plan string) {
		profiles[name] = derive("all", func(p *profile) {
			p.pool, p.poolPM, p.plan = familyPool(letters), 1000, plan
		})
	}
	all("hostile", "hostile", func(p *profile) { p.kind["cslice"], p.kind["sized"], p.kind["while"] = 5, 5, 2; p.signedBits = true })
	profiles["fuzzwhiles"] = derive("whiles", func(p *profile) { p.plan = "fuzz" })
	profiles["fuzzcounters"] = derive("counters", func(p *profile) { p.plan = "fuzz" })
	profiles["longs"] = derive("all", func(p *profile) {
		p.kind = map[string]int{"cslice": 4, "cstr": 2, "slice": 4, "str": 1, "farr": 4, "fstr": 2, "array": 3, "sized": 1, "bits": 1, "while": 1, "int": 2, "struct": 1}
		p.maxF, p.long = 3, 400
	})
	profiles["huge"] = profile{plan: "huge"}
	pool("reffuzz", "AAAAAB", "hostile")
	pool("refs", "AAAAAAAABC", "refs")
	pool("refdests", "AAAAAB", "dests")
	pool("refagain", "AAAAAB", "again")
	for _, n := range []string{"all", "conds", "sizes", "switches", "counters", "layout", "inouts", "refs", "whiles", "skips", "bits", "fuzz"} {
		profiles["tags"+n] = derive(n, func(p *profile) {
			p.raw, p.signedBits = 1, false
			if p.maxF > 6 {
				p.maxF = 6
			}
		})
	}
}
