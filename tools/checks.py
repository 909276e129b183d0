"""Which histories and which observations decide which property."""
import os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# --- known findings: the file is the authority, the check never writes it
FINDINGS = {}
for l in open(os.path.join(HERE, "known-findings")):
    m = re.match(r"finding: property=(\S+) id=(\S+) (.*)$", l.strip())
    if m:
        FINDINGS[m.group(2)] = {"properties": m.group(1).split(","), "what": m.group(3)}

DEAD = {"panic", "hang", "crash"}
FEATURE = {"status", "value", "bytes", "post", "size"} | DEAD


def feature(aspect, op, ops):
    return aspect in FEATURE


def feature_calls(aspect, op, ops):
    return aspect in FEATURE | {"calls", "error"}


def feature_errors(aspect, op, ops):
    return aspect in FEATURE | {"error"}


def only(*aspects):
    return lambda aspect, op, ops: aspect in aspects


def sizes(aspect, op, ops):
    if op["op"] == "unpack":
        return op["of"] > 0 and aspect in {"status"} | DEAD
    return aspect in {"agree", "size", "status"} | DEAD


def cuts(aspect, op, ops):
    return op["op"] == "unpack" and aspect in {"status", "value"} | DEAD


def unpacks(aspect, op, ops):
    return op["op"] == "unpack" and aspect in {"status", "value"} | DEAD


def byval(aspect, op, ops):
    return op["byval"] and aspect in FEATURE or aspect == "agree"


CHECKS = {}
ALPHABETS = ["layout", "bits", "bools", "fixed", "skips", "counts", "conds", "embeds", "sizes", "orders", "switches",
             "whiles", "inouts", "customs", "mix"]


def codec(prop, plan, accept, thorough=12, mc=None, mode="enc", cuts=False, deep=3):
    """plan: quick counts per profile; the thorough tier multiplies them and takes more seeds.
    mc: the alphabet of struct idioms all of whose combinations are tried first."""
    def go(r):
        if mc and r.quick:
            r.mc(mc, accept, length=1, cuts=True, wrap=True)
            if mode == "enc":
                r.mc(mc, accept, length=2, inp=2, cuts=cuts)
            else:
                r.mc(mc, accept, length=1, inp=3, mode=mode)
        elif mc:
            r.mc(mc, accept, length=1, cuts=True, wrap=True)
            r.mc(mc, accept, length=2, cuts=True)
            r.mc(mc, accept, length=2, inp=2, mode="dec")
            r.mc(mc, accept, length=deep)
        if r.quick:
            r.codec(plan, accept, scale=3)
        else:
            r.codec(plan, accept, scale=4, seeds=[r.seed * 1000 + i for i in range(1, 1 + thorough)])
    CHECKS[prop] = go


def into(prop, plan, accept, thorough=12):
    """What is unpacked does not depend on what was there: every encoding of the structs of
    the alphabets is unpacked into every other value of the struct."""
    def go(r):
        for a in ["mix", "switches", "whiles", "customs"] if r.quick else ALPHABETS:
            r.mc(a, accept, length=1, wrap=True, over=True)
        if not r.quick:
            for a in ["mix", "switches", "whiles", "sizes", "customs"]:
                r.mc(a, accept, length=2, over=True)
        if r.quick:
            r.codec(plan, accept, scale=3)
        else:
            r.codec(plan, accept, scale=4, seeds=[r.seed * 1000 + i for i in range(1, 1 + thorough)])
    CHECKS[prop] = go


into("C22", [("dests", 100), ("switchdests", 50), ("whiledests", 50), ("skipdests", 50)], unpacks)

ROUND = [("layout", 45), ("bits", 45), ("all", 60), ("counters", 30), ("conds", 30), ("sizes", 30), ("switches", 30),
         ("customs", 25), ("bools", 25), ("fixed", 25), ("inouts", 25), ("whiles", 25), ("tops", 15), ("longs", 25)]
codec("C01", ROUND, only("roundtrip"), mc="mix", deep=2)
codec("C02", [("repack", 110), ("repackfloats", 100), ("repackbits", 70), ("repackflow", 110), ("repackcount", 70)], only("repack"), mc="mix", mode="dec", deep=2)
codec("C03", [("cuts", 70), ("cutsbits", 60), ("again", 60), ("tops", 40), ("all", 60), ("conds", 30), ("switches", 30), ("inouts", 20), ("longs", 60), ("huge", 8)], sizes, mc="mix", deep=2)
codec("C04", [("layout", 260), ("tops", 80), ("all", 60), ("longs", 60), ("huge", 8)], feature, mc="layout")
codec("C05", [("order", 180), ("ordercu", 120), ("ordermix", 130)], feature, mc="orders")
codec("C06", [("bits", 240), ("sizes", 60), ("bitsmix", 70)], feature, mc="bits")
codec("C07", [("counters", 220), ("counteragain", 100), ("countermix", 80), ("huge", 8)], feature, mc="counts")
codec("C08", [("cuts", 120), ("cutsbits", 110)], cuts, mc="mix", cuts=True, deep=2)
codec("C10", [("bools", 300), ("boolmix", 60)], feature, mc="bools")
codec("C11", [("fixed", 280), ("fixedmix", 80), ("huge", 8)], feature, mc="fixed")
codec("C12", [("skips", 220), ("skipdests", 100), ("skipmix", 80), ("huge", 8)], feature, mc="skips")
codec("C13", [("conds", 300), ("deepconds", 80), ("condmix", 90)], feature, mc="conds")
codec("C14", [("sizes", 380), ("deepsizes", 80), ("sizemix", 80), ("huge", 8)], feature, mc="sizes")
codec("C15", [("switches", 220), ("deepswitches", 80), ("switchdests", 80), ("switchmix", 80)], feature, mc="switches")
codec("C16", [("whiles", 220), ("deepwhiles", 80), ("whiledests", 100), ("whilemix", 80)], feature, mc="whiles")
codec("C17", [("inouts", 240), ("deepinouts", 80), ("inoutagain", 80), ("inoutmix", 80)], feature, mc="inouts")
codec("C19", [("customs", 180), ("customtops", 100), ("ordercu", 80), ("custommix", 80)], feature_calls, mc="customs")
codec("C23", [("again", 100), ("againslices", 100), ("counteragain", 60)], only("post", "alias", "bytes"), mc="mix", deep=2)
codec("C24", [("byval", 100), ("topsval", 60), ("customvals", 100)], byval, mc="mix", deep=2)


def disabled(r):
    """Calls before and after EnableExprBeta; every struct of a unit while expressions are disabled."""
    anything = lambda aspect, op, ops: aspect in FEATURE | {"calls", "input"}
    for alpha in ("conds", "sizes", "switches", "whiles", "inouts", "mix"):
        r.mc(alpha, anything, length=1, cuts=True, wrap=True, off=True)
        if not r.quick or alpha in ("whiles", "inouts"):
            r.mc(alpha, anything, length=2, off=True)
            r.mc(alpha, anything, length=2, inp=2, mode="dec", off=True)
    if r.quick:
        r.codec([("beta", 450)], anything)
    else:
        for i in range(1, 13):
            r.codec([("beta", 1200)], anything, seeds=[r.seed * 1000 + i])


CHECKS["C35"] = disabled


def expr(prop, plan, codecs=(), accept=lambda a, e: True, thorough=12, mc=(), deep=(), cmc=None):
    """Every text of some scopes, evaluations of longer expressions, and tag expressions inside codec histories."""
    def go(r):
        r.xmc(mc if r.quick else deep, accept)
        if cmc:
            r.mc(cmc, feature, length=1, cuts=True, wrap=True)
            r.mc(cmc, feature, length=2, mode="enc" if r.quick else "dec", inp=2)
        if r.quick:
            r.expr(plan, accept, scale=2)
            if codecs:
                r.codec(codecs, feature)
        else:
            for i in range(1, 1 + thorough):
                r.expr(plan, accept, scale=4, seeds=[r.seed * 1000 + i])
                if codecs:
                    r.codec(codecs, feature, scale=2, seeds=[r.seed * 1000 + i])
    CHECKS[prop] = go


expr("C26", [("syntax", 90)], mc=[('syntax', 4), ('groups', 3)], deep=[('syntax', 5), ('groups', 4)])
expr("C27", [("ints", 90)], mc=[('ints', 3)], deep=[('ints', 4)])
expr("C28", [("logic", 90)], mc=[('floats', 3), ('ops', 3)], deep=[('floats', 4), ('ops', 4)])
expr("C29", [("consts", 110)], mc=[('consts', 3)], deep=[('consts', 4)])
expr("C30", [("fuzzsrc", 80), ("consts", 15), ("access", 15), ("logic", 10)], mc=[('text', 3)], deep=[('text', 3), ('access', 4), ('syntax', 5)])
expr("C31", [("access", 110)], codecs=[("conds", 50), ("sizes", 50), ("deepconds", 40), ("deepsizes", 40)], mc=[('paths', 3), ('embeds', 3), ('access', 3)], deep=[('paths', 4), ('embeds', 4), ('access', 4)], cmc="embeds")
expr("C33", [("literals", 110)], mc=[('numbers', 3), ('strings', 3)], deep=[('numbers', 4), ('strings', 4)])
codec("C32", [("bitsfns", 330)], feature)
codec("C18", [("refs", 170), ("refdests", 70), ("refagain", 60)], feature)
codec("C09", [("fuzz", 80), ("hostile", 80), ("reffuzz", 60), ("fuzzwhiles", 40), ("fuzzcounters", 50), ("tops", 30), ("customs", 30)],
      lambda aspect, op, ops: aspect in DEAD or aspect == "input")


def history(r):
    """Operations on several types in turn: every result is what the specification says of that call alone."""
    anything = lambda aspect, op, ops: aspect in FEATURE | {"calls", "input"}
    plan = [("hist", 200), ("again", 40), ("refagain", 30)]
    if r.quick:
        r.codec(plan, anything)
        r.expr([("access", 25), ("consts", 15)], lambda a, e: a in {"again"} | DEAD)
    else:
        for i in range(1, 13):
            s = [r.seed * 1000 + i]
            r.codec(plan, anything, scale=4, seeds=s)
            r.expr([("access", 60), ("consts", 40)], lambda a, e: a in {"again"} | DEAD, seeds=s)


CHECKS["C21"] = history


def concurrent(r):
    """The same by several goroutines under the race detector, and the design of the caches."""
    anything = lambda aspect, op, ops: aspect in FEATURE | {"input"}
    for m in ("Fields", "Types"):
        r.tlc("CachesMC", cfg="Caches" + m + ("Q" if r.quick else ""))
    if r.quick:
        r.codec([("conc", 120)], anything, race=True)
        r.expr([("conc", 80)], lambda a, e: True, race=True)
    else:
        for i in range(1, 13):
            s = [r.seed * 1000 + i]
            r.codec([("conc", 400)], anything, race=True, seeds=s)
            r.expr([("conc", 160)], lambda a, e: True, race=True, seeds=s)


CHECKS["C20"] = concurrent
codec("C34", [("png", 90), ("pngchunk", 30)], lambda aspect, op, ops: aspect in FEATURE | {"repack", "roundtrip"})
codec("C25", [("tagsall", 70), ("tagsconds", 40), ("tagssizes", 40), ("tagsswitches", 40), ("tagscounters", 40), ("tagslayout", 40), ("tagsinouts", 30),
              ("tagsrefs", 20), ("tagsbits", 30), ("tagswhiles", 20), ("tagsskips", 30), ("badtags", 240), ("badcounts", 150)], feature_errors)


def described(r):
    """Every type up to a depth; random and recursive types, TypeEqual, and resolvers."""
    r.tmc(2 if r.quick else 3)
    if r.quick:
        r.types([("types", 900), ("loops", 700)])
        r.types([("types", 60), ("loops", 40)], race=True)
    else:
        for i in range(1, 25):
            r.types([("types", 2000), ("loops", 1500)], seeds=[r.seed * 1000 + i])
            r.types([("types", 100), ("loops", 60)], race=True, seeds=[r.seed * 1000 + i])


CHECKS["C36"] = described
