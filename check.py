#!/usr/bin/env python3
"""Decides one property: check.py C01 [--tier quick|thorough] [--replay FILE]

Histories of calls are made on the real library (built from /repo's working tree) and
each is checked by TLC against the TLA+ specification in /verif/spec.
Exit 0: everything explored agrees.  Exit 1: VIOLATION lines.  Exit 2: the check itself failed.
"""
import sys, os, re, json, time, shutil, subprocess, tempfile, argparse, collections

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS, FINDINGS  # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The check could not be carried out."""


def run(cmd, cwd=None, env=None, timeout=None, out=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=out or subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired:
        raise Broken("timeout: " + " ".join(cmd))
    return p.returncode, (p.stdout or b"").decode("utf8", "replace")


class Run:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.t0 = time.time()
        self.deadline = self.t0 + (800 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "780")))
        self.states = self.transitions = self.traces = self.ops = 0
        self.counts = collections.Counter()
        self.samples = []
        self.violations = []   # (what, replay dict)
        self.known = collections.Counter()
        self.assumptions = []
        self.notes = []
        self.quick = tier == "quick"

    # --- building -----------------------------------------------------------
    def build(self, race=False):
        hx = os.path.join(self.scratch, "hx-race" if race else "hx")
        if os.path.exists(hx):
            return hx
        src = os.path.join(self.scratch, "harness")
        if not os.path.exists(src):
            shutil.copytree(os.path.join(HERE, "harness"), src)
        cmd = ["go", "build", "-o", hx] + (["-race"] if race else []) + ["."]
        rc, o = run(cmd, cwd=src, env={"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOSUMDB": "off", "GOTOOLCHAIN": "local"}, timeout=600)
        if rc != 0:
            raise Broken("cannot build the harness:\n" + o)
        return hx

    def hx(self, *args, race=False, timeout=600):
        """Runs the harness.  With the race detector, a race ends the child process
        that it happens in, which the harness records as a call that crashed."""
        env = {"GORACE": "halt_on_error=1 exitcode=66 log_path=" + os.path.join(self.scratch, "race")} if race else None
        return run([self.build(race)] + [str(a) for a in args], cwd=self.scratch, timeout=timeout, env=env)

    def race_report(self):
        for f in sorted(os.listdir(self.scratch)):
            if f.startswith("race."):
                return open(os.path.join(self.scratch, f), errors="replace").read()[:6000]
        return None

    # --- TLC ----------------------------------------------------------------
    def tlc(self, module, env=None, cfg=None, timeout=900, extra=(), heap="10g"):
        meta = tempfile.mkdtemp(dir=self.scratch)
        cmd = ["java", "-Djava.io.tmpdir=" + self.scratch, "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-workers", "8",
               "-metadir", meta, "-noGenerateSpecTE", *extra, "-config", (cfg or module) + ".cfg", module + ".tla"]
        rc, o = run(cmd, cwd=os.path.join(HERE, "spec"), env=env, timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", o)
        if rc != 0 or not m:
            tail = "\n".join(l[:400] for l in o.splitlines() if not l.startswith("<<"))[-3000:]
            raise Broken("TLC failed on %s (exit %d):\n%s" % (module, rc, tail))
        self.transitions += int(m.group(1))
        self.states += int(m.group(2))
        return o

    @staticmethod
    def lines(out, tag):
        """The tuples <<tag, i, id, json>> that a trace specification printed."""
        for l in out.splitlines():
            m = re.match(r'<<"%s", "(\d+)", "(.*?)", "(.*)">>$' % tag, l.strip())
            if m:
                yield int(m.group(1)), m.group(2), json.loads(m.group(3).replace('\\"', '"').replace("\\\\", "\\"))

    # --- codec histories ----------------------------------------------------
    def codec(self, plan, accept, scale=1, mode="codec", race=False, seeds=None):
        """plan: [(profile, count)]; accept(aspect, op, ops) says whether a broken aspect concerns the property."""
        for s in seeds or [self.seed]:
            if self.over():
                return
            batch, n = [], 0
            for prof, cnt in plan:
                cnt = max(1, int(cnt * scale))
                f = os.path.join(self.scratch, "%s-%d.ndjson" % (prof, s))
                rc, o = self.hx(mode, "-profile", prof, "-seed", s, "-n", cnt, "-out", f, race=race, timeout=800)
                if rc != 0:
                    raise Broken("generating %s: %s" % (prof, o[-2000:]))
                with open(f) as g:
                    for l in g:
                        batch.append((prof, s, l))
                os.remove(f)
            for i in range(0, len(batch), 1200):
                if i and self.over():
                    break
                self.judge_codec(batch[i:i + 1200], accept, mode)

    def over(self):
        return time.time() > self.deadline - 100

    def judge_codec(self, batch, accept, mode):
        f = os.path.join(self.scratch, "cases.ndjson")
        with open(f, "w") as g:
            for _, _, l in batch:
                g.write(l)
        out = self.tlc("CodecTrace", env={"CASES": f})
        seen = set()
        for i, cid, r in self.lines(out, "CASE"):
            if i in seen:
                raise Broken("history %d judged twice" % i)
            seen.add(i)
            prof, seed, line = batch[i - 1]
            self.traces += 1
            self.ops += r["ops"]
            for st in r["st"]:
                self.counts["spec:" + st] += 1
            hit = {}
            case = None
            for j, aspect, known in r["bad"]:
                if aspect == "signext":
                    aspect, known = "value", True
                case = case or json.loads(line)
                if not accept(aspect, case["ops"][j - 1], case["ops"]):
                    continue
                if known and "signext" in FINDINGS and self.prop in FINDINGS["signext"]["properties"]:
                    self.known["signext"] += 1
                    continue
                hit.setdefault(j, []).append(aspect)
            if hit:
                j = min(hit)
                self.violation("%s of %s differ from the specification" % ("/".join(hit[j]), case["ops"][j - 1]["op"]),
                               {"kind": mode, "profile": prof, "seed": seed, "id": int(cid), "op": j, "aspects": hit,
                                "go": case["go"], "call": case["ops"][j - 1], "case": case})
            if len(self.samples) < 3 and r["ops"] > 1 and len(line) < 6000:
                case = case or json.loads(line)
                self.samples.append({"profile": prof, "seed": seed, "id": int(cid), "type": case["go"],
                                     "calls": [{"op": o["op"], "order": o["ord"], "in": o["inp"], "status": o["st"], "out": o["out"]} for o in case["ops"][:4]],
                                     "machine_steps": r["steps"], "judgement": "agrees" if not hit else hit})
        if len(seen) != len(batch):
            raise Broken("%d of %d histories were judged" % (len(seen), len(batch)))

    # --- calls made up by the specification ------------------------------------
    def mc(self, alpha, accept, length=2, inp=0, cuts=False, mode="enc", wrap=False, off=False, over=False):
        """Every struct of up to `length' units of an alphabet: TLC checks the properties of
        the specification, and the harness makes every call on the library."""
        if self.over():
            return
        out = self.tlc("CodecMC", env={"ALPHA": alpha, "MODE": mode, "LEN": str(length), "INP": str(inp), "CUTS": "1" if cuts else "0", "WRAP": "1" if wrap else "0", "OFF": "1" if off else "0", "OVER": "1" if over else "0"}, timeout=3600)
        units, calls = set(), set()
        for l in out.splitlines():
            m = re.match(r'<<"(UNIT|CALL)", "(.*)">>$', l)
            if m:
                (units if m.group(1) == "UNIT" else calls).add(m.group(2).replace('\\"', '"').replace("\\\\", "\\"))
        del out
        if not calls:
            raise Broken("the specification made up no calls")
        units = sorted(units)
        for v in self.replay_mc(units, sorted(calls), accept, off):
            self.violation("%s of %s of %s differ from the specification" % (v["aspect"], v["got"]["op"], "+".join(v["call"]["U"])),
                           {"kind": "mc", "off": off, "units": [u for u in units if json.loads(u)["unit"] in v["call"]["U"]], **v})
        self.notes.append("%s/%s%s: all structs of up to %d units%s: %d calls" % (alpha, mode, ", expressions disabled" if off else "", length, (", plain or wrapped" if wrap else "") + (", into every value" if over else ""), len(calls)))

    def replay_mc(self, units, calls, accept, off=False):
        """The differences between the library and what the specification says of the calls."""
        f = os.path.join(self.scratch, "calls.ndjson")
        diff = os.path.join(self.scratch, "differences.ndjson")
        with open(f, "w") as g:
            g.write("\n".join(units + calls) + "\n")
        rc, o = self.hx("replay", "-side", f, "-out", diff, *(["-off"] if off else []), timeout=800)
        bad = []
        if os.path.exists(diff):
            with open(diff) as g:
                bad = [json.loads(l) for l in g]
        if rc != 0:
            if not os.path.exists(diff + ".now"):
                raise Broken("replay failed: " + o[-2000:])
            now = json.load(open(diff + ".now"))
            bad.append({"aspect": "crash", "got": {"op": "pack" if now["m"] == "enc" else "unpack", "of": 1, "byval": False, "st": "crash", "msg": o[-1500:]},
                        "call": {k.upper(): v for k, v in now.items()}})
        else:
            r = json.loads(o.splitlines()[-1])
            self.traces += r["calls"]
            self.ops += r["ops"]
        os.remove(diff)
        out = []
        for v in bad:
            aspects = {v["aspect"]}
            if v.get("phase") == "dec" and len(v["call"]["I"]) and "of" in v["got"]:
                aspects |= {"roundtrip"} if v["aspect"] in ("value", "status") else set()
            if v.get("phase") == "renc" and v["aspect"] in ("bytes", "status"):
                aspects.add("repack")
            if v["aspect"] == "size":
                aspects.add("agree")
            if any(accept(a, v["got"], [v["got"]]) for a in sorted(aspects)):
                out.append(v)
        return out

    # --- evaluations of expressions -------------------------------------------
    def expr(self, plan, accept, scale=1, race=False, seeds=None):
        """plan: [(profile, number of groups)]; accept(aspect, evaluation)."""
        for s in seeds or [self.seed]:
            if self.over():
                return
            batch = []
            for prof, cnt in plan:
                f = os.path.join(self.scratch, "x%s-%d.ndjson" % (prof, s))
                rc, o = self.hx("expr", "-profile", prof, "-seed", s, "-n", max(1, int(cnt * scale)), "-procs", 8, "-out", f, race=race, timeout=800)
                if rc != 0:
                    raise Broken("generating %s: %s" % (prof, o[-2000:]))
                with open(f) as g:
                    batch += [(prof, s, l) for l in g]
                os.remove(f)
            for i in range(0, len(batch), 800):
                if i and self.over():
                    break
                self.judge_expr(batch[i:i + 800], accept)

    def judge_expr(self, batch, accept):
        f = os.path.join(self.scratch, "groups.ndjson")
        with open(f, "w") as g:
            for _, _, l in batch:
                g.write(l)
        out = self.tlc("ExprTrace", env={"CASES": f})
        seen = set()
        for i, gid, r in self.lines(out, "GROUP"):
            if i in seen:
                raise Broken("group %d judged twice" % i)
            seen.add(i)
            prof, seed, line = batch[i - 1]
            self.traces += 1
            self.ops += r["evals"]
            for st, n in r["st"].items():
                self.counts["spec:" + st] += n
            hit = {}
            grp = None
            for k, aspect in r["bad"]:
                grp = grp or json.loads(line)
                if accept(aspect, grp["evals"][k - 1]):
                    hit.setdefault(k, []).append(aspect)
            if hit:
                k = min(hit)
                e = grp["evals"][k - 1]
                self.violation("%s of %s differ from the specification" % ("/".join(hit[k]), json.dumps(e["text"])),
                               {"kind": "expr", "profile": prof, "seed": seed, "id": int(gid), "eval": k, "aspects": hit,
                                "expression": e["text"], "observed": e, "environment": grp["envs"][e["e"] - 1]})
            if len(self.samples) < 3:
                grp = grp or json.loads(line)
                self.samples.append({"profile": prof, "seed": seed, "id": int(gid),
                                     "evaluations": [{"text": e["text"], "status": e["st"], "type": e["g"], "value": e["v"]} for e in grp["evals"][:8]],
                                     "judgement": "agrees" if not hit else hit})
        if len(seen) != len(batch):
            raise Broken("%d of %d groups were judged" % (len(seen), len(batch)))

    # --- texts made up by the specification -----------------------------------
    def xmc(self, scopes, accept):
        """scopes: [(name, depth)]: TLC finds the meaning of every text of the scope, the library evaluates it."""
        for scope, depth in scopes:
            if self.over():
                return
            out = self.tlc("ExprMC", env={"SCOPE": scope, "DEPTH": str(depth)}, timeout=3600)
            env, texts = [], set()
            for l in out.splitlines():
                m = re.match(r'<<"(ENV|TEXT)", "(.*)">>$', l)
                if m:
                    x = re.sub(r"\\(.)", r"\1", m.group(2))
                    if m.group(1) == "ENV":
                        env.append(x)
                    else:
                        texts.add(x)
            del out
            if len(env) != 1 or not texts:
                raise Broken("the specification made up no texts")
            for v in self.replay_xmc(env, sorted(texts), accept):
                self.violation("%s of %s differ from the specification" % (v["aspect"], json.dumps(v["text"])), {"kind": "xmc", "env": env, **v})
            self.notes.append("%s: all texts up to depth %d: %d" % (scope, depth, len(texts)))

    def replay_xmc(self, env, texts, accept):
        bad = []
        while texts:
            f = os.path.join(self.scratch, "texts.ndjson")
            diff = os.path.join(self.scratch, "differences.ndjson")
            with open(f, "w") as g:
                g.write("\n".join(env + texts) + "\n")
            rc, o = self.hx("xreplay", "-side", f, "-out", diff, timeout=800)
            if os.path.exists(diff):
                with open(diff) as g:
                    bad += [json.loads(l) for l in g]
                os.remove(diff)
            if rc == 0:
                n = json.loads(o.splitlines()[-1])["texts"]
                self.traces += n
                self.ops += 2 * n
                break
            # this text killed the process
            if not os.path.exists(diff + ".now"):
                raise Broken("replay failed: " + o[-2000:])
            with open(diff + ".now") as g:
                n = int(g.readline())
                t = g.read(n)
            w = json.loads(t)
            bad.append({"aspect": "crash", "text": "".join(map(chr, w["c"])), "want": {k.upper(): x for k, x in w.items()}, "got": {"st": "crash", "msg": o[-1500:]}})
            texts = texts[texts.index(t) + 1:] if t in texts and len(bad) < 10 else []
        return [v for v in bad if accept(v["aspect"], v["got"])]

    # --- descriptions of types ------------------------------------------------
    def types(self, plan, scale=1, race=False, seeds=None):
        """plan: [(profile, number of cases)]"""
        for s in seeds or [self.seed]:
            if self.over():
                return
            batch = []
            for prof, cnt in plan:
                f = os.path.join(self.scratch, "t%s-%d.ndjson" % (prof, s))
                rc, o = self.hx("types", "-profile", prof, "-seed", s, "-n", max(1, int(cnt * scale)), "-procs", 8, "-out", f, race=race, timeout=800)
                if rc != 0:
                    raise Broken("asking about %s: %s" % (prof, o[-2000:]))
                with open(f) as g:
                    batch += [(prof, s, l) for l in g]
                os.remove(f)
            for i in range(0, len(batch), 2000):
                if i and self.over():
                    break
                self.judge_types(batch[i:i + 2000])

    def judge_types(self, batch):
        f = os.path.join(self.scratch, "types.ndjson")
        with open(f, "w") as g:
            for _, _, l in batch:
                g.write(l)
        out = self.tlc("TypesTrace", env={"CASES": f})
        seen = set()
        for i, cid, r in self.lines(out, "TYPES"):
            if i in seen:
                raise Broken("case %d judged twice" % i)
            seen.add(i)
            prof, seed, line = batch[i - 1]
            self.traces += 1
            self.ops += r["asked"]
            self.counts["questions"] += r["asked"]
            if r["bad"]:
                case = json.loads(line)
                k = r["bad"][0][0]
                q = case["qs"][k - 1]
                self.violation("answer to %s %s differs from the specification" % (q["q"], q["how"]),
                               {"kind": "types", "profile": prof, "seed": seed, "id": int(cid), "question": q, "bad": r["bad"][:50], "case": case})
            elif len(self.samples) < 3 and len(line) < 20000:
                case = json.loads(line)
                self.samples.append({"profile": prof, "seed": seed, "id": int(cid), "types": case["types"], "questions": r["asked"], "some": case["qs"][1:4]})
        if len(seen) != len(batch):
            raise Broken("%d of %d cases were judged" % (len(seen), len(batch)))

    def tmc(self, deep):
        """Every type up to a depth, and the laws of sameness on all graphs of two nodes."""
        if self.over():
            return
        self.tlc("TypesMC", env={"WHAT": "graphs", "DEEP": "1"})
        out = self.tlc("TypesMC", env={"WHAT": "types", "DEEP": str(deep)}, timeout=3600)
        types = sorted({m.group(1).replace('\\"', '"').replace("\\\\", "\\") for m in (re.match(r'<<"TYPE", "(.*)">>$', l) for l in out.splitlines()) if m})
        if not types:
            raise Broken("the specification made up no types")
        for v in self.replay_tmc(types):
            self.violation("%s of a type differs from the specification" % v["aspect"], {"kind": "tmc", "types": types if v["aspect"] == "equal" else [t for t in types if json.loads(t)["t"] == {k.lower(): x for k, x in v["term"].items()}], **v})
        self.notes.append("all types up to depth %d: %d" % (deep, len(types)))

    def replay_tmc(self, types):
        f = os.path.join(self.scratch, "typelist.ndjson")
        diff = os.path.join(self.scratch, "differences.ndjson")
        with open(f, "w") as g:
            g.write("\n".join(types) + "\n")
        rc, o = self.hx("treplay", "-side", f, "-out", diff, timeout=800)
        if rc != 0:
            if "goroutine " not in o:
                raise Broken("replay failed: " + o[-2000:])
            return [{"aspect": "crash", "term": {}, "msg": o[-1500:]}]
        r = json.loads(o.splitlines()[-1])
        self.traces += r["types"]
        self.ops += r["asked"]
        with open(diff) as g:
            bad = [json.loads(l) for l in g]
        os.remove(diff)
        return bad

    # --- results ------------------------------------------------------------
    def violation(self, what, replay):
        self.violations.append(what)
        if len(self.violations) <= 5:
            d = os.path.join(HERE, "out")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
            replay = {**replay, "property": self.prop, "what": what}
            if self.race_report():
                replay["race"] = self.race_report()
            with open(p, "w") as f:
                json.dump(replay, f, indent=1)
            print("VIOLATION property=%s replay=%s  (%s)" % (self.prop, p, what), flush=True)

    def finish(self, level="model_checking"):
        for k, n in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s (met %d times)" % (self.prop, FINDINGS[k]["what"], n))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   calls_validated=self.ops, samples=self.samples or [{"note": "no case kept"}],
                   outcomes=dict(self.counts), known_findings_met=dict(self.known))
        if self.notes:
            cov["notes"] = self.notes
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d histories, %d calls, %d states, %d violations, %.1f s" %
              (self.prop, self.tier, self.traces, self.ops, self.states, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = "thorough" if a.thorough else a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    r = None
    try:
        r = Run(a.prop, tier, seed, scratch)
        if a.replay:
            rep = json.load(open(a.replay))
            if rep["kind"] == "mc":
                call = {k.lower(): v for k, v in rep["call"].items()}
                bad = r.replay_mc(rep["units"], [json.dumps(call)], lambda *_: True, rep.get("off", False))
                for v in bad:
                    r.violation("%s of %s differ from the specification" % (v["aspect"], v["got"]["op"]), dict(rep, **v))
                return 1 if bad else 0
            if rep["kind"] == "xmc":
                bad = r.replay_xmc(rep["env"], [json.dumps({k.lower(): x for k, x in rep["want"].items()})], lambda *_: True)
                for v in bad:
                    r.violation("%s of %s differ from the specification" % (v["aspect"], json.dumps(v["text"])), dict(rep, **v))
                return 1 if bad else 0
            if rep["kind"] == "tmc":
                bad = r.replay_tmc(rep["types"])
                for v in bad[:5]:
                    r.violation("%s of a type differs from the specification" % v["aspect"], {"kind": "tmc", "types": rep["types"], **v})
                return 1 if bad else 0
            f = os.path.join(scratch, "replay.ndjson")
            rc, o = r.hx("rerun", "-profile", rep["profile"], "-seed", rep["seed"], "-from", rep["id"], "-out", f, race="race" in rep)
            if rc != 0:
                raise Broken(o)
            if rep["kind"] == "types":
                r.judge_types([(rep["profile"], rep["seed"], open(f).read())])
                return 1 if r.violations else 0
            if rep["kind"] == "expr":
                r.judge_expr([(rep["profile"], rep["seed"], open(f).read())], lambda *_: True)
                return 1 if r.violations else 0
            r.judge_codec([(rep["profile"], rep["seed"], open(f).read())], lambda *_: True, rep["kind"])
            return 1 if r.violations else 0
        CHECKS[a.prop](r)
        if r.traces == 0 and not r.violations:
            raise Broken("nothing was checked")
        return r.finish()
    except Broken as e:
        print("ERROR %s: %s" % (a.prop, e), file=sys.stderr)
        if r and r.violations and not a.replay:
            # what was found before stands
            r.notes.append("the run ended early: " + str(e)[:300])
            return r.finish()
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
