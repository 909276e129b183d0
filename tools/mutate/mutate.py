#!/usr/bin/env python3
"""Measures the checks with small changes to the library that its tests do not notice.

  mutate.py tests OUT [--workers N] [--every K] [FILE...]
      which changes compile and pass the tests: one JSON object per line
  mutate.py diff SURVIVORS OUT [--workers N] [--seed S] [--scale X]
      for each of these, the histories that come out differently than with the
      unchanged library, at most a few per profile
  mutate.py calls DIR
      all calls and texts that the specification makes up, with what it says of them
  mutate.py replay SURVIVORS OUT --calls DIR
      which changes these calls notice
  mutate.py judge DIFFS OUT
      which of these histories the specification rejects

Works in copies under /tmp/mut, which it removes at the end."""
import json, os, subprocess, sys, shutil, time, threading, queue, re, hashlib, argparse

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
ROOT = "/tmp/mut"
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOCACHE=ROOT + "/cache", GOMAXPROCS="2")


def sh(cmd, cwd, timeout=120, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, "timeout"


def pool(items, work, n):
    q = queue.Queue()
    for x in items:
        q.put(x)

    def run(i):
        while True:
            try:
                x = q.get_nowait()
            except queue.Empty:
                return
            work(i, x)
    ts = [threading.Thread(target=run, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


def setup(i, harness=False):
    d = "%s/w%d" % (ROOT, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    shutil.rmtree(d + "/repo/.git")
    if harness:
        subprocess.run(["cp", "-a", VERIF + "/harness", d + "/harness"], check=True)
        g = d + "/harness/go.mod"
        s = open(g).read().replace("=> /repo", "=> " + d + "/repo")
        open(g, "w").write(s)
    return d


def apply(d, m):
    f = d + "/repo/" + m["file"]
    s = open("/repo/" + m["file"], "rb").read()
    open(f, "wb").write(s[:m["off"]] + m["repl"].encode() + s[m["end"]:])
    return f


def undo(d, m):
    shutil.copy("/repo/" + m["file"], d + "/repo/" + m["file"])


def tests(a):
    os.makedirs(ROOT, exist_ok=True)
    sh(["go", "build", "-o", ROOT + "/mutate", "."], HERE)
    fs = a.files or [f for f in os.listdir("/repo") + ["expr/" + x for x in os.listdir("/repo/expr")]
                     if f.endswith(".go") and not f.endswith("_test.go") and "tokenkind" not in f]
    rc, o = sh([ROOT + "/mutate"] + sorted(fs), "/repo")
    ms = [json.loads(l) for l in o.splitlines()]
    ms = [m for i, m in enumerate(ms) if i % a.every == a.offset]
    done = [0, 0]
    out = open(a.out, "w")
    lock = threading.Lock()
    dirs = [setup(i) for i in range(a.workers)]

    def work(i, m):
        d = dirs[i]
        apply(d, m)
        rc, o = sh(["go", "build", "./..."], d + "/repo", 100)
        if rc == 0:
            rc, o = sh(["go", "test", "-vet=off", "-count=1", "-timeout", "20s", ".", "./expr"], d + "/repo", 60)
        undo(d, m)
        with lock:
            done[0] += 1
            if rc == 0:
                done[1] += 1
                out.write(json.dumps(m) + "\n")
                out.flush()
            if done[0] % 100 == 0:
                print(done, len(ms), flush=True)
    pool(ms, work, a.workers)
    print("survive the tests:", done[1], "of", done[0])


PLAN = [(p, 40) for p in """layout bits order ordercu counters bools fixed skips conds sizes switches whiles inouts customs all cuts cutsbits fuzz dests repack
repackbits repackflow repackcount byval again againslices tops topsval customtops customvals switchdests whiledests skipdests counteragain inoutagain hist hostile
fuzzwhiles fuzzcounters reffuzz refs refdests refagain ordermix bitsmix countermix boolmix fixedmix skipmix condmix sizemix switchmix whilemix inoutmix custommix
longs bitsfns tagsall tagsrefs badtags badcounts""".split()] + [("png", 6)]
XPLAN = [("syntax", 40), ("ints", 40), ("logic", 40), ("consts", 50), ("fuzzsrc", 40), ("access", 50), ("literals", 40)]


def strip(l):
    return re.sub(rb'"msg":"(?:[^"\\]|\\.)*",?', b"", l)


def runs(hx, d, seed, scale, stop=None):
    """The output of every profile."""
    for mode, plan in (("codec", PLAN), ("expr", XPLAN)):
        for p, n in plan:
            f = d + "/out.ndjson"
            if os.path.exists(f):
                os.remove(f)
            rc, o = sh([hx, mode, "-profile", p, "-seed", str(seed), "-n", str(int(n * scale)), "-procs", "2", "-out", f], d, 120)
            yield mode, p, (open(f, "rb").readlines() if os.path.exists(f) else None), o


def diff(a):
    os.makedirs(ROOT, exist_ok=True)
    ms = [json.loads(l) for l in open(a.survivors)]
    have = set()
    if os.path.exists(a.out):
        have = {(m["file"], m["off"], m["end"], m["repl"]) for m in map(json.loads, open(a.out))}
    ms = [m for m in ms if (m["file"], m["off"], m["end"], m["repl"]) not in have]
    d = setup(99, True)
    rc, o = sh(["go", "build", "-o", "hx", "."], d + "/harness")
    assert rc == 0, o
    base = {}
    for mode, p, ls, o in runs(d + "/harness/hx", d, a.seed, a.scale):
        base[p] = [hashlib.md5(strip(l)).digest() for l in ls]
    for mode, p, ls, o in runs(d + "/harness/hx", d, a.seed, a.scale):
        if base[p] != [hashlib.md5(strip(l)).digest() for l in ls]:
            print("profile", p, "is not deterministic")
            base[p] = None
    print("base:", sum(len(b) for b in base.values() if b), "histories", flush=True)
    dirs = [setup(i, True) for i in range(a.workers)]
    out = open(a.out, "a")
    lock = threading.Lock()
    done = [0, 0]

    def work(i, m):
        d = dirs[i]
        apply(d, m)
        rc, o = sh(["go", "build", "-o", "hx", "."], d + "/harness", 200)
        m["diffs"] = []
        m["profiles"] = {}
        if rc == 0:
            total = 0
            for mode, p, ls, o in runs(d + "/harness/hx", d, a.seed, a.scale):
                if base[p] is None:
                    continue
                if ls is None:
                    m["profiles"][p] = "failed: " + o[-300:]
                    total += 20
                else:
                    k = 0
                    for j, l in enumerate(ls):
                        if j >= len(base[p]) or hashlib.md5(strip(l)).digest() != base[p][j]:
                            k += 1
                            if k <= 3:
                                m["diffs"].append([mode, p, l.decode()])
                    if k:
                        m["profiles"][p] = k
                        total += k
                if total > 60 and len(m["profiles"]) > 4:
                    break
        undo(d, m)
        with lock:
            done[0] += 1
            done[1] += bool(m["profiles"])
            out.write(json.dumps(m) + "\n")
            out.flush()
            if done[0] % 20 == 0:
                print(done, len(ms), flush=True)
    pool(ms, work, a.workers)
    print("differ:", done[1], "of", done[0])


ALPHAS = "layout bits bools fixed skips counts conds sizes switches orders whiles inouts customs mix".split()
SCOPES = [("syntax", 4), ("groups", 3), ("ints", 3), ("floats", 3), ("ops", 3), ("consts", 3), ("text", 3), ("paths", 3), ("access", 3), ("numbers", 3), ("strings", 3)]


def calls(a):
    import check
    os.makedirs(a.survivors, exist_ok=True)

    class Gen(check.Run):
        def replay_mc(self, units, cs, accept):
            open(self.to, "w").write("\n".join(units + cs) + "\n")
            return []

        def replay_xmc(self, env, ts, accept):
            open(self.to, "w").write("\n".join(env + ts) + "\n")
            return []
    os.makedirs(ROOT, exist_ok=True)
    r = Gen("C99", "thorough", 1, ROOT)
    r.deadline = time.time() + 1e6
    for x in ALPHAS:
        for k, kw in (("w", dict(length=1, cuts=True, wrap=True)), ("e", dict(length=2)), ("d", dict(length=1, inp=3, mode="dec"))):
            r.to = "%s/mc-%s-%s.ndjson" % (a.survivors, x, k)
            r.mc(x, None, **kw)
    for x, d in SCOPES:
        r.to = "%s/x-%s.ndjson" % (a.survivors, x)
        r.xmc([(x, d)], None)
    print(r.notes)


def replay(a):
    os.makedirs(ROOT, exist_ok=True)
    ms = [json.loads(l) for l in open(a.survivors)]
    have = set()
    if os.path.exists(a.out):
        have = {(m["file"], m["off"], m["end"], m["repl"]) for m in map(json.loads, open(a.out))}
    ms = [m for m in ms if (m["file"], m["off"], m["end"], m["repl"]) not in have]
    files = sorted(os.listdir(a.calls))
    dirs = [setup(i, True) for i in range(a.workers)]
    out = open(a.out, "a")
    lock = threading.Lock()
    done = [0, 0]

    def work(i, m):
        d = dirs[i]
        apply(d, m)
        rc, o = sh(["go", "build", "-o", "hx", "."], d + "/harness", 200)
        m["mc"] = []
        if rc != 0:
            m["mc"] = ["build"]
        else:
            mine = [f for f in files if f.startswith("x-") == m["file"].startswith("expr/")] + [f for f in files if f.startswith("x-") != m["file"].startswith("expr/")]
            for f in mine:
                to = d + "/diff"
                rc, o = sh([d + "/harness/hx", "replay" if f.startswith("mc") else "xreplay", "-side", a.calls + "/" + f, "-out", to], d, 200)
                k = sum(1 for _ in open(to)) if os.path.exists(to) else 0
                if rc != 0 or k:
                    m["mc"].append([f, rc, k])
                    if len(m["mc"]) >= 2 or rc != 0:
                        break
        undo(d, m)
        with lock:
            done[0] += 1
            done[1] += bool(m["mc"])
            out.write(json.dumps(m) + "\n")
            out.flush()
            if done[0] % 50 == 0:
                print(done, len(ms), flush=True)
    pool(ms, work, a.workers)
    print("noticed:", done[1], "of", done[0])


def judge(a):
    ms = [json.loads(l) for l in open(a.survivors)]
    todo = {"codec": [], "expr": []}
    for k, m in enumerate(ms):
        m["judged"] = {}
        n = {}
        for mode, p, l in m["diffs"]:
            n[p] = n.get(p, 0) + 1
            if n[p] <= a.per:
                todo[mode].append((k, p, l))
    for mode, tag, mod in (("codec", "CASE", "CodecTrace"), ("expr", "GROUP", "ExprTrace")):
        for b in range(0, len(todo[mode]), 1200):
            part = todo[mode][b:b + 1200]
            f = ROOT + "/judge.ndjson"
            open(f, "w").write("".join(l for _, _, l in part))
            rc, o = sh(["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx12g", "-cp", JARS, "tlc2.TLC", "-workers", "8", "-metadir", ROOT + "/meta",
                        "-noGenerateSpecTE", "-config", mod + ".cfg", mod + ".tla"], VERIF + "/spec", 3000, dict(ENV, CASES=f))
            seen = 0
            for l in o.splitlines():
                g = re.match(r'<<"%s", "(\d+)", "(.*?)", "(.*)">>$' % tag, l.strip())
                if not g:
                    continue
                seen += 1
                k, p, line = part[int(g.group(1)) - 1]
                r = json.loads(g.group(3).replace('\\"', '"').replace("\\\\", "\\"))
                bad = sorted({x[1] for x in r["bad"] if x[1] != "signext" and not (len(x) > 2 and x[2])})
                ms[k]["judged"].setdefault(p, []).append(bad)
            if seen != len(part):
                print("TLC judged", seen, "of", len(part), o[-1500:])
            print(mode, b, len(todo[mode]), flush=True)
    with open(a.out, "w") as f:
        for m in ms:
            m["caught"] = sorted(p for p, bs in m["judged"].items() if any(bs)) + [p for p, k in m["profiles"].items() if isinstance(k, str)]
            f.write(json.dumps(m) + "\n")
    c = sum(bool(m["caught"]) for m in ms)
    d = sum(bool(m["profiles"]) for m in ms)
    print("of", len(ms), "changes", d, "make a difference,", c, "are caught")


sys.path.insert(0, VERIF)
JARS = re.search(r'JARS = "([^"]*)"', open(VERIF + "/check.py").read())
JARS = JARS.group(1) if JARS else None

ap = argparse.ArgumentParser()
ap.add_argument("cmd")
ap.add_argument("survivors", nargs="?")
ap.add_argument("out", nargs="?")
ap.add_argument("files", nargs="*")
ap.add_argument("--workers", type=int, default=8)
ap.add_argument("--every", type=int, default=1)
ap.add_argument("--offset", type=int, default=0)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--scale", type=float, default=1)
ap.add_argument("--per", type=int, default=1)
ap.add_argument("--calls", default=ROOT + "/calls")
a = ap.parse_intermixed_args()
if a.cmd == "tests":
    a.files = ([a.out] if a.out else []) + a.files
    a.out = a.survivors
    tests(a)
elif a.cmd == "diff":
    diff(a)
elif a.cmd == "calls":
    calls(a)
elif a.cmd == "replay":
    replay(a)
elif a.cmd == "judge":
    judge(a)
