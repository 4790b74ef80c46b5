#!/usr/bin/env python3
"""Deterministic simulation checks for mregex.

  check.py C01 [--tier quick|thorough]    builds the simulator against /repo and searches; see DESIGN.md
  check.py replay FILE                    rebuilds from /repo and replays one violation (exit 1 if it reproduces)
  check.py determinism C01 [N]            runs N runs of several seeds in different processes and compares event logs

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: the check itself failed.
"""
import atexit, concurrent.futures, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
sys.dont_write_bytecode = True
import corpus
from corpus import FLAG_NAMES

REPO = os.environ.get("MREGEX_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
JOBS = int(os.environ.get("SIM_JOBS", "8"))
CXX = ["g++", "-std=c++20", "-w", "-D_GLIBCXX_ASSERTIONS", "-fno-strict-aliasing", "-ftemplate-depth=2000", "-I" + SIM, "-I" + os.path.join(REPO, "include")]
KINDS = ["FWD", "BID", "RA", "CONT", "PTR", "REV", "STR"]

# Per property: what is instantiated, which patterns, how many runs.
#   tags: curated patterns whose tags meet this set ("*": all);  kinds: how many iterator kinds per pattern
CONF = {
    "C01": dict(macros=["SIM_CALL=1"], wl="wl_c01.cpp", tags="*", random=60, kinds=3, api=True, runs=600000, xpr=True, composed=True),
    "C02": dict(macros=["SIM_LAZY=2"], wl="wl_c02.cpp", tags="*", random=40, kinds=2, runs=400000, xpr=True),
    "C04": dict(macros=["SIM_CALL=1", "SIM_LAZY=1"], wl="wl_c04.cpp", tags="*", random=40, kinds=3, runs=400000, xpr=True),
    "C03": dict(macros=["SIM_LAZY=2"], wl="wl_c03.cpp", tags="l", random=40, kinds=2, runs=400000, xpr=True),
    "C05": dict(macros=["SIM_CALL=1", "SIM_LAZY=2", "SIM_RES=9"], wl="wl_c05.cpp", tags="gn", curated_max=70, random=12, kinds=2, runs=150000, xpr=True),
    "C06": dict(macros=["SIM_RES=9"], wl="wl_c06.cpp", tags="gn", curated_max=80, random=12, kinds=2, runs=150000, xpr=True),
    "C07": dict(macros=["SIM_RES=5"], wl="wl_c07.cpp", tags="gn", curated_max=80, random=12, kinds=2, runs=200000, xpr=True),
    "C08": dict(macros=["SIM_RES=3"], wl="wl_c08.cpp", tags="gn", curated_max=80, random=12, kinds=2, runs=200000, xpr=True),
    "C09": dict(macros=["SIM_CALL=1", "SIM_LAZY=2"], wl="wl_c09.cpp", tags="*", random=40, kinds=2, runs=300000, xpr=True),
    "C10": dict(macros=["SIM_LAZY=1", "SIM_RES=11"], wl="wl_c10.cpp", tags="*", curated_max=150, random=20, kinds=2, raw=False, runs=200000, xpr=True),
    "C15": dict(macros=["SIM_LAZY=2", "SIM_RES=16"], wl="wl_c15.cpp", tags="*", curated_max=110, random=16, kinds=2, runs=200000, xpr=True),
    "C16": dict(macros=["SIM_CALL=1", "SIM_LAZY=2"], wl="wl_c16.cpp", tags="*", random=40, kinds=2, runs=300000, xpr=True),
}

class Broken(Exception):
    pass

class Rejected(Broken):
    """What a user writes to do what the property speaks of does not compile any more, though the library itself does."""
    def __init__(self, what, log_):
        Broken.__init__(self, what + ": " + open(log_, errors="replace").read()[:3000])
        self.log = log_

def log(*a):
    print(*a, flush=True)

# ------------------------------------------------------------------------------------------------ corpus
def c_string(b):
    out = []
    for ch in b:
        if 0x20 <= ch < 0x7f and chr(ch) not in '"\\?':
            out.append(chr(ch))
        else:
            out.append("\\%03o" % ch)
    return '"' + "".join(out) + '"'

def flag_list(fl):
    return "".join(", meta::regex_flag::" + n for bit, n in sorted(FLAG_NAMES.items()) if fl & bit)

def group_names(p):
    """[(number, name)] of named groups, from the pattern text (escapes and sets skipped)."""
    out, n, i, in_set = [], 0, 0, False
    while i < len(p):
        c = p[i]
        if c == "\\":
            i += 2
            continue
        if in_set:
            in_set = c != "]"
        elif c == "[":
            in_set = True
            j = i + 1
            if p[j:j + 1] == "^":
                j += 1
            # '[]' and '[^]' are complete sets in this syntax
            i = j - 1
        elif c == "(":
            if p[i + 1:i + 2] != "?":
                n += 1
            elif p[i + 2:i + 3] == "<" and p[i + 3:i + 4] not in ("=", "!"):
                n += 1
                out.append((n, p[i + 3:p.index(">", i)]))
        i += 1
    return out

class Pat:
    def __init__(self, text, flags, tags, expr=None):
        self.text, self.flags, self.tags, self.expr = text, flags, tags, expr
        self.curated = "r" not in tags
        self.kinds = []
        self.api = False
    def key(self):
        return "%d:%s:%s" % (self.flags, "e" if self.expr else "s", escape(self.text.encode("latin1")))

def escape(b):
    """As sim::escape."""
    return "".join(chr(c) if 0x21 <= c < 0x7f and chr(c) not in "\\%" else "\\x%02x" % c for c in b)
def unescape(s):
    return re.sub(r"\\x([0-9a-f]{2})", lambda m: chr(int(m.group(1), 16)), s)

def no_fwd(p):
    return "h" in p.tags or corpus.uses_bidi(p.text)

def assign_kinds(pats, per, forced=None, use_raw=True):
    inst = ["FWD", "RA", "BID", "CONT", "REV"]
    raw = ["PTR", "STR"]
    for i, p in enumerate(pats):
        if forced:
            p.kinds = [k for k in forced if not (k == "FWD" and no_fwd(p))] or ["BID"]
            continue
        pool = [k for k in inst if not (k == "FWD" and no_fwd(p))]
        rot = i * 2 % len(pool)
        pool = pool[rot:] + pool[:rot]
        if not use_raw:
            p.kinds = pool[:per]
        elif per >= 7:
            p.kinds = pool + raw
        else:
            p.kinds = [raw[(i // 3) % 2]] + pool[:per - 1]

def select(prop, tier, seed):
    c = CONF[prop]
    tags = c["tags"]
    cur = [Pat(*x) for x in corpus.CURATED if tags == "*" or set(x[2]) & set(tags)]
    if tier == "quick" and c.get("curated_max") and len(cur) > c["curated_max"]:
        import random
        core = [p for p in cur if "c" in p.tags]
        rest = [p for p in cur if "c" not in p.tags]
        # a different slice for every seed
        random.Random("%s/%s" % (prop, seed)).shuffle(rest)
        cur = core + rest[:max(0, c["curated_max"] - len(core))]
    if c.get("xpr"):
        cur += [Pat(t, f, g, e) for e, t, f, g in corpus.XPR if tags == "*" or set(g) & set(tags)]
    if c.get("composed") or tier == "thorough":
        have = {(p.text, p.flags) for p in cur}
        cur += [p for p in (Pat(*x) for x in corpus.composed()) if (p.text, p.flags) not in have]
    n = c["random"] * (8 if tier == "thorough" else 1)
    rnd = [Pat(*x) for x in corpus.random_patterns(seed, n, prop)]
    have = {(p.text, p.flags) for p in cur}
    pats = cur + [p for p in rnd if (p.text, p.flags) not in have]
    assign_kinds(pats, c["kinds"] if tier == "quick" else 7, c.get("forced_kinds"), c.get("raw", True))
    for i, p in enumerate(pats):
        p.api = c.get("api", False) and (p.flags % 3 == 0 or "n" in p.tags)
    return pats

def tu_source(pats):
    s = ['#include "ops.hpp"\n']
    for i, p in enumerate(pats):
        if p.expr:
            s.append("namespace sim_x%d { using namespace meta::xpr; using namespace meta::xpr::operators; using meta::match_mode; inline constexpr auto e = %s; }\n" % (i, p.expr))
    s.append("namespace {\nusing namespace sim;\n")
    for i, p in enumerate(pats):
        if p.expr:
            base = "std::remove_const_t<decltype(sim_x%d::e)>" % i
            rt = "typename %s::template add_flags<%s>" % (base, flag_list(p.flags)[2:]) if p.flags else base
        else:
            # the same regular expression, its flags given in different ways
            text, flags, way = c_string(p.text.encode("latin1")), flag_list(p.flags), len(p.text) % 4
            if way == 1:
                rt = "typename meta::regex<%s>::template add_flags<%s>" % (text, flags[2:])
            elif way == 2:
                rt = "typename meta::regex<%s, meta::regex_flag::icase, meta::regex_flag::ungreedy>::clear_flags::template add_flags<%s>" % (text, flags[2:])
            elif way == 3 and flags:
                first, *rest = flags[2:].split(", ")
                rt = "typename meta::regex<%s, %s>::template add_flags<%s>" % (text, first, ", ".join(rest))
            else:
                rt = "meta::regex<%s%s>" % (text, flags)
        names = group_names(p.text)
        nm = "NoNames"
        if names:
            nm = "N%d" % i
            s.append("struct N%d { static constexpr char const *name_of(int g) { %s return \"\"; } template<typename Res, typename F> static void each(Res const &r, F const &f) { %s } };\n" % (
                i, " ".join('if (g == %d) return "%s";' % x for x in names), " ".join('f(%d, r.template group<"%s">()); f(%d, meta::get_group_named<"%s">(r));' % (g, n, g, n) for g, n in names)))
        s.append("Pattern mk%d() { Pattern p{%s, %d, %du, %s, \"%s\"}; fill<%s, %s, %s, %s>(p); return p; }\nPatternReg r%d{mk%d};\n" % (
            i, c_string(p.text.encode("latin1")), len(p.text), p.flags, "true" if p.curated else "false", "expression" if p.expr else "string",
            rt, nm, "true" if p.api else "false", ", ".join(p.kinds), i, i))
    s.append("}\n")
    return "".join(s)

# ------------------------------------------------------------------------------------------------ building
class Build:
    def __init__(self, prop, scratch, opt="-O0"):
        self.prop, self.dir, self.opt = prop, scratch, opt
        self.c = CONF[prop]
        self.cxx = CXX + ["-D" + m for m in self.c["macros"]]
        self.dropped, self.failed = [], []

    def cc(self, src, obj, opt, log_):
        r = subprocess.run(self.cxx + [opt, "-c", src, "-o", obj], stdout=subprocess.DEVNULL, stderr=open(log_, "w"))
        if r.returncode:
            text = open(log_, errors="replace").read()
            if r.returncode < 0 or "error:" not in text or "Killed signal" in text or "No space left" in text or "internal compiler error" in text:
                raise Broken("the compiler did not work: " + text[:1000])
        return r.returncode == 0

    def headers_compile(self, what):
        t = os.path.join(self.dir, "empty.cpp")
        open(t, "w").write('#include %s\n' % what)
        if not self.cc(t, t + ".o", "-O0", t + ".log"):
            raise Broken("the library's headers do not compile: " + open(t + ".log").read()[:3000])

    def build(self, pats, exe="sim"):
        """Returns the path of the binary. Patterns that do not compile are isolated: self.failed (curated), self.dropped."""
        jobs = []
        d = self.dir
        per = max(1, min(10, (len(pats) + 3 * JOBS - 1) // (3 * JOBS)))
        # neighbours in the list tend to be alike; deal them out so that the units take similar time
        n_units = (len(pats) + per - 1) // per
        units = [pats[i::n_units] for i in range(n_units)]
        fixed = [("model.cpp", "-O2"), ("core.cpp", "-O2"), ("main.cpp", "-O1"), ("wl_common.cpp", "-O1"), (self.c["wl"], "-O1")]
        objs = []
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            futs = []
            for name, opt in fixed:
                o = os.path.join(d, name + ".o")
                objs.append(o)
                futs.append((None, o, ex.submit(self.cc, os.path.join(SIM, name), o, opt, o + ".log")))
            for i, u in enumerate(units):
                src, o = os.path.join(d, "p%d.cpp" % i), os.path.join(d, "p%d.o" % i)
                open(src, "w").write(tu_source(u))
                futs.append((u, o, ex.submit(self.cc, src, o, self.opt, o + ".log")))
            bad = []
            for u, o, f in futs:
                if f.result():
                    if u is not None:
                        objs.append(o)
                elif u is None:
                    if o.endswith(self.c["wl"] + ".o") and "<mregex.hpp>" in open(os.path.join(SIM, self.c["wl"])).read():
                        self.headers_compile("<mregex.hpp>")
                        raise Rejected("user code does not compile", o + ".log")
                    raise Broken("cannot build the simulator: " + open(o + ".log").read()[:3000])
                else:
                    bad.append((u, o))
            if bad:
                self.headers_compile('"ops.hpp"')
                again = []
                for u, o in bad:
                    for j, p in enumerate(u):
                        src, oo = o + ".%d.cpp" % j, o + ".%d.o" % j
                        open(src, "w").write(tu_source([p]))
                        again.append((p, oo, ex.submit(self.cc, src, oo, self.opt, oo + ".log")))
                for p, oo, f in again:
                    if f.result():
                        objs.append(oo)
                    else:
                        (self.failed if p.curated else self.dropped).append((p, oo + ".log"))
        if len(self.failed) + len(self.dropped) == len(pats):
            raise Rejected("no pattern compiles", (self.failed + self.dropped)[0][1])
        exe = os.path.join(d, exe)
        r = subprocess.run(["g++", "-o", exe] + objs, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise Broken("link failed: " + r.stderr[:3000])
        return exe

# ------------------------------------------------------------------------------------------------ running
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def sim(exe, *args, timeout=None, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, preexec_fn=limits, env=e)
        return r.returncode, r.stdout.decode("latin1")
    except subprocess.TimeoutExpired:
        return -999, ""

def outcome(rc, out):
    """(class, hash) of a violation or None if held; abnormal deaths are a class of their own."""
    if rc == 0:
        return None
    if rc == 3:
        m = re.search(r"^FOUND (\S+) hash (\d+)", out, re.M)
        if m:
            return m.group(1), m.group(2)
    if rc == 7 or rc < 0 and rc != -999:
        return "crash", "rc%d" % rc
    raise Broken("simulator ended with %d: %s" % (rc, out[:500]))

def explore(exe, scratch, seed, first, total, workers, seconds, timeout):
    """Runs [first, first+total) split over workers. Returns stats list, and violations [(index file, rc, out, from, outfile)]."""
    per = (total + workers - 1) // workers
    procs = []
    for w in range(workers):
        a, b = first + w * per, min(first + total, first + (w + 1) * per)
        if a >= b:
            continue
        st, vf = os.path.join(scratch, "st%d_%d.json" % (first, w)), os.path.join(scratch, "v%d_%d.txt" % (first, w))
        procs.append((a, b, st, vf))
    stats, viol = [], []
    def one(j):
        a, b, st, vf = j
        rc, out = sim(exe, "explore", seed, a, b, st, vf, timeout=timeout, env={"SIM_SECONDS": str(seconds)})
        return j, rc, out
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        for j, rc, out in ex.map(one, procs):
            if rc == 0:
                stats.append(json.load(open(j[2])))
            else:
                viol.append((j, rc, out))
    return stats, viol

def merge(stats):
    m = dict(runs=0, ops=0, skipped=0, steps=0, switches=0, traces=set(), states=set(), fired={}, probes={}, hashes=[], samples=[])
    for s in stats:
        for k in ("runs", "ops", "skipped", "steps", "switches"):
            m[k] += s[k]
        m["traces"].update(s["traces"])
        m["states"].update(s["states"])
        for k in ("fired", "probes"):
            for n, v in s[k].items():
                m[k][n] = m[k].get(n, 0) + v
        m["hashes"] += s["hashes"]
        m["samples"] += s["samples"]
    return m

def determinism(exe, seed, hashes, limit):
    """Re-runs a sample of runs in fresh processes, in another order and company; returns (compared, differing)."""
    sample = hashes[:: max(1, len(hashes) // limit)][:limit]
    want = {int(i): h for i, h in sample}
    chunks = [sorted(want, reverse=True)[i::4] for i in range(4)]
    bad = []
    def one(ch):
        return sim(exe, "hashes", seed, *ch, timeout=600) if ch else (0, "")
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for rc, out in ex.map(one, chunks):
            if rc:
                return len(want), ["rc %d %s" % (rc, out[:300])]
            for line in out.splitlines():
                i, a, b, c = line.split()
                if not (a == b == c == want[int(i)]):
                    bad.append(line + " first " + want[int(i)])
    return len(want), bad

# ------------------------------------------------------------------------------------------------ violations
def report(prop, path, what):
    log("VIOLATION property=%s replay=%s" % (prop, path))
    log(what)

def replay_dir():
    d = os.environ.get("SIM_REPLAY_DIR", os.path.join(HERE, "replays"))
    os.makedirs(d, exist_ok=True)
    return d

def confirm(prop, tier, seed, exe, scratch, j, rc, out, alone=False):
    """Gates a violation: the same decisions must fail the same way again, in fresh processes. Returns (path, text)."""
    a, b, st, vf = j
    first = outcome(rc, out)
    if os.path.exists(vf):
        tries = [outcome(*sim(exe, "replay", vf, timeout=120)) for _ in range(2)]
        if tries[0] is not None and tries[0] == tries[1] and tries[0][0] == first[0]:
            small = vf + ".min"
            # each attempt at a run that never ends costs its whole time limit
            rc2, _ = (1, "") if first[0] == "hang" and tier == "quick" else sim(exe, "minimise", vf, small, 25 if tier == "quick" else 120, timeout=300)
            use = small if rc2 == 0 and os.path.exists(small) else vf
            again = tries if use == vf else [outcome(*sim(exe, "replay", use, timeout=120)) for _ in range(2)]
            if again[0] is None or again[0] != again[1] or again[0][0] != first[0]:
                use = vf
            text = open(use, errors="replace").read()
            name = os.path.join(replay_dir(), "%s-%s.replay" % (prop, hashlib.sha1(text.encode("latin1", "replace")).hexdigest()[:12]))
            open(name, "w").write(text)
            head = [l[2:] for l in text.splitlines() if l.startswith("# ")]
            return name, "  " + "\n  ".join(head)
    # not by itself: state left over from earlier runs of the same process takes part
    idx = int(open(vf + ".idx").read() or a) if os.path.exists(vf + ".idx") else None
    if idx is None:
        raise Broken("a violation was found but no run index recorded: " + out[:500])
    width = 1
    while True:
        lo = max(a, idx + 1 - width)
        t = [sim(exe, "explore", seed, lo, idx + 1, st + ".r", vf + ".r", timeout=900) for _ in range(2)]
        o = [outcome(*x) for x in t]
        if o[0] is not None and o[0] == o[1]:
            if lo == idx and not alone:
                # the run fails by itself after all, in another way than after the earlier ones
                return confirm(prop, tier, seed, exe, scratch, (idx, idx + 1, st + ".a", vf + ".r"), *t[0], alone=True)
            text = "mregex-sim-range 1\nprop %s\ntier %s\nseed %d\nfrom %d\nto %d\nclass %s\n# %s\n" % (prop, tier, seed, lo, idx + 1, o[0][0], t[0][1].strip()[:1500].replace("\n", " "))
            name = os.path.join(replay_dir(), "%s-%s.replay" % (prop, hashlib.sha1(text.encode()).hexdigest()[:12]))
            open(name, "w").write(text)
            return name, "  needs %d consecutive runs in one process: %s" % (idx + 1 - lo, t[0][1].strip()[:600])
        if lo == a:
            raise Broken("a violation did not reproduce: %s" % out[:800])
        width *= 4

# ------------------------------------------------------------------------------------------------ known findings
def known_findings(prop):
    """Lines 'finding: property=<id> class=<class> pattern=<key> ...' of known_findings.txt; 'fixed:' lines suppress nothing."""
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) class=(\S+) pattern=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out

# ------------------------------------------------------------------------------------------------ main
def scratch_dir():
    d = tempfile.mkdtemp(prefix="mregex-sim-")
    atexit.register(shutil.rmtree, d, True)
    for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
        signal.signal(s, lambda *_: sys.exit(12))
    return d

def build_violation(prop, p, logf, scratch):
    """A documented pattern that stops compiling for an iterator kind it supports."""
    text = "mregex-sim-build 1\nprop %s\npattern %s\nkinds %s\n" % ((prop, p.key(), ",".join(p.kinds)) if p else (prop, "-", "-")) + "".join(
        "# " + l for l in open(logf, errors="replace").read().splitlines(True)[:12])
    name = os.path.join(replay_dir(), "%s-%s.replay" % (prop, hashlib.sha1(text[:200].encode("latin1", "replace")).hexdigest()[:12]))
    open(name, "w").write(text)
    return name

def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CONF[prop]
    scratch = scratch_dir()
    log("check %s tier %s seed %d" % (prop, tier, seed))
    pats = select(prop, tier, seed)
    b = Build(prop, scratch, c.get("opt", "-O0"))
    try:
        exe = b.build(pats)
    except Rejected as e:
        p = (b.failed + b.dropped)[0][0] if b.failed + b.dropped else None
        report(prop, build_violation(prop, p, e.log, scratch), "  what a user writes does not compile any more:\n" + "".join(
            l for l in open(e.log, errors="replace").read().splitlines(True) if "error:" in l)[:1500])
        return 1
    t_build = time.time() - t0
    log("built %d patterns in %.1f s (%d random ones dropped)" % (len(pats) - len(b.dropped) - len(b.failed), t_build, len(b.dropped)))
    runs = int(os.environ.get("SIM_RUNS", c["runs"]))
    violations = 0
    if b.failed and prop in ("C01",):
        p, lf = b.failed[0]
        report(prop, build_violation(prop, p, lf, scratch), "  pattern %s no longer compiles for one of the iterator kinds %s" % (p.key(), p.kinds))
        violations = 1
    stats, nfound, explored = [], [], 0
    t1 = time.time()
    budget = c.get("seconds", 60) if tier == "quick" else float(os.environ.get("SIM_THOROUGH_SECONDS", "1500"))
    first = 0
    while True:
        st, viol = explore(exe, scratch, seed, first, runs, JOBS, budget, budget * 3 + 300)
        stats += st
        explored += 1
        if viol:
            viol.sort(key=lambda v: v[0][0])
            last = None
            for j, rc, out in viol[:3]:
                try:
                    name, text = confirm(prop, tier, seed, exe, scratch, j, rc, out)
                except Broken as e:
                    last = e
                    continue
                report(prop, name, text)
                violations += 1
                break
            else:
                raise last
            break
        first += runs
        if tier == "quick" or time.time() - t1 > budget:
            break
    t_explore = time.time() - t1
    m = merge(stats)
    compared, bad = (0, [])
    if not violations:
        compared, bad = determinism(exe, seed, m["hashes"], 60 if tier == "quick" else 1000)
        if bad:
            raise Broken("not deterministic: %s" % bad[:3])
        log("determinism: %d runs repeated in fresh processes with identical event logs" % compared)
    write_evidence(prop, tier, seed, m, pats, b, time.time() - t0, t_build, t_explore, compared, violations)
    for cls, pat, what in known_findings(prop):
        log("KNOWN-FINDING: property=%s %s" % (prop, what))
    if violations:
        return 1
    log("held: %d simulated runs, %d operations, %d steps, %d switches, %d distinct interleavings, %.1f s" % (
        m["runs"], m["ops"], m["steps"], m["switches"], len(m["traces"]), time.time() - t0))
    log("fired: %s" % m["fired"])
    log("probes: %s" % m["probes"])
    return 0

RULES = {}
def write_evidence(prop, tier, seed, m, pats, b, wall, t_build, t_explore, compared, violations):
    hours = max(t_explore, 1e-9) / 3600
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": m["runs"],
            "distinct_nontrivial": len(m["states"]),
            "rule": "A case is one simulated run: texts, operations and tasks drawn from the run's seed, then every step's scheduling and fault "
                    "decision drawn from the same generator. Distinct: different hash of the full event log (every input access, allocation, "
                    "callback, stream character and returned result, in order). Runs with an empty log count once.",
            "samples": m["samples"][:3],
            "operations": m["ops"], "steps_simulated": m["steps"], "task_switches": m["switches"],
            "distinct_interleavings": len(m["traces"]),
            "interleaving_measure": "hash over the sequence of (task, operation, step, next task) at every switch; runs without a switch are not counted",
            "simulated_time": "the system has no clock; simulated time is counted in steps (input accesses and other instrumented events)",
            "runs_per_hour": int(m["runs"] / hours), "seeds_per_hour": int(m["runs"] / hours),
            "faults_fired": m["fired"], "probes": m["probes"],
            "operations_skipped_model_gave_up": m["skipped"],
            "patterns_built": len(pats) - len(b.dropped) - len(b.failed), "patterns_random": sum(not p.curated for p in pats),
            "patterns_dropped": [p.key() for p, _ in b.dropped],
            "determinism_runs_repeated": compared,
            "real_code": ["the whole library under /repo/include, compiled from the working tree"],
            "stubs": ["caller's iterators and text (instrumented)", "global allocator (may fail, poisons freed memory)", "threads (cooperative tasks)",
                      "streams' buffers where used"],
            "build_s": round(t_build, 1), "explore_s": round(t_explore, 1),
        },
        "assumptions": ["patterns are sampled: a fixed list spanning the documented syntax plus seeded random ones", "x86-64, gcc, single process",
                        "switches happen at accesses to the caller's iterators, callbacks, stream characters and between operations"],
        "wall_s": round(wall, 1), "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))

def find_pat(key, kinds):
    fl, how, text = key.split(":", 2)
    text = unescape(text)
    expr = None
    if how == "e":
        for e, t, f, g in corpus.XPR:
            if t == text and f == int(fl):
                expr = e
    p = Pat(text, int(fl), "", expr)
    p.kinds = kinds
    p.api = p.flags % 3 == 0 or bool(group_names(text))
    return p

def replay(path):
    text = open(path, errors="replace").read()
    scratch = scratch_dir()
    prop = re.search(r"^prop (\S+)", text, re.M).group(1)
    c = CONF[prop]
    if text.startswith("mregex-sim-build"):
        key = re.search(r"^pattern (\S+)", text, re.M).group(1)
        kinds = re.search(r"^kinds (\S+)", text, re.M).group(1).split(",")
        b = Build(prop, scratch)
        rejected = False
        try:
            b.build(select(prop, "quick", 1)[:1] if key == "-" else [find_pat(key, kinds)])
        except Rejected:
            rejected = True
        if rejected or b.failed + b.dropped:
            report(prop, path, "  %s does not compile" % ("user code" if key == "-" else "pattern " + key))
            return 1
        log("held")
        return 0
    if text.startswith("mregex-sim-range"):
        g = lambda k: re.search(r"^%s (\S+)" % k, text, re.M).group(1)
        seed = int(g("seed"))
        exe = Build(prop, scratch, c.get("opt", "-O0")).build(select(prop, g("tier"), seed))
        o = outcome(*sim(exe, "explore", seed, g("from"), g("to"), os.path.join(scratch, "s"), os.path.join(scratch, "v"), timeout=900))
    else:
        kinds = {}
        for line in text.splitlines():
            w = line.split(" ")
            if w[0] == "op" and w[13] != "-":
                kinds.setdefault(w[13], set()).add(KINDS[int(w[4])])
        pats = [find_pat(k, sorted(v)) for k, v in kinds.items()]
        exe = Build(prop, scratch, c.get("opt", "-O0")).build(pats)
        rc, out = sim(exe, "replay", path, timeout=300)
        log(out.strip())
        o = outcome(rc, out)
    if o is None:
        log("held")
        return 0
    report(prop, path, "  class %s hash %s" % o)
    return 1

def determinism_soak(prop, n):
    scratch = scratch_dir()
    pats = select(prop, "quick", 1)
    exe = Build(prop, scratch, CONF[prop].get("opt", "-O0")).build(pats)
    total = 0
    for seed in range(1, 9):
        for workers in (8, 3):
            st, v = explore(exe, scratch, seed, 0, n, workers, 0, 3600)
            if v:
                raise Broken("violation: %s" % v[0][2][:500])
            m = merge(st)
            c, bad = determinism(exe, seed, m["hashes"], 400)
            total += c
            if bad:
                raise Broken("differs: %s" % bad[:3])
            h = sorted(m["states"])
            if workers == 8:
                first = h
            elif first != h:
                raise Broken("event logs differ between worker counts")
    log("deterministic: %d runs repeated, 8 seeds, 8 and 3 workers" % total)
    return 0

def main():
    a = sys.argv[1:]
    if len(a) >= 2 and a[0] == "replay":
        return replay(a[1])
    if len(a) >= 2 and a[0] == "determinism":
        return determinism_soak(a[1], int(a[2]) if len(a) > 2 else 2000)
    if not a or a[0] not in CONF:
        print(__doc__)
        return 2
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], tier)

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("ERROR:", e, flush=True)
        sys.exit(10)
