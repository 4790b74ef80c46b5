#!/usr/bin/env python3
"""tryseed.py ID... : confirm planted bugs in scratch copies of /repo (compiles, tests pass, demo 0/nonzero) and run the check.

Options: --nocheck, --props C01,C02 (run these checks instead of the bug's own), --seed N
"""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
opts = {"--props": None, "--seed": "1"}
nocheck = "--nocheck" in args
args = [a for a in args if a != "--nocheck"]
for o in opts:
    if o in args:
        i = args.index(o); opts[o] = args[i + 1]; del args[i:i + 2]
ids = args or sorted(os.listdir(os.path.join(HERE, "seeded")))

def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

for i in ids:
    d = os.path.join(HERE, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed_")
    copy = os.path.join(tmp, "repo")
    out = []
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", copy])
        r = run(["git", "apply", os.path.join(d, "patch.diff")], cwd=copy)
        if r.returncode:
            print(i, "patch does not apply", r.stdout); continue
        tests = [os.path.join(copy, "test", f) for f in os.listdir(os.path.join(copy, "test")) if f.endswith(".cpp")]
        tests += [os.path.join(copy, "example", f) for f in os.listdir(os.path.join(copy, "example")) if f.endswith(".cpp")]
        ps = [(t, subprocess.Popen(["g++", "-std=c++20", "-fsyntax-only", "-I" + os.path.join(copy, "include"), "-I" + os.path.join(copy, "test"), t],
              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for t in tests]
        bad = []
        for t, p in ps:
            o = p.communicate()[0]
            if p.returncode:
                bad.append(os.path.basename(t) + ": " + "\n".join(o.split("\n")[:6]))
        out.append("tests " + ("ok" if not bad else "FAIL " + "\n".join(bad)))
        # the demo somewhere else, without patch and meta
        dd = os.path.join(tmp, "demo"); shutil.copytree(d, dd)
        os.remove(os.path.join(dd, "patch.diff")); os.remove(os.path.join(dd, "meta.json"))
        r0 = run(["bash", os.path.join(dd, "demo.sh")], cwd="/repo", timeout=300)
        r1 = run(["bash", os.path.join(dd, "demo.sh")], cwd=copy, timeout=300)
        out.append("demo %d/%d%s" % (r0.returncode, r1.returncode, "" if r0.returncode == 0 and r1.returncode else " BAD " + r0.stdout[-1500:] + "||" + r1.stdout[-1500:]))
        if not nocheck and not bad:
            for p in (opts["--props"] or meta["property"]).split(","):
                t0 = time.time()
                e = dict(os.environ, MREGEX_REPO=copy, VERIF_SEED=opts["--seed"], VERIF_TIER="quick")
                r = run(["python3", "check.py", p, "--tier", "quick"], cwd=HERE, env=e)
                v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
                out.append("%s rc=%d %s %.0fs %s" % (p, r.returncode, "CAUGHT" if r.returncode == 1 and v else "missed" if r.returncode == 0 else "ERROR", time.time() - t0, v[0] if v else ""))
                if r.returncode == 1:
                    k = [l for l in r.stdout.split("\n") if l.strip()]
                    out.append("\n      ".join([""] + k[-4:]))
                elif r.returncode:
                    out.append(r.stdout[-2500:])
        print(i, meta["property"], "; ".join(out), flush=True)
    finally:
        shutil.rmtree(tmp)
