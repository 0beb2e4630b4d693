#!/usr/bin/env python3
"""Self test of the rules: apply each edit of tools/mutants*.py to a scratch copy of /repo and run checks on it.
An entry is (name, kind, checks, [(file, old, new), ...]); kind "bad": at least one of `checks` must alarm; "same": behaviour is kept, all must stay quiet.
usage: selftest.py [name-filter] [-a: run every check on "same" entries]"""
import concurrent.futures as cf, glob, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = {}
exec(open(os.path.join(HERE, "tools", "mutants.py")).read(), BASE)
M = []
for f in sorted(glob.glob(os.path.join(HERE, "tools", "mutants*.py"))):
    G = dict(BASE)
    exec(open(f).read(), G)
    M += G["MUTANTS"]
ALL = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(HERE, "wv", "rules", "p[0-9][0-9].py")))


def one(m):
    name, kind, checks, edits = m
    d = tempfile.mkdtemp(prefix="wvself")
    out = []
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s && cp /repo/Cargo.lock %s/ 2>/dev/null" % (d, d), shell=True)
        for f, o, n in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if o not in s:
                return name, kind, False, ["NO MATCH: " + o[:60]]
            open(p, "w").write(s.replace(o, n, 1))
        env = dict(os.environ, WV_REPO=d, WV_SCRATCH="1")
        ok = kind == "same"
        for c in (ALL if (kind == "same" and "-a" in sys.argv) else [c for c in checks.split() if c in ALL]):
            r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), c, "quick"], env=env, capture_output=True, text=True)
            t = r.stdout + r.stderr
            alarm = r.returncode == 1 and "VIOLATION property=" + c in r.stdout
            if kind == "same" and r.returncode != 0:
                ok = False
                out.append(c + ": " + " | ".join(l[:260] for l in t.splitlines() if not l.startswith("VIOLATION"))[-900:])
            if kind == "bad" and alarm:
                real = [l for l in t.splitlines() if "rule/instance:" in l and "anchor|" not in l]
                ok = True
                out.append("caught by %s %s" % (c, (real or ["(anchor only)"])[0][:160]))
            if r.returncode not in (0, 1) or "error: could not compile" in t or "Traceback" in t:
                out.append("%s rc=%d %s" % (c, r.returncode, t[-600:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return name, kind, ok, out


flt = [a for a in sys.argv[1:] if not a.startswith("-")]
sel = [m for m in M if not flt or any(re.search(x, m[0]) or x in m[2].split() for x in flt)]
bad = 0
with cf.ThreadPoolExecutor(6) as ex:
    for name, kind, ok, out in ex.map(one, sel):
        if not ok or "-v" in sys.argv:
            print("%s %s [%s]" % ("ok  " if ok else "FAIL", name, kind))
            for o in out:
                print("     " + o)
        bad += not ok
print("%d entries, %d not as expected" % (len(sel), bad))
