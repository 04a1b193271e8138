#!/usr/bin/env python3
"""Applies each mutation of cases_*.py to a scratch copy of /repo and says
whether the named check reports it ("bad" cases) or stays quiet ("same" cases).
usage: run.py [-c] [ID...]   -c: also compile (go build)"""
import os, sys, subprocess, shutil, glob, importlib.util, tempfile
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOFLAGS="-mod=readonly", GOTOOLCHAIN="local", GOPROXY="off", HOME="/root")
compile_ = "-c" in sys.argv
ids = [a for a in sys.argv[1:] if a != "-c"]
cases = []
for f in sorted(glob.glob(os.path.join(here, "cases_*.py"))):
    spec = importlib.util.spec_from_file_location("m", f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    cases += m.CASES
tmp = tempfile.mkdtemp(prefix="selftest.")
try:
    repo = os.path.join(tmp, "repo"); scratch = os.path.join(tmp, "verif"); os.makedirs(scratch)
    shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git"))
    if os.path.exists(os.path.join(verif, "known_findings.txt")):
        shutil.copy(os.path.join(verif, "known_findings.txt"), scratch)
    miss = 0
    for (cid, kind, name, edits) in cases:
        if ids and cid not in ids: continue
        orig = {}
        try:
            for (f, old, new) in edits:
                p = os.path.join(repo, f); s = open(p).read()
                orig.setdefault(p, s)
                if s.count(old) != 1:
                    print("STALE", cid, name, f, s.count(old)); raise KeyError
                open(p, "w").write(s.replace(old, new))
            if compile_:
                r = subprocess.run(["go", "build", "./..."], cwd=repo, env=env, capture_output=True, text=True)
                if r.returncode: print("NOBUILD", cid, name, r.stderr[:300]); continue
            r = subprocess.run([os.environ.get("JC", os.path.join(verif, "bin", "joecheck")), repo, scratch, cid], env=env, capture_output=True, text=True)
            caught = r.returncode == 1 and "VIOLATION property=" + cid in r.stdout
            loadfail = "cannot be analysed" in r.stdout or "internal error" in r.stdout
            good = (caught == (kind == "bad")) and not loadfail
            if not good or os.environ.get("V"):
                miss += not good
                print("ok  " if good else "MISS" if kind == "bad" else "FALSE", cid, name)
                if r.stdout and (loadfail or kind == "same" or os.environ.get("V")): print("    " + "\n    ".join(r.stdout.splitlines()[1:4]))
        except KeyError:
            miss += 1
        finally:
            for p, s in orig.items(): open(p, "w").write(s)
    print("done,", miss, "not as expected")
finally:
    shutil.rmtree(tmp)
