#!/usr/bin/env python3
"""Run the checks on trees edited in ways that keep the behaviour: they have to stay quiet.

  refactor.py SET [CHECK...]     SET is A, B, C or D of sets.py; all checks by default
"""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sets import SETS

VERIF, REPO = "/verif", "/repo"
name, ids = sys.argv[1], sys.argv[2:] or ["C%02d" % i for i in range(1, 32)]
scratch = "/tmp/refactor_" + name
shutil.rmtree(scratch, ignore_errors=True)
subprocess.check_call(["cp", "-a", REPO, scratch])
for f, old, new in SETS[name]:
    p = os.path.join(scratch, f)
    t = open(p).read()
    if t.count(old) != 1:
        sys.exit("%s: text occurs %d times in %s: %r" % (name, t.count(old), f, old[:100]))
    if f == "erk.hpp":
        new = new.replace("erk_hopeless", "hopeless_error").replace("erk_tiny", "machine_precision")
    open(p, "w").write(t.replace(old, new))
env = dict(os.environ, REPO=scratch)
for i in ids:
    p = subprocess.run(["python3", os.path.join(VERIF, "pbt/check.py"), i], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, universal_newlines=True)
    print("%s %s exit %d %s" % (name, i, p.returncode, "" if p.returncode == 0 else p.stdout[-1500:]), flush=True)
shutil.rmtree(scratch)
