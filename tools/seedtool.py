#!/usr/bin/env python3
"""Write and try out seeded changes.

  seedtool.py gen DEFS.py            write /verif/seeded/<id>/ for each definition
  seedtool.py try [-j N] [--all] ID...   confirm each in a scratch copy and run its property's check there

DEFS.py defines SEEDS, a list of dicts: id, property, edits [(file, old, new)], needs, breaks, demo (C++ text).
"""
import concurrent.futures, importlib.util, json, os, queue, re, shutil, subprocess, sys, tempfile

VERIF, REPO, SCR = "/verif", "/repo", "/tmp/seed"
ORIGINAL = "0b8026e"
DEMO_SH = """#!/bin/bash
# Run in the tree under test: exit 0 when the property holds for this program, 1 when not.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -w -I. -I"$d" %s "$d/demo.cpp" *.cpp -o "$t/demo" %s-larmadillo -llapack -lblas || exit 2
cd "$t" && OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 timeout 200 ./demo >out 2>err
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def gen(path):
    spec = importlib.util.spec_from_file_location("defs", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for s in m.SEEDS:
        d = os.path.join(VERIF, "seeded", s["id"])
        tmp = tempfile.mkdtemp()
        for side in "ab":
            os.makedirs(tmp + "/" + side)
        files = {}
        bad = False
        for f, old, new in s["edits"]:
            if f not in files:
                files[f] = [open(os.path.join(REPO, f)).read()] * 2
            if files[f][1].count(old) != 1:
                print("%s: text occurs %d times in %s: %r" % (s["id"], files[f][1].count(old), f, old[:80]))
                bad = True
            files[f][1] = files[f][1].replace(old, new)
        if bad:
            continue
        for f, (a, b) in files.items():
            for side, text in (("a", a), ("b", b)):
                p = os.path.join(tmp, side, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(text)
        diff = sh(["diff", "-ru", "a", "b"], cwd=tmp).stdout
        diff = re.sub(r"(?m)^diff -ru .*\n", "", diff)
        diff = re.sub(r"(?m)^(---|\+\+\+) (\S+)\t.*$", r"\1 \2", diff)
        shutil.rmtree(tmp)
        # Lines taken away or displaced must be lines of the original repository.
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        orig = "".join(sh(["git", "-C", REPO, "show", ORIGINAL + ":" + f]).stdout for f in files)
        ol = set(x.strip() for x in orig.splitlines())
        own = [l for l in removed if l.strip() and l.strip() not in ol]
        if own or not removed:
            print("%s: NOTE not original: %s (removed %d)" % (s["id"], own[:3], len(removed)))
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(s.get("demo_sh") or DEMO_SH % (s.get("flags", ""), s.get("libs", "")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        print("wrote", s["id"])


def worker_tree(n):
    w = "%s/w%d" % (SCR, n)
    if not os.path.exists(w + "/repo"):
        os.makedirs(w, exist_ok=True)
        shutil.copytree(REPO, w + "/repo", symlinks=True)
        shutil.rmtree(w + "/repo/_build", ignore_errors=True)
        for s in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + s).read().replace("/repo", w + "/repo").replace("/opt/vp/build.sh", w + "/build.sh")
            open(w + "/" + s, "w").write(t)
    sh("git fetch -q %s HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd" % REPO, cwd=w + "/repo")
    return w


def attempt(args):
    sid, pool, checks = args
    n = pool.get()
    out = []
    try:
        w = worker_tree(n)
        r = w + "/repo"
        d = "%s/seeded/%s" % (VERIF, sid)
        if not os.path.exists(d + "/meta.json"):
            return sid, "no such change"
        meta = json.load(open(d + "/meta.json"))
        sh("git checkout -q -- . && git clean -qfd", cwd=r)
        c = sh([d + "/demo.sh"], cwd=r).returncode
        out.append("demo clean %d" % c)
        a = sh(["git", "apply", d + "/patch.diff"], cwd=r)
        if a.returncode:
            return sid, "patch does not apply: " + a.stdout
        b = sh(["bash", w + "/build.sh"])
        out.append("build %d" % b.returncode)
        if b.returncode == 0:
            sh(["bash", w + "/test.sh", w + "/out.json"])
            res = json.load(open(w + "/out.json"))
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            miss = [x for x in stable if x not in res["passed"]]
            out.append("tests %s" % ("ok" if not miss else "FAIL " + "; ".join(miss)[:200]))
            out.append("demo patched %d" % sh([d + "/demo.sh"], cwd=r).returncode)
        else:
            out.append(b.stdout[-600:])
        for prop in checks or [meta["property"]]:
            env = dict(os.environ, REPO=r, VERIF_SEED="1")
            k = sh(["timeout", "900", "python3", VERIF + "/pbt/check.py", prop], env=env)
            v = [l for l in k.stdout.splitlines() if re.match(prop + "/|no answer", l)]
            out.append("%s exit %d %s" % (prop, k.returncode, " ".join(x[:140] for x in v[:6])))
        sh("git checkout -q -- . && git clean -qfd", cwd=r)
        return sid, " | ".join(out)
    finally:
        pool.put(n)


def record(sid, text):
    """Keep the last result of each change, for DESIGN.md."""
    path = VERIF + "/tools/seed_results.json"
    res = json.load(open(path)) if os.path.exists(path) else {}
    old = res.get(sid, {})
    m = re.search(r"demo clean (\d+) .*tests (ok|FAIL).*demo patched (\d+)", text)
    e = {"valid": bool(m and m.group(1) == "0" and m.group(2) == "ok" and m.group(3) != "0"), "checks": old.get("checks", {})}
    for c, k in re.findall(r"\b(C\d\d) exit (\d+)", text):
        subs = sorted(set(re.findall(c + r"/(\w+):", text)))
        e["checks"][c] = {"caught": k == "1", "by": subs}
    res[sid] = e
    json.dump(dict(sorted(res.items())), open(path, "w"), indent=1)


def main():
    a = sys.argv[1:]
    if a[0] == "gen":
        return gen(a[1])
    jobs, ids, checks = 4, [], []
    i = 1
    while i < len(a):
        if a[i] == "-j":
            i += 1
            jobs = int(a[i])
        elif a[i] == "--checks":
            i += 1
            checks = a[i].split(",")
        else:
            ids.append(a[i])
        i += 1
    if a[0] == "import":  # the lines of an earlier run
        for l in open(a[1]):
            if ": " in l and "demo clean" in l:
                record(*l.rstrip("\n").split(": ", 1))
        return
    ids = ids or sorted(os.listdir(VERIF + "/seeded"))
    pool = queue.Queue()
    for n in range(jobs):
        pool.put(n)
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for f in concurrent.futures.as_completed([ex.submit(attempt, (s, pool, checks)) for s in ids]):
            sid, text = f.result()
            print("%s: %s" % (sid, text), flush=True)
            record(sid, text)


main()
