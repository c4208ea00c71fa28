#!/usr/bin/env python3
"""Build and run the check of one property against /repo's working tree.

  check.py ID [--tier quick|thorough] [--seed N] [--verbose] [--scale F] [--only SUB]
  check.py ID --replay FILE

Exit 0: the property held on everything explored; 1: VIOLATION; 2: no answer
(the build failed, or the machinery itself).
"""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = os.path.join(VERIF, "pbt")
REPO = os.environ.get("REPO", "/repo")
LIBS = ["-larmadillo", "-llapack", "-lblas", "-lpthread"]
WARN = ["-w"]
PLAIN = ["-std=c++14", "-O1", "-D_GLIBCXX_ASSERTIONS"]
SAN = ["-std=c++14", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

# Per property: flags, and what is built next to the property's own source.
CONFIG = json.load(open(os.path.join(PBT, "config.json")))


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class BuildError(Exception):
    pass


def compile_all(jobs):
    """jobs: list of (cmd, what)"""
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r, cmd in zip(ex.map(lambda c: run(c), jobs), jobs):
            if r.returncode:
                raise BuildError("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "*.cpp")))


def build(prop, tmp, more_flags=[]):
    conf = CONFIG.get(prop, {})
    flags = {"plain": PLAIN, "san": SAN}[conf.get("flags", "plain")] + conf.get("extra_flags", []) + more_flags
    inc = ["-I" + PBT, "-I" + REPO]
    objs, jobs = [], []
    srcs = [os.path.join(PBT, "props", prop + ".cpp")] + lib_sources()
    srcs += [os.path.join(PBT, s) for s in conf.get("extra_sources", [])]
    for i, s in enumerate(srcs):
        o = os.path.join(tmp, "o%d.o" % i)
        objs.append(o)
        jobs.append([conf.get("cxx", "g++")] + flags + WARN + inc + ["-c", s, "-o", o])
    # Variants: shared objects or programs built from the same tree in other ways.
    links = []
    optional = []  # a variant that cannot be built is for the check to judge
    for v in conf.get("variants", []):
        vobjs, vjobs = [], []
        vs = [os.path.join(PBT, s) for s in v["sources"]]
        if v.get("with_lib"):
            vs += lib_sources()
        repo_src = PBT + "/REPO/"
        vs = [x for s in vs for x in (sorted(glob.glob(os.path.join(REPO, s[len(repo_src):])))
                                      if s.startswith(repo_src) else [s])]
        for k, s in enumerate(vs):
            o = os.path.join(tmp, "%s_%d.o" % (v["name"], k))
            vobjs.append(o)
            vjobs.append([v.get("cxx", "g++")] + v["flags"] + WARN + inc + ["-c", s, "-o", o])
        link = ([v.get("cxx", "g++")] + v["flags"] + v.get("link_flags", []) + vobjs +
                ["-o", os.path.join(tmp, v["name"])] + LIBS)
        if v.get("optional"):
            optional.append((v["name"], vjobs, link))
        else:
            jobs += vjobs
            links.append(link)
    compile_all(jobs)
    if optional:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            todo = [(name, ex.submit(run, j)) for name, vjobs, _ in optional for j in vjobs]
            log = {}
            for name, f in todo:
                if f.result().returncode:
                    log.setdefault(name, f.result().stdout[-3000:])
            todo = [(name, ex.submit(run, link)) for name, _, link in optional if name not in log]
            for name, f in todo:
                if f.result().returncode:
                    log.setdefault(name, f.result().stdout[-3000:])
        for name in log:
            with open(os.path.join(tmp, name + ".buildlog"), "w") as f:
                f.write(log[name])
    exe = os.path.join(tmp, "prop")
    links.append([conf.get("cxx", "g++")] + flags + objs + ["-o", exe] + conf.get("libs", []) + LIBS)
    compile_all(links)
    return exe


def environment(tmp):
    env = dict(os.environ)
    env.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PBT_TMP=tmp, PBT_REPO=REPO, LC_ALL="C",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:log_path=/dev/null:"
                            "allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=0:log_path=/dev/null",
               TSAN_OPTIONS="log_path=/dev/null:exitcode=66")
    return env


def known_findings(prop):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path):
        m = re.match(r"finding: property=(\S+) probe=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3).strip()
    return out


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        # Nothing to install: the checks build what they need from /repo's tree.
        return run(["g++", "--version"]).returncode
    prop = args[0]
    opt = {"--tier": os.environ.get("VERIF_TIER", "quick"), "--seed": os.environ.get("VERIF_SEED", "1"),
           "--scale": "1", "--only": "", "--replay": "", "--cap": ""}
    verbose = False
    i = 1
    while i < len(args):
        if args[i] == "--verbose":
            verbose = True
        else:
            opt[args[i]] = args[i + 1]
            i += 1
        i += 1
    tier = opt["--tier"]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(re.sub(r"\D", "", opt["--seed"]) or "1")
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="pbt-%s-" % prop)
    try:
        try:
            try:
                exe = build(prop, tmp)
            except BuildError:
                # Some harnesses can leave out a use of the library that a change no longer
                # lets compile; what remains decides the property then.
                if not CONFIG.get(prop, {}).get("fallback_flags"):
                    raise
                exe = build(prop, tmp, CONFIG[prop]["fallback_flags"])
        except BuildError as e:
            print(e)
            print("no answer for %s: build failed" % prop)
            return 2
        t_build = time.time() - t0
        env = environment(tmp)
        if opt["--replay"]:
            r = subprocess.run([exe, "--replay", os.path.abspath(opt["--replay"])], env=env, cwd=tmp)
            return r.returncode
        res = os.path.join(tmp, "result.json")
        # Where cases are cheap, more of them.
        scale = float(opt["--scale"])
        if tier == "quick":
            scale *= CONFIG.get(prop, {}).get("quick_scale", 1)
        cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", res, "--replaydir", tmp,
               "--scale", str(scale)]
        if verbose:
            cmd.append("--verbose")
        if opt["--only"]:
            cmd += ["--only", opt["--only"]]
        if opt["--cap"]:
            cmd += ["--cap", opt["--cap"]]
        try:
            r = subprocess.run(cmd, env=env, cwd=tmp, timeout=840 if tier == "quick" else 7200,
                               stdout=None if verbose else subprocess.PIPE)
        except subprocess.TimeoutExpired:
            print("no answer for %s: time limit" % prop)
            return 2
        if not os.path.exists(res):
            print("no answer for %s: no result (exit %d)" % (prop, r.returncode))
            return 2
        subs = json.load(open(res))["subs"]
        known = known_findings(prop)
        ev_dir = os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        violations, summary = [], {}
        ev = nt = 0
        samples, rules, total_labels = [], [], {}
        for s in subs:
            if s["verdict"] == "fail":
                if s["finding"] and s["name"] in known:
                    print("KNOWN-FINDING: property=%s %s" % (prop, known[s["name"]]))
                else:
                    dst = os.path.join(ev_dir, "replay-%s-%s.txt" % (prop, s["name"]))
                    shutil.copy(s["replay"], dst)
                    violations.append((s, dst))
            ev += s["evaluations"]
            nt += s["distinct_nontrivial"]
            rules.append("%s: %s" % (s["name"], s["rule"]))
            for x in s["samples"][:3]:
                samples.append("%s: %s" % (s["name"], x[:600]))
            summary[s["name"]] = {k: s[k] for k in ("verdict", "evaluations", "nontrivial",
                                  "distinct_nontrivial", "discarded", "time_capped", "labels", "msg")}
            summary[s["name"]]["wall_s"] = round(s["wall_s"], 2)
        wall = time.time() - t0
        evidence = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
                    "coverage": {"evaluations": ev, "distinct_nontrivial": nt,
                                 "rule": " || ".join(rules), "samples": samples,
                                 "subproperties": summary},
                    "build_s": round(t_build, 2), "wall_s": round(wall, 2)}
        with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        for s, dst in violations:
            print("%s/%s: %s" % (prop, s["name"], s["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, dst))
        if violations:
            return 1
        if nt == 0 and not opt["--only"]:
            print("no answer for %s: no non-trivial case" % prop)
            return 2
        print("%s held: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" %
              (prop, ev, nt, wall, t_build))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
