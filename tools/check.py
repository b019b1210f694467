#!/usr/bin/env python3
"""Decide one property: build the units it needs from /repo's current tree, run the symbolic
executor on their entry points, replay what it reports, and write the evidence file.

usage: check.py PROPERTY [--tier quick|thorough] [--keep]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (build or engine error)
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SYMX_REPO", "/repo")
BUILD = os.environ.get("SYMX_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, HERE)
import specs  # noqa: E402
import units  # noqa: E402

T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def run_job(j, u, tier):
    d = os.path.join(BUILD, "jobs")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%s-%s.json" % (u["name"], j.entry, "_".join(map(str, j.args))))
    if os.path.exists(out):
        os.remove(out)
    cmd = [units.symx(), "run", "--entry", j.entry, "--out", out, "--jobs", str(j.jobs), "--split", str(j.split),
           "--max-steps", str(j.max_steps), "--max-paths", str(j.max_paths), "--max-secs", str(j.max_secs),
           "--timeout-ms", str(j.timeout_ms), "--samples", str(j.samples)]
    for a in j.args:
        cmd += ["--arg", str(a)]
    cmd += u["ll"]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=j.max_secs + 90)
    except subprocess.TimeoutExpired:
        return None, "engine did not stop in time"
    if r.returncode != 0 or not os.path.exists(out):
        return None, "engine failed: " + r.stdout.decode(errors="replace")[-600:]
    return json.load(open(out)), None


def replay(j, u, inputs, path, timeout=20):
    with open(path, "w") as f:
        for w, v in inputs:
            f.write("%d %s\n" % (w, v))
    env = dict(os.environ, SYMX_REPLAY=path, SYMX_ARGS=" ".join(map(str, j.args)), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1")
    scratch = os.path.join(BUILD, "scratch")
    os.makedirs(scratch, exist_ok=True)
    try:
        r = subprocess.run(u["native"] + [j.entry] + [str(a) for a in j.args], env=env, cwd=scratch,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        rc, so, se = r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, so, se = "timeout", "", ""
    obs = [(int(a), int(b)) for a, b in re.findall(r"^OBS (\d+) (\d+)$", so, re.M)]
    return rc, obs, se


def reproduces(v, rc):
    """does the native run fail in the way the engine reports?"""
    if rc in (90, 91, 92, 93, 97):
        return False
    if v["kind"] == "nonterm":
        return rc == "timeout" or rc not in (0,)
    return rc != 0


def known(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        m = re.match(r"finding: property=(\S+) entry=(\S+) msg=\"([^\"]*)\" inputs=(\S+) (.*)$", l)
        if m and m.group(1) == prop:
            res.append(dict(entry=m.group(2), msg=m.group(3), inputs=json.loads(m.group(4)), what=m.group(5)))
    return res


def is_known(kf, j, v):
    """inputs of a finding: list of [position, value] or [position, least, greatest]"""
    for k in kf:
        if k["entry"] == j.entry and k["msg"] == v["msg"] and all(x[0] < len(v["inputs"]) and x[1] <= int(v["inputs"][x[0]][1]) <= x[-1] for x in k["inputs"]):
            return k
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sp = specs.PROPS[prop]
    jobs = [j for j in sp["jobs"] if (tier in j.tiers) and (only is None or only in j.entry)]
    names = sorted({j.unit for j in jobs})
    errors, results = [], []
    # build
    with cf.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(units.build_engine)
        fu = {n: ex.submit(units.build, n) for n in names}
        us = {}
        try:
            fe.result()
            for n in names:
                us[n] = fu[n].result()
        except units.BuildError as e:
            print("BUILD-ERROR", str(e)[-3000:])
            return 2
    log("built", ", ".join(names))
    rdir = os.path.join(BUILD, "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    viols, kfound = [], []
    kf = known(prop)
    tv = 0
    samples = []
    small = [j for j in jobs if j.jobs == 1]
    big = [j for j in jobs if j.jobs != 1]

    def handle(j, rep, err):
        nonlocal tv
        tag = "%s(%s)" % (j.entry, ",".join(map(str, j.args)))
        if rep is None:
            errors.append("%s: %s" % (tag, err))
            log(tag, err)
            return
        log("%s: %d paths, %d steps, %d queries (%.1fs solver), %d asserts, %.1fs%s" % (
            tag, rep["paths"], rep["steps"], rep["queries"], rep["solver_secs"], rep["asserts"], rep["secs"],
            "" if not rep["violations"] else ", %d candidate violations" % len(rep["violations"])))
        results.append((j, rep))
        for e in rep["errors"]:
            errors.append("%s: %s" % (tag, e[:600]))
        if rep["unknown"]:
            errors.append("%s: %d queries undecided" % (tag, rep["unknown"]))
        got = {int(k) for k in rep["reach"]}
        u = us[j.unit]
        hit = False
        for k, v in enumerate(rep["violations"]):
            path = os.path.join(rdir, "%s-%s-%d.replay" % (j.entry, "_".join(map(str, j.args)), k))
            rc, obs, se = replay(j, u, v["inputs"], path)
            if reproduces(v, rc):
                kk = is_known(kf, j, v)
                if kk:
                    kfound.append(kk)
                    continue
                viols.append((j, v, path, rc, se))
                hit = True
                log("  violation:", v["kind"], "|", v["msg"], "| inputs", v["inputs"][:40], "| native exit", rc, se.strip()[-300:])
                if len(viols) >= 3:
                    break
            else:
                errors.append("%s: counterexample does not reproduce natively (rc %s): %s | %s | %s | %s" % (tag, rc, v["kind"], v["msg"], v["inputs"][:60], v["stack"][:4]))
        if hit:
            return
        miss = [r for r in j.reach if r not in got]
        if miss and not rep["errors"]:
            errors.append("%s: vacuous, witnesses %s not reached" % (tag, miss))
        # encoding check: sample paths replayed natively must observe the same values
        def one(a):
            i, s = a
            path = os.path.join(BUILD, "replay", prop, "s-%s-%s-%d.replay" % (j.entry, "_".join(map(str, j.args)), i))
            r = replay(j, u, s["inputs"], path)
            os.remove(path)
            return s, r
        ss = list(enumerate(rep["samples"]))[:24]
        with cf.ThreadPoolExecutor(8) as ex:
            for s, (rc, obs, se) in ex.map(one, ss):
                want = [(int(a), int(b)) for a, b in s["obs"]]
                if rc != 0 or obs[:len(want)] != want:
                    errors.append("%s: sample path differs natively (rc %s, obs %s, engine %s, inputs %s) %s" % (tag, rc, obs[:6], want[:6], s["inputs"][:30], se[-200:]))
                else:
                    tv += 1
        for i, s in ss[:2]:
            samples.append(dict(entry=tag, inputs=[x[1] for x in s["inputs"][:40]], observed=s["obs"][:10]))

    with cf.ThreadPoolExecutor(8) as ex:
        fs = [(j, ex.submit(run_job, j, us[j.unit], tier)) for j in small]
        for j, f in fs:
            handle(j, *f.result())
    for j in big:
        handle(j, *run_job(j, us[j.unit], tier))
        if len(viols) >= 3:
            break
    for j, v, path, rc, se in viols:
        json.dump(dict(property=prop, unit=j.unit, entry=j.entry, args=j.args, kind=v["kind"], message=v["msg"], inputs=v["inputs"], stack=v["stack"], native_exit=rc, native_stderr=se[-2000:],
                       how="SYMX_REPLAY=%s %s %s" % (path, " ".join(us[j.unit]["native"]), " ".join([j.entry] + [str(a) for a in j.args]))), open(path + ".json", "w"), indent=1)
    fns = {}
    ext = {}
    for j, r in results:
        for n, c, k in r["functions"]:
            a = fns.setdefault(n, [0, k]); a[0] += c
        for n, c in r["externals"].items():
            ext[n] = ext.get(n, 0) + c
    fns = {n: v for n, v in fns.items() if not re.match(r"h_|sx::|h[a-z0-9]*::", n)}
    tot = lambda k: sum(r[k] for _, r in results)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - T0, 2), violations=len(viols),
              assumptions=sp.get("assumptions", []) + specs.COMMON,
              coverage=dict(states=tot("paths"), transitions=tot("steps"), traces_validated_against_impl=tv, samples=samples[:40],
                            exhaustive=not errors and not viols,
                            explanation="states = feasible paths enumerated to their end by the symbolic executor, each standing for all inputs that satisfy its path condition; transitions = IR instructions executed symbolically",
                            bounds=sp["bounds"], jobs=[dict(unit=j.unit, entry=j.entry, args=j.args, paths=r["paths"], steps=r["steps"], forks=r["forks"], asserts=r["asserts"], assert_queries=r["assert_queries"], queries=r["queries"], sat=r["sat"], unsat=r["unsat"], unknown=r["unknown"], expected_panics=r["expected_panics"], solver_s=r["solver_secs"], max_query_s=r["max_query_secs"], wall_s=r["secs"], reach=r["reach"], bound=j.note) for j, r in results],
                            queries=tot("queries") if results else 0, solver_s=round(tot("solver_secs"), 2) if results else 0, asserts=tot("asserts") if results else 0,
                            functions_encoded=len(fns), functions=sorted(fns, key=lambda n: -fns[n][0])[:120], externals_modelled=ext, errors=errors[:40]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k in {k["what"]: k for k in kfound}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viols:
        for j, v, path, rc, se in viols[:3]:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   %s(%s): %s: %s" % (j.entry, ",".join(map(str, j.args)), v["kind"], v["msg"]))
        return 1
    if errors:
        for e in errors[:30]:
            print("ERROR", e[:1200])
        return 2
    log("property %s held: %d paths, %d queries, %d sample paths agreed natively" % (prop, tot("paths"), tot("queries"), tv))
    return 0


if __name__ == "__main__":
    sys.exit(main())
