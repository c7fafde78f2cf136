#!/usr/bin/env python3
"""Run the runtime-monitoring check of one property.

usage: check.py C01 [--keep] [--job NAME] [--tier quick|thorough] [--seed N]

Builds the harnesses of the property together with the sources found in /repo *now*, runs them
under the sanitizer builds named in specs.py, lets the monitors inside the harnesses and the
sanitizers judge what happened, rewrites evidence/<id>.json and prints the verdict.
exit 0: held on everything explored.  exit 1: VIOLATION line printed.  exit 2: inconclusive/error.
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, signal, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VT_REPO", "/repo")
sys.path.insert(0, VERIF)
import specs

CXX = "g++"
BASE = ["-std=c++11", "-w", "-pthread", "-DLINUX", "-fno-omit-frame-pointer"]
FLAVORS = {
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-sanitize=alignment,nonnull-attribute,vptr"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "plain": ["-O2", "-g1"],
}
ENVS = {
    "asan": {"ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:"
                             "max_allocation_size_mb=2048:hard_rss_limit_mb=6000:allocator_may_return_null=0:"
                             "handle_abort=1:print_summary=1:color=never:detect_odr_violation=0",
             "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99:color=never"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:color=never:history_size=4:die_after_fork=0"},
    "plain": {},
}


class BuildError(Exception):
    pass


def run_capture(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(jobs, work):
    """compile every (harness, flavor) and every (repo source, flavor) once, in parallel, then link"""
    units = {}
    for j in jobs:
        fl = j["flavor"]
        defs = tuple(j.get("defs", ()))
        units[("h", j["src"], fl, defs)] = os.path.join(VERIF, "harness", j["src"])
        for r in j["repo"]:
            units[("r", r, fl, defs)] = os.path.join(REPO, "src", r)

    def obj(key):
        return os.path.join(work, "%s_%s_%s_%s.o" % (key[0], key[1].replace("/", "_"), key[2],
                                                     hashlib.md5(" ".join(key[3]).encode()).hexdigest()[:6]))

    def comp(item):
        key, path = item
        cmd = [CXX] + BASE + FLAVORS[key[2]] + list(key[3]) + \
              ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness"), "-c", path, "-o", obj(key)]
        r = run_capture(cmd)
        return key, r.returncode, r.stdout

    with ThreadPoolExecutor(8) as ex:
        for key, rc, out in ex.map(comp, units.items()):
            if rc != 0:
                raise BuildError("cannot compile %s (%s):\n%s" % (key[1], key[2], out[:6000]))

    exes = {}
    todo = []
    for j in jobs:
        ek = (j["src"], j["flavor"], tuple(j.get("defs", ())), tuple(j["repo"]))
        if ek in exes:
            continue
        exe = os.path.join(work, "exe%d" % len(exes))
        exes[ek] = exe
        objs = [obj(("h", j["src"], j["flavor"], ek[2]))] + [obj(("r", r, j["flavor"], ek[2])) for r in j["repo"]]
        todo.append([CXX] + BASE + FLAVORS[j["flavor"]] + objs + ["-o", exe, "-lrt", "-lpthread"] + j.get("libs", []))
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(run_capture, todo):
            if r.returncode != 0:
                raise BuildError("cannot link:\n" + r.stdout[:6000])
    for j in jobs:
        j["exe"] = exes[(j["src"], j["flavor"], tuple(j.get("defs", ())), tuple(j["repo"]))]


def repo_frame(text):
    """innermost function of the code under test named in a sanitizer report"""
    for m in re.finditer(r"^\s*#\d+ (?:0x[0-9a-f]+ )?(?:in )?(.+?) (/\S+|\(\S+\))", text, re.M):
        fn, where = m.group(1), m.group(2)
        if where.startswith(REPO + "/"):
            return re.sub(r"\(.*", "", fn).strip()
    return "?"


def classify(rc, err, flavor):
    """(key, message) for an abnormal end"""
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", err)
    if m:
        return "asan:%s:%s" % (m.group(2), repo_frame(err)), err[err.find("ERROR:"):][:6000]
    m = re.search(r"^(\S+?):(\d+):\d+: runtime error: (.*)$", err, re.M)
    if m:
        what = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(3))[:60]
        return "ubsan:%s:%s" % (os.path.basename(m.group(1)), what), err[m.start():][:6000]
    m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]+)", err)
    if m:
        return "tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), repo_frame(err)), err[m.start():][:6000]
    m = re.search(r"terminate called.*(?:\n.*what\(\).*)?", err)
    if m:
        return "terminate", err[-3000:]
    if rc < 0:
        try:
            s = signal.Signals(-rc).name
        except ValueError:
            s = str(-rc)
        return "crash:" + s, err[-3000:]
    return None


FOUND = [0.0]  # when the first violation was seen
GRACE = 10.0


def found():
    FOUND[0] = FOUND[0] or time.time()


def known_keys(cache=[]):
    if not cache:
        kf = os.path.join(VERIF, "known_findings.json")
        cache.append(set(e["key"] for e in json.load(open(kf))["findings"] if e["status"] == "known" and "key" in e))
    return cache[0]


def broken(rep):
    """has this run, or another one, reported a violation already?"""
    if not FOUND[0] and os.path.exists(rep) and os.path.getsize(rep):
        for line in open(rep, errors="replace"):
            if line.startswith("V\t") and line.split("\t")[1].strip() not in known_keys():
                found()
    return FOUND[0] > 0


def execute(j, shard, seed, tier, work, attempt=0):
    d = os.path.join(work, "run_%s_%d_%d" % (j["name"], shard, attempt))
    os.makedirs(d)
    rep, cur = os.path.join(d, "report.txt"), os.path.join(d, "cur.txt")
    env = dict(os.environ)
    env.update(ENVS[j["flavor"]])
    for k, v in j.get("env", {}).items():
        env[k] = env.get(k, "") + (":" if k.endswith("OPTIONS") and env.get(k) else "") + v if k.endswith("OPTIONS") else v
    env.update({"VT_REPORT": rep, "VT_CUR": cur, "LC_ALL": "C", "TZ": env.get("VT_TZ", "UTC")})
    cases = j["thorough"] if tier == "thorough" else j["quick"]
    cmd = [j["exe"], "--seed", str(seed), "--shard", str(shard), "--cases", str(cases), "--mode", j.get("mode", "")]
    if tier == "thorough":
        cmd.append("--thorough")
    cmd += j.get("args", [])
    scratch = os.path.join(d, "scratch")
    os.makedirs(scratch)
    errp = os.path.join(d, "stderr.txt")
    t0 = time.time()
    timeout = j["timeout"] * (4 if tier == "thorough" else 1)
    with open(errp, "wb") as ef, open(os.path.join(d, "stdout.txt"), "wb") as of:
        p = subprocess.Popen(cmd, cwd=scratch, env=env, stdout=of, stderr=ef, stdin=subprocess.DEVNULL, start_new_session=True)
        hung = cut = False
        rc = None
        while rc is None and not hung and not cut:
            try:
                rc = p.wait(0.5)
            except subprocess.TimeoutExpired:
                hung = time.time() - t0 > timeout
                # the answer is known already: the others need not finish
                cut = broken(rep) and time.time() - FOUND[0] > GRACE
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    res = dict(job=j["name"], shard=shard, rc=rc, hung=hung and not cut, cut=cut, wall=time.time() - t0, cmd=" ".join(cmd[1:]), viol=[],
               summary=None, done=False, dir=d)
    err = open(errp, errors="replace").read(400000)
    curtxt = open(cur, errors="replace").read().rstrip("\0") if os.path.exists(cur) else ""
    res["cur"] = curtxt[:20000]
    res["err"] = err
    if os.path.exists(rep):
        for line in open(rep, errors="replace"):
            line = line.rstrip("\n")
            if line.startswith("V\t"):
                f = line.split("\t")
                res["viol"].append((f[1], f[2] if len(f) > 2 else "", f[3] if len(f) > 3 else ""))
            elif line.startswith("S\t"):
                res["summary"] = json.loads(line[2:])
            elif line == "DONE":
                res["done"] = True
    if not hung and not cut:
        k = classify(rc, err, j["flavor"])
        if k and not (res["done"] and rc in (0, 3)):
            res["viol"].append((k[0], k[1], curtxt[:3000]))
        elif rc not in (0, 3) and not res["viol"]:
            res["error"] = "harness %s shard %d ended with %s: %s" % (j["name"], shard, rc, err[-2000:])
        elif rc == 0 and not res["done"]:
            res["viol"].append(("exit:early", "process ended before the workload was complete: " + err[-500:], curtxt[:3000]))
    if res["viol"] and any(v[0] not in known_keys() for v in res["viol"]):
        found()
    return res


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    keep = "--keep" in args
    only = args[args.index("--job") + 1] if "--job" in args else None
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--seed" in args:
        seed = int(args[args.index("--seed") + 1])
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = specs.SPECS[pid]
    jobs = [dict(j) for j in spec["jobs"] if only in (None, j["name"])]
    if tier == "quick":
        jobs = [j for j in jobs if j["quick"] > 0]
    t0 = time.time()
    base = os.environ.get("TMPDIR", "/tmp")
    work = tempfile.mkdtemp(prefix="vt-%s-" % pid, dir=base)
    try:
        try:
            build(jobs, work)
        except BuildError as e:
            print("ERROR: %s" % e)
            return 2
        tb = time.time() - t0
        todo = []
        for j in jobs:
            for s in range(j["shards"]):
                todo.append((j, s))
        todo.sort(key=lambda x: -x[0].get("weight", 1))
        with ThreadPoolExecutor(spec.get("parallel", 8)) as ex:
            results = list(ex.map(lambda js: execute(js[0], js[1], seed, tier, work), todo))
        # A time-out or an unclear end is inconclusive: run it once more, alone.
        final = []
        for (j, s), r in zip(todo, results):
            if r.get("error") and "unexpected memory mapping" in r["err"]:
                r = execute(j, s, seed, tier, work, 1)
            if r["hung"] and not r["viol"] and not FOUND[0]:
                r2 = execute(j, s, seed, tier, work, 2)
                if r2["hung"] and not r2["viol"]:
                    where = re.sub(r"\s.*", "", j["name"])
                    found()
                    r2["viol"].append(("hang:" + where, "no end within %ds, twice (second time alone)" % j["timeout"], r2["cur"][:3000]))
                r = r2
            final.append(r)
        return verdict(pid, spec, tier, seed, jobs, final, t0, tb, only)
    finally:
        if keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def verdict(pid, spec, tier, seed, jobs, results, t0, tb, only):
    known = {}
    kf = os.path.join(VERIF, "known_findings.json")
    for e in json.load(open(kf))["findings"]:
        if e["property"] == pid and e["status"] == "known":
            known[e["key"]] = e
    counts, dsets, samples, per_job = {}, {}, [], {}
    errors, viols, seen_known = [], [], {}
    for r in results:
        pj = per_job.setdefault(r["job"], {"runs": 0, "wall_s": 0.0})
        pj["runs"] += 1
        pj["wall_s"] = round(pj["wall_s"] + r["wall"], 2)
        if r.get("error"):
            errors.append(r["error"])
        if r["summary"]:
            for k, v in r["summary"]["counts"].items():
                counts[k] = counts.get(k, 0) + v
            for k in r["summary"]["distinct"]:
                dsets.setdefault(k, set())
            try:
                for line in open(os.path.join(r["dir"], "report.txt.d")):
                    k, h = line.split()
                    dsets.setdefault(k, set()).add(h)
            except FileNotFoundError:
                pass
            for s in r["summary"]["samples"][:2]:
                if len(samples) < 8:
                    samples.append("%s: %s" % (r["job"], s))
        for v in r["viol"]:
            if v[0] in known:
                seen_known[v[0]] = v
            else:
                viols.append((r, v))
    distinct = {k: len(v) for k, v in dsets.items()}
    gates = []
    if not viols and not errors and not only:
        for k, n in spec.get("gate", {}).items():
            have = counts.get(k, distinct.get(k, 0))
            if have < n and k.startswith("inj_"):  # other calls may be made than the ones faults are put into
                print("NOTE: %s=%d, usually at least %d" % (k, have, n))
            elif have < n:
                gates.append("%s=%d, expected at least %d" % (k, have, n))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": int(counts.get(spec.get("eval", "cases"), counts.get("cases", 0))),
            "distinct_nontrivial": int(distinct.get(spec.get("distinct", "shape"), 0)),
            "rule": spec["rule"],
            "samples": samples or ["none recorded"],
            "observed": counts,
            "distinct": distinct,
            "jobs": per_job,
            "builds": sorted(set(j["flavor"] for j in jobs)),
            "build_s": round(tb, 1),
            "known_findings_reproduced": sorted(seen_known),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    if viols:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        done = set()
        for r, v in viols:
            if v[0] in done or len(done) >= 10:
                continue
            done.add(v[0])
            name = "%s-s%d-%s-%d-%s.txt" % (pid, seed, r["job"], r["shard"], re.sub(r"[^A-Za-z0-9_.-]+", "_", v[0])[:60])
            path = os.path.join(VERIF, "replays", name)
            with open(path, "w", errors="replace") as f:
                f.write("property: %s\nkey: %s\nwhat: %s\n\nre-run: VERIF_SEED=%d VERIF_TIER=%s python3 /verif/check.py %s --job %s\n"
                        "harness arguments: %s\n\ncase:\n%s\n\nstate when it ended:\n%s\n\nstderr:\n%s\n" %
                        (pid, v[0], v[1], seed, tier, pid, r["job"], r["cmd"], v[2], r["cur"], r["err"][-20000:]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  [%s/%s] %s" % (r["job"], v[0], v[1][:300].replace("\n", " | ")))
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR:", e)
        return 2
    if gates:
        print("INCONCLUSIVE: too little was observed:", "; ".join(gates))
        return 2
    print("OK %s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs (build %.1fs)" %
          (pid, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"], tb))
    return 0


if __name__ == "__main__":
    sys.exit(main())
