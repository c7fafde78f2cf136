#!/usr/bin/env python3
"""Plant one bug: take edits, confirm it in a scratch copy, store it under /verif/seeded/<id>/.

usage: seed.py FILE.py...   each file defines ID, PROP, EDITS=[(path, old, new)...], NEEDS, BREAKS, DEMO (C++ text),
and optionally SRC (sources of /repo/src to link, default all but CMysql), FLAGS, MAIN (demo.sh text instead of the default), FILES={name: text}.
"""
import json, os, shutil, subprocess, sys, tempfile

DEMO_SH = """#!/bin/bash
# exits 0 when the behaviour is right, nonzero when it is not; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
g++ -std=c++11 -w -O1 -g {flags} -I include "$here/demo.cpp" {src} -o "$w/demo" -lpthread || exit 3
cd "$w" && exec_dir="$w" timeout {timeout} ./demo
"""


def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def relaxed(data, old, new):
    """the text of data that matches old but for its indentation, and new indented like it"""
    import re
    pat = "\r?\n".join("[ \t]*" + re.escape(l.strip()) for l in old.strip("\n").split("\n"))
    ms = list(re.finditer("(?m)^" + pat, data))
    assert len(ms) == 1, "%d matches for %r" % (len(ms), old)
    m = ms[0].group(0)
    lead = re.match(r"[ \t]*", m).group(0)
    step = "\t" if "\t" in lead else "    "
    width = lambda l: len(l) - len(l.lstrip(" "))
    base = width(old.strip("\n").split("\n")[0])
    out = []
    for l in new.strip("\n").split("\n") if new.strip("\n") else []:
        out.append(lead + step * max(0, (width(l) - base) // 4) + l.strip() if l.strip() else "")
    if new.strip("\n"):
        return m, "\r\n".join(out) if "\r\n" in data else "\n".join(out)
    e = ms[0].end()
    m += "\r\n" if data[e:e + 2] == "\r\n" else "\n"
    return m, ""


def main(path):
    ns = {}
    exec(open(path).read(), ns)
    bid = ns["ID"]
    out = "/verif/seeded/" + bid
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        sh("git clone -q /repo " + w + "/r", "/")
        r = w + "/r"
        base = sh("git rev-list --max-parents=0 HEAD", r).stdout.decode().strip()
        for e in ns["EDITS"]:
            p, old, new = e[:3]
            data = open(r + "/" + p, newline="", encoding="latin-1").read()
            crlf = "\r\n" in data
            o, n = (old.replace("\n", "\r\n"), new.replace("\n", "\r\n")) if crlf else (old, new)
            if len(e) > 3:  # the e[3]-th occurrence
                parts = data.split(o)
                data = o.join(parts[:e[3] + 1]) + n + o.join(parts[e[3] + 1:])
            else:
                if o not in data:
                    o, n = relaxed(data, old, new)
                assert data.count(o) == 1, "%s: %d matches for %r" % (p, data.count(o), old)
                data = data.replace(o, n)
            open(r + "/" + p, "w", newline="", encoding="latin-1").write(data)
        diff = subprocess.run("git diff", shell=True, cwd=r, stdout=subprocess.PIPE).stdout
        import re
        for p in set(e[0] for e in ns["EDITS"]):
            blame = sh("git blame -s HEAD -- " + p, r).stdout.decode("latin-1").split("\n")
            hunks = sh("git diff -U0 -- " + p, r).stdout.decode("latin-1")
            touched = 0
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hunks, re.M):
                a, c = int(m.group(1)), int(m.group(2) or 1)
                for i in range(a, a + c):
                    if not blame[i - 1].startswith("^" + base[:7]):
                        print("   NOTE: %s:%d is not an original line" % (p, i))
                touched += c
            if not touched:
                print("   NOTE: %s: only additions" % p)
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "wb").write(diff)
        json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        if ns.get("DEMO"):
            open(out + "/demo.cpp", "w").write(ns["DEMO"])
        for n, t in ns.get("FILES", {}).items():
            open(out + "/" + n, "w").write(t)
        src = ns.get("SRC")
        if src is None:
            src = ["CAsyncLog", "CCommMgr", "CConfig", "CEvent", "CFileLog", "CHttpReader", "CHttpWriter", "CLog", "CNetWorker", "CTask", "CTcpConnector", "CThread", "CUdpConnector", "Utils"]
        text = ns.get("MAIN") or DEMO_SH.format(flags=ns.get("FLAGS", ""), src=" ".join("src/%s.cpp" % s for s in src), timeout=ns.get("TIMEOUT", 120))
        open(out + "/demo.sh", "w").write(text)
        os.chmod(out + "/demo.sh", 0o755)
        # demo: clean and patched
        clean = w + "/c"
        sh("git clone -q /repo " + clean, "/")
        reps = ns.get("REPEAT", 2)
        for k in range(reps):
            d = sh("bash %s/demo.sh" % out, clean)
            print("   clean demo:", d.returncode, "" if d.returncode == 0 else d.stdout.decode("latin-1")[-600:])
            if d.returncode: return 1
        for k in range(reps):
            d = sh("bash %s/demo.sh" % out, r)
            print("   patched demo:", d.returncode, d.stdout.decode("latin-1").strip().split("\n")[-1][:160])
            if d.returncode in (0, 3): return 1
        if "--notest" not in sys.argv:
            # the official build works on /repo: apply, build, test, undo
            assert sh("git status --porcelain", "/repo").stdout.strip() == b""
            a = sh("git apply %s/patch.diff" % out, "/repo")
            assert a.returncode == 0, a.stdout
            try:
                b = sh("bash /opt/vp/build.sh", "/repo")
                t = sh("bash /opt/vp/test.sh /tmp/sd/out.json", "/repo")
                res = json.load(open("/tmp/sd/out.json"))
            finally:
                sh("git checkout -- .", "/repo")
            base = json.load(open("/opt/vp/BASELINE.json"))
            print("   tests:", t.stdout.decode().strip().split("\n")[-1][:200])
            want = base.get("passed") or base.get("stable") or base
            got = json.dumps(res)
            if b.returncode: print("   BUILD FAILED"); return 1
        return 0
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    bad = 0
    for f in [a for a in sys.argv[1:] if not a.startswith("--")]:
        print(os.path.basename(f))
        r = main(f)
        print("   =>", "ok" if r == 0 else "REJECTED")
        bad |= r
    sys.exit(bad)
