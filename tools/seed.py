#!/usr/bin/env python3
"""seed.py SPEC.py... | --verify ID...   make / re-verify planted bugs under /verif/seeded (never touches /repo).

A spec file holds BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo={name: text}, link=...)].
Every bug is made and confirmed in a scratch copy: the changed lines are original ones, it builds, the stable tests
pass, the demonstration passes without it and fails with it; then the property's check runs on the copy.
"""
import sys, os, subprocess, json, re, shutil, fcntl, runpy, concurrent.futures, threading, queue

VERIF = "/verif"
REPO = "/repo"
SD = "/tmp/sd"
BASE = "5eefd93"
COMMON = ["demo.hpp"]
HERE = os.path.dirname(os.path.abspath(__file__))


def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           shell=isinstance(cmd, str), start_new_session=True, errors="replace")
        return p.returncode, p.stdout.decode(errors="replace") if isinstance(p.stdout, bytes) else p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, "timeout"


def prepare(n):
    d = os.path.join(SD, str(n))
    repo = os.path.join(d, "repo")
    head = sh(["git", "-C", REPO, "rev-parse", "HEAD"])[1].strip()
    mark = os.path.join(d, "head")
    if not (os.path.exists(mark) and open(mark).read() == head):
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        sh(["cp", "-a", REPO, repo])
        sh(["git", "-C", repo, "checkout", "-f", "--detach", head])
        for s in ("common.sh", "build.sh", "test.sh"):
            t = open("/opt/vp/" + s).read().replace("/opt/vp/common.sh", d + "/common.sh")
            t = t.replace("/repo/_build", repo + "/_build").replace("SRC=/repo\n", "SRC=%s\n" % repo)
            open(os.path.join(d, s), "w").write(t)
        rc, o = sh(["bash", d + "/build.sh"])
        if rc:
            print(o[-3000:])
            raise SystemExit("base build failed")
        open(mark, "w").write(head)
    sh(["git", "-C", repo, "checkout", "-f", "--", "."])
    return d, repo


def original_lines(repo, patch):
    """every removed line of the patch is a line of the original repository"""
    f = None
    bad = []
    n = 0
    for line in patch.split("\n"):
        if line.startswith("--- a/"):
            f = line[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m:
            ln = int(m.group(1))
            continue
        if f is None or line.startswith(("---", "+++", "diff", "index")):
            continue
        if line.startswith("-"):
            n += 1
            o = sh(["git", "-C", repo, "blame", "-s", "-l", "HEAD", "-L", "%d,%d" % (ln, ln), "--", f])[1].split()[0].lstrip("^")
            if sh(["git", "-C", repo, "merge-base", "--is-ancestor", o, BASE])[0] != 0:
                bad.append("%s:%d %s" % (f, ln, line[1:].strip()))
            ln += 1
        elif line.startswith(" "):
            ln += 1
    return n, bad


def demo(d, repo, src):
    tmp = os.path.join(d, "demo")
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(src, tmp, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    return sh(["unshare", "-Urn", "bash", "-c", "ip link set lo up; exec bash " + os.path.join(tmp, "demo.sh")], cwd=repo, timeout=300)


TESTLOCK = threading.Lock()
CHECKLOCK = threading.Lock()


def one(bid, spec, n):
    d, repo = prepare(n)
    out = os.path.join(os.environ.get("SEED_OUT", VERIF + "/seeded"), bid)
    log = []
    if spec is not None:
        for f, old, new in spec["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                return bid, "EDIT", "%s: %d matches for %r" % (f, t.count(old), old[:60])
            open(p, "w").write(t.replace(old, new))
        patch = sh(["git", "-C", repo, "diff"])[1]
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        dm = dict(spec["demo"])
        if "demo.sh" not in dm:
            shutil.copy(os.path.join(HERE, "demo.hpp"), os.path.join(out, "demo.hpp"))
            dm["demo.sh"] = DEMO_SH % dict(flags=spec.get("flags", ""), src=spec.get("src", ""))
        for k, v in dm.items():
            open(os.path.join(out, k), "w").write(v)
        json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]),
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        sh(["git", "-C", repo, "checkout", "-f", "--", "."])
    patch = open(os.path.join(out, "patch.diff")).read()
    pid = json.load(open(os.path.join(out, "meta.json")))["property"]
    if "--check-only" not in sys.argv:
        n_orig, bad = original_lines(repo, patch)
        if bad or not n_orig:
            return bid, "LINES", "%d removed, not original: %s" % (n_orig, bad)
        if os.path.exists(os.path.join(repo, "_build/dirty")):
            sh(["bash", d + "/build.sh"])
            os.unlink(os.path.join(repo, "_build/dirty"))
        rc, o = demo(d, repo, out)
        if rc:
            return bid, "DEMO-CLEAN", "exit %d\n%s" % (rc, o[-1500:])
    rc, o = sh(["git", "apply", os.path.join(out, "patch.diff")], cwd=repo)
    if rc:
        return bid, "APPLY", o
    try:
        if "--check-only" not in sys.argv:
            open(os.path.join(repo, "_build/dirty"), "w").close()
            rc, o = sh(["bash", d + "/build.sh"])
            if rc:
                return bid, "BUILD", o[-1500:]
            with TESTLOCK:
                sh(["unshare", "-Urn", "bash", "-c", "ip link set lo up; exec bash " + d + "/test.sh " + d + "/t.json"])
            r = json.load(open(d + "/t.json"))
            missing = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(r["passed"])
            if missing:
                return bid, "TESTS", "fail: %s" % sorted(missing)
            rc, o = demo(d, repo, out)
            if rc == 0:
                return bid, "DEMO-PATCHED", "demo passes with the bug\n" + o[-800:]
            log.append("demo exit %d: %s" % (rc, o.strip().split("\n")[-1][:200]))
        if "--no-check" not in sys.argv:
            with CHECKLOCK:
                rc, o = sh([os.path.join(VERIF, "run.py"), pid], timeout=1200, env={"VERIF_REPO": repo})
            v = [l for l in o.split("\n") if l.startswith("VIOLATION")]
            caught = rc == 1 and any("property=" + pid in l for l in v)
            log.append(("caught " if caught else "MISSED rc=%d " % rc) + " | ".join(v[:2]) + ("" if caught else "\n" + o[-600:]))
            return bid, "CAUGHT" if caught else "MISSED", "\n   ".join(log)
        return bid, "OK", "\n   ".join(log)
    finally:
        sh(["git", "-C", repo, "checkout", "-f", "--", "."])


DEMO_SH = """#!/bin/bash
# run in the repository's root after the build: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -g -w -include cstdint -pthread -I"$root" -I"$here" %(flags)s "$here/demo.cpp" %(src)s \\
  "$root/_build/src/lambda.a" -lz -lbrotlicommon -lbrotlidec -lbrotlienc -o "$tmp/demo" || exit 9
cd "$tmp" && timeout 120 ./demo
"""


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    jobs = []
    if "--verify" in sys.argv:
        jobs = [(a, None) for a in (args or sorted(os.listdir(os.path.join(VERIF, "seeded"))))]
    else:
        only = os.environ.get("ONLY", "").split()
        for a in args:
            for b in runpy.run_path(a)["BUGS"]:
                if only and b["id"] not in only:
                    continue
                jobs.append((b["id"], b))
    n = int(os.environ.get("N", "3"))
    pool = queue.Queue()
    for i in range(n):
        pool.put(i)

    def work(j):
        k = pool.get()
        try:
            return one(j[0], j[1], k)
        except Exception as x:  # noqa
            return j[0], "ERROR", repr(x)
        finally:
            pool.put(k)
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for r in ex.map(work, jobs):
            print("%-28s %-12s %s" % r, flush=True)
            with open(os.path.join(SD, "results.txt"), "a") as f:
                f.write("%s\t%s\t%s\n" % (r[0], r[1], r[2].replace("\n", " ")[:300]))


main()
