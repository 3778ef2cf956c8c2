#!/usr/bin/env python3
"""run.py ID [--only SCENARIO] [--replay FILE] [-j N] [--keep]

Builds what the check of property ID needs from /repo's working tree (content-hashed object cache in
/verif/build), runs its explorer and writes evidence/ID.json.  Exit 0: held; 1: VIOLATION printed; 2: no answer.
"""
import sys, os, subprocess, hashlib, glob, shutil, tempfile, concurrent.futures, json

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

COMMON = ["-std=c++20", "-include", "cstdint", "-g1", "-fno-omit-frame-pointer", "-pthread", "-w"]
VARIANTS = {
    # sequential checks: address + undefined behaviour sanitizers, checked containers
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-sanitize=alignment,nonnull-attribute,returns-nonnull-attribute,vptr,pointer-overflow,shift",
             "-D_GLIBCXX_ASSERTIONS"],
    # race mode: loads and stores are reported to our own happens-before monitor (lib/race.cpp)
    "race": ["-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-fno-builtin"],
}
LINK = {
    "asan": ["-fsanitize=address,undefined"],
    "race": ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=strlen,--wrap=memchr"],
}
LIBS = ["-lz", "-lbrotlicommon", "-lbrotlidec", "-lbrotlienc", "-ldl", "-pthread"]

sys.path.insert(0, os.path.join(VERIF, "checks"))
from table import CHECKS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fhash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\1")
    return h.hexdigest()


def repo_headers():
    r = []
    for d in ("core", "extra"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(root, f) for f in files if f.endswith((".hpp", ".h", ".inc", ".ipp"))]
    return r


def repo_sources(dirs):
    out = []
    for d in dirs:
        for root, _, files in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(root, f) for f in files if f.endswith(".cpp")]
    return sorted(set(out))


class Builder:
    def __init__(self, variant):
        self.variant = variant
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        self.rh = fhash(repo_headers())
        self.lh = fhash(glob.glob(os.path.join(VERIF, "lib", "*.hpp")) + glob.glob(os.path.join(VERIF, "checks", "*.hpp")))

    def compile(self, src, flags, key):
        h = hashlib.sha256((key + "|" + " ".join(flags) + "|" + fhash([src])).encode()).hexdigest()[:32]
        obj = os.path.join(BUILD, "obj", h + ".o")
        if os.path.exists(obj):
            return obj, None
        tmp = obj + ".%d.tmp.o" % os.getpid()
        r = sh(["g++"] + flags + ["-c", src, "-o", tmp], cwd=REPO)
        if r.returncode:
            return None, "compile failed: %s\n%s" % (src, r.stdout[-4000:])
        os.replace(tmp, obj)
        return obj, None

    def resource(self):
        src = os.path.join(REPO, "core/html/resources/servicepage.html")
        if not os.path.exists(src):
            return []
        obj = os.path.join(BUILD, "obj", "res_" + fhash([src])[:24] + ".o")
        if not os.path.exists(obj):
            r = sh(["objcopy", "--input-target", "binary", "--output-target", "elf64-x86-64", "--binary-architecture",
                    "i386:x86-64", "core/html/resources/servicepage.html", obj], cwd=REPO)
            if r.returncode:
                return []
        return [obj]

    def build(self, chk, pid):
        v = VARIANTS[self.variant]
        inc = ["-I" + REPO, "-I" + os.path.join(REPO, "core"), "-I" + os.path.join(VERIF, "lib")]
        repo_flags = COMMON + v + inc[:1]
        plain = COMMON + ["-O2", "-fno-threadsafe-statics"] + inc
        harness_flags = COMMON + v + inc + chk.get("cflags", [])
        jobs = []
        full = ["core", "extra"]
        for attempt in (chk["dirs"], full):
            jobs = [(s, repo_flags, "repo" + self.rh) for s in repo_sources(attempt)]
            hs = [os.path.join(VERIF, s) for s in chk["src"]]
            jobs += [(s, harness_flags, "har" + self.rh + self.lh) for s in hs]
            libs = ["lib/explore.cpp"] + chk.get("lib", [])
            jobs += [(os.path.join(VERIF, s), plain, "lib" + self.lh + self.variant) for s in libs]
            if self.variant == "race":
                jobs = [(s, ([f for f in fl]), k) for s, fl, k in jobs]
            objs = []
            with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
                for obj, err in ex.map(lambda j: self.compile(*j), jobs):
                    if err:
                        print(err)
                        return None
                    objs.append(obj)
            objs += self.resource()
            lk = LINK[self.variant] + chk.get("ldflags", [])
            h = hashlib.sha256(" ".join(objs + lk).encode()).hexdigest()[:24]
            exe = os.path.join(BUILD, "%s_%s" % (pid, h))
            if os.path.exists(exe):
                return exe
            for old in glob.glob(os.path.join(BUILD, pid + "_*")):
                os.unlink(old)
            r = sh(["g++", "-rdynamic"] + objs + lk + LIBS + ["-o", exe])
            if r.returncode == 0:
                return exe
            if attempt == full:
                print("link failed\n" + r.stdout[-4000:])
        return None


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--setup":
        for t in ("g++", "objcopy"):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        return 0
    pid = sys.argv[1]
    extra = [os.path.abspath(a) if os.path.exists(a) else a for a in sys.argv[2:]]
    chk = CHECKS[pid]
    variants = chk["variants"] if "variants" in chk else [chk.get("variant", "asan")]
    rc = 0
    evs = []
    for i, variant in enumerate(variants):
        c = dict(chk)
        c.update(chk.get("per_variant", {}).get(variant, {}))
        exe = Builder(variant).build(c, pid + ("" if i == 0 else "." + variant))
        if not exe:
            return 2
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        tmp = tempfile.mkdtemp(prefix="mc_%s_" % pid, dir=base)
        ev = os.path.join(VERIF, "evidence", pid + ".json")
        if len(variants) > 1:
            ev = os.path.join(tmp, "ev.json")
        os.makedirs(os.path.dirname(ev), exist_ok=True)
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:detect_stack_use_after_return=0:handle_abort=0:abort_on_error=0:symbolize=1:malloc_context_size=12:quarantine_size_mb=%d:max_allocation_size_mb=2048%s" % (chk.get("quarantine", 8), chk.get("asan", ""))
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
        env["TZ"] = "XYZ-5:30"
        env["MC_SCRATCH"] = tmp
        cmd = [exe, "--evidence", ev, "--known", os.path.join(VERIF, "known_findings.txt"), "--tmp", os.path.join(tmp, "w"),
               "--replaydir", os.path.join(VERIF, "build", "replay")] + extra
        try:
            r = subprocess.run(cmd, env=env, cwd=tmp)
            if len(variants) > 1 and os.path.exists(ev):
                evs.append(json.load(open(ev)))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if r.returncode not in (0, 1):
            print("explorer ended with", r.returncode)
            rc = 2 if rc == 0 else rc
        elif r.returncode == 1:
            rc = 1
            break
    if evs:
        m = evs[0]
        for e in evs[1:]:
            for k, v in e["coverage"].items():
                if k in ("exhaustive",):
                    m["coverage"][k] = m["coverage"][k] and v
                elif isinstance(v, bool):
                    m["coverage"][k] = m["coverage"].get(k, False) or v
                elif k == "max_choice_points":
                    m["coverage"][k] = max(m["coverage"][k], v)
                elif isinstance(v, int):
                    m["coverage"][k] = m["coverage"].get(k, 0) + v
                elif isinstance(v, list) and k in ("samples", "scenarios"):
                    m["coverage"][k] += v
                elif isinstance(v, list):
                    m["coverage"][k] = [a + b for a, b in zip(m["coverage"][k], v)]
            m["wall_s"] += e["wall_s"]
            m["violations"] = m.get("violations", 0) + e.get("violations", 0)
        json.dump(m, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    return rc


if __name__ == "__main__":
    sys.exit(main())
