#!/usr/bin/env python3
"""mutate.py [-w WORKERS] [-j J] [-s STRIDE] [-o OFFSET] FILE...   mutation testing of the checks (scratch copies only).

Makes small syntactic changes of /repo's sources one at a time in a scratch copy and runs the checks responsible for
the file until one reports a violation.  Survivors are printed for review: equivalent, outside every property, or a gap.
"""
import sys, os, re, subprocess, shutil, threading, queue, hashlib, argparse, time

ROOT = "/tmp/mt"
MAP = [
 ("core/http/transport_v1.cpp", "C01 C02 C04 C03 C05 C36 C06 C07 C14 C10 C40 C41 C42"),
 ("core/http/auth.cpp", "C36"), ("core/http/cookies.cpp", "C30"), ("core/http/kvcontainer.cpp", "C29 C02"),
 ("core/http/url", "C29 C01"), ("core/http/method.cpp", "C37"), ("core/http/status.cpp", "C37"), ("core/http/body.cpp", "C02 C01"),
 ("core/http/re", "C30 C02 C01"), ("core/encoding/", "C25"), ("core/crypto/sha1", "C26"), ("core/crypto/uid", "C34"),
 ("core/compression/brotli", "C27 C03"), ("core/compression/zlib_oneshot", "C27 C03"), ("core/compression/zlib_stream", "C28 C42 C21 C22"),
 ("core/html/renderer", "C31 C06"), ("core/html/", "C31 C06"), ("core/polyfill/date", "C37 C45 C46"), ("core/polyfill/mime", "C37 C24"), ("core/polyfill/", "C32 C37"),
 ("core/utils/syncout", "C33"), ("core/utils/", "C37 C33"), ("core/json/", "C15 C16 C45"), ("core/sse/", "C14"),
 ("core/websocket/", "C10 C11 C12 C13"), ("core/server/instance", "C43 C09 C07 C40 C12 C08"), ("core/server/worker", "C06 C40 C05 C02 C04 C14 C10 C01 C07 C12 C11 C42 C08"),
 ("core/server/errorpage", "C06"), ("core/server/", "C06 C02 C08 C09"), ("core/network/tcp/listener", "C43 C40 C41 C35 C07 C08"), ("core/network/", "C35 C41 C07 C01 C42 C08"),
 ("extra/kvstorage/", "C17 C42 C19 C18"), ("extra/vfs/format_tar", "C21 C22 C23"), ("extra/vfs/syncqueue", "C21 C23 C22"), ("extra/vfs/", "C20 C21 C23"), ("extra/staticserver", "C24"),
]
OPS = [
 (r"<=", "<"), (r">=", ">"), (r"(?<![<\-=(\w])\s<\s(?![<=])", " <= "), (r"(?<![>\-])\s>\s(?![>=])", " >= "), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
 (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\s\+\s", " - "), (r"\s-\s", " + "), (r"!(?=[\w(])", ""), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"),
 (r"(?<![\w.])(\d+)(?![\w.])", lambda m: str(int(m.group(1)) + 1)), (r"(?<![\w.])([1-9]\d*)(?![\w.])", lambda m: str(int(m.group(1)) - 1)),
 (r"\+=", "-="), (r"\b(\w+)\+\+", r"\1"), (r"\s&\s", " | "), (r"<<", ">>"), (r">>", "<<"),
]


def mutants(path, text):
    lines = text.split("\n")
    com = False
    for i, l in enumerate(lines):
        s = l.strip()
        if com:
            com = "*/" not in s
            continue
        if s.startswith("/*"):
            com = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "using ", "namespace", "template", "static_assert", "case ")) :
            continue
        code = re.split(r"\s//", l)[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                # not inside a string literal
                if code[:m.start()].count('"') % 2:
                    continue
                new = code[:m.start()] + m.expand(rep) + code[m.end():] if isinstance(rep, str) else code[:m.start()] + rep(m) + code[m.end():]
                yield i, new
        if s.endswith(";") and not s.startswith(("return", "}", "{", "const ", "auto ", "static ", "std::", "size_t ", "break", "continue", "throw", "default")) or re.match(r"(std::(lock_guard|unique_lock|scoped_lock)|throw |return;)", s) or re.search(r"\)\s*(return|throw|break|continue)\b.*;$", s):
            yield i, re.match(r"\s*", l).group(0) + ";"
        m = re.match(r"(\s*)(else\s+)?if \((.*)\)(\s*\{|\s+return.*|\s+throw.*)?$", l)
        if m and m.group(3).count("(") == m.group(3).count(")"):
            yield i, "%s%sif (!(%s))%s" % (m.group(1), m.group(2) or "", m.group(3), m.group(4) or "")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-w", type=int, default=2)
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-o", type=int, default=0)
    ap.add_argument("-c", default="")
    ap.add_argument("-t", default=ROOT)
    ap.add_argument("files", nargs="+")
    a = ap.parse_args()
    todo = queue.Queue()
    n = 0
    for f in a.files:
        text = open("/repo/" + f).read()
        seen = set()
        ms = []
        for i, new in mutants(f, text):
            if (i, new) not in seen and new != text.split("\n")[i]:
                seen.add((i, new))
                ms.append((f, i, new))
        for k, m in enumerate(ms):
            if (k * 2654435761 >> 7) % a.s == a.o % a.s:
                todo.put(m)
                n += 1
    print("%d mutants" % n, flush=True)
    lock = threading.Lock()
    stat = {"killed": 0, "survived": 0, "invalid": 0}

    def work(w):
        d = os.path.join(a.t, str(w))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        shutil.rmtree(d + "/repo/_build", ignore_errors=True)
        os.makedirs(d + "/verif")
        for x in ("lib", "checks", "tests", "run.py", "known_findings.txt"):
            subprocess.run(["cp", "-a", "/verif/" + x, d + "/verif/"], check=True)
        env = dict(os.environ, VERIF_REPO=d + "/repo")
        while True:
            try:
                f, i, new = todo.get_nowait()
            except queue.Empty:
                return
            p = d + "/repo/" + f
            text = open("/repo/" + f).read()
            lines = text.split("\n")
            old = lines[i]
            lines[i] = new
            open(p, "w").write("\n".join(lines))
            checks = a.c.split(",") if a.c else next(c for k, c in MAP if f.startswith(k)).split()
            res = "survived"
            t0 = time.time()
            for c in checks:
                try:
                    r = subprocess.run([d + "/verif/run.py", c, "-j", str(a.j)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800, errors="replace")
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 9
                if rc == 1:
                    res = "killed"
                    break
                if rc == 2:
                    res = "invalid"
                    break
                if rc != 0:
                    res = "survived"
                    print("rc", rc, c, flush=True)
            open(p, "w").write(text)
            with lock:
                stat[res] += 1
                if res == "survived":
                    print("SURVIVED %s:%d  (%s)\n  - %s\n  + %s" % (f, i + 1, c, old.strip(), new.strip()), flush=True)
                if (stat["killed"] + stat["survived"] + stat["invalid"]) % 25 == 0:
                    print(stat, flush=True)

    ts = [threading.Thread(target=work, args=(w,)) for w in range(a.w)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print(stat, flush=True)
    shutil.rmtree(a.t, ignore_errors=True)


main()
