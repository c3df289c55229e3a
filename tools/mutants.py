#!/usr/bin/env python3
"""mutants.py [-n N] [-s SEED] [-w WORKERS] [-f REGEX]: sample small source mutants of /repo (relational, arithmetic and
logical operators, constants, removed statements, ...), run the checks of the properties anchored in the mutated file and
print which mutants no check reports. Works in scratch clones; not registered in MANIFEST.json."""
import argparse, os, random, re, shutil, subprocess, sys, tempfile, threading, time, queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PIPE = "C08 C09 C10 C12 C13 C11 C15 C14 C30 C31 C32 C33 C16"
MAP = [("announce_url", "C23 C21 C18"), ("aligned_alloc", "C28"), ("bitmask|general|literals", "C26 C24 C27"), ("checksum.hpp|hash.hpp|hash_function|info_hash|dht_node", "C26 C25 C18"),
       ("concurrent_queue_proc", "C07 C05"), ("concurrent_queue.hpp", "C04 C05"), ("object_pool", "C06"), ("hex.hpp", "C01"),
       ("percent", "C02 C22"), ("magnet", "C22 C19"), ("merkle", "C17 C09"), ("metafile_serial|serialization", "C18 C19 C22"), ("metafile_pars", "C21 C20 C18 C19"),
       ("metafile", "C18 C23 C25 C19"), ("file_entry|file_storage", "C24 C25 C29 C27 C18 C08"), ("src/hasher|hasher/", "C03 C26"), ("utils", "C26 C27 C17 C29"), ("", PIPE)]
SKIP = "multi_buffer|_mb\\.|isal|wolfssl|wincng|gcrypt|backend_info"
ap = argparse.ArgumentParser(); ap.add_argument("-n", type=int, default=20); ap.add_argument("-s", type=int, default=1); ap.add_argument("-w", type=int, default=3)
ap.add_argument("-f", default="."); ap.add_argument("-d", default=None, help="scratch directory"); ap.add_argument("-o", default=None, help="directory for surviving patches")
a = ap.parse_args(); rnd = random.Random(a.s)
repo = os.environ.get("VERIF_REPO", "/repo")
run = lambda *c, **k: subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
files = [f for f in run("git", "-C", repo, "ls-files", "src", "include").stdout.split() if re.search(r"\.[ch]pp$", f) and not re.search(SKIP, f) and re.search(a.f, f)]
OPS = [(r"(?<![<>=!\-+*/&|])<(?![<=])(?=\s)", "<="), (r"<=", "<"), (r"(?<=\s)>(?![>=])(?=\s)", ">="), (r">=(?!>)", ">"), (r"==", "!="), (r"!=", "=="), (r"&&(?=\s)", "||"), (r"\|\|", "&&"),
       (r"(?<=\s)\+(?=\s)", "-"), (r"(?<=\s)-(?=\s)", "+"), (r"(?<=\s)%(?=\s)", "/"), (r"(?<=\s)/(?=\s)", "*"), (r"\+=", "="), (r"-=", "+="), (r"\+\+", "--"), (r"--(?=\w)", "++"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bstd::min\b", "std::max"), (r"\bstd::max\b", "std::min"), (r"if \(!", "if ("), (r"if \((?!!|auto|const)", "if (!"),
       (r"\bcontinue;", ";"), (r"\bbreak;", ";"), (r"notify_all", "notify_one"), (r"notify_one\(\)", "notify_one"), (r"(?<![\w.\"'])0(?![\w.x])", "1"), (r"(?<![\w.\"'])([1-9]\d*)(?![\w.])", lambda m: str(int(m[1]) + 1)),
       (r"emplace_back", "emplace_back"), (r"\.begin\(\)", ".end()"), (r"\bstable_sort\b", "sort"), (r"insert_or_assign", "emplace"), (r"\bstd::move\(([^()]+)\)", r"\1")]
def mutants(f):
    lines = open(os.path.join(repo, f)).read().split("\n"); out = []; comment = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"): comment = True
        if comment or not s or s.startswith(("//", "#", "*", "using", "namespace", "template", "static_assert", "requires", "typename")):
            if "*/" in s: comment = False
            continue
        code = l.split("//")[0] if "://" not in l else l
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2: continue
                new = code[:m.start()] + (m.expand(rep) if isinstance(rep, str) else rep(m)) + code[m.end():]
                if new != code: out.append((n, new))
        if re.match(r"^[\w:.\->\[\]*()]+(\(.*\)|\s*[+\-|&]?=\s.*|\+\+|--);$", s) and not s.startswith(("return", "throw", "delete", "break", "continue")): out.append((n, re.sub(r"\S.*", ";", code)))
        if re.match(r"^(return|throw)\b.*;$", s) and s.startswith("throw"): out.append((n, re.sub(r"\S.*", ";", code)))
    return [(f, n, lines[n], new) for n, new in out]
allm = []
for f in files: allm += mutants(f)
rnd.shuffle(allm); total = len(allm); picked = allm[:a.n]
print("%d mutants possible in %d files, %d sampled" % (total, len(files), len(picked)), flush=True)
q = queue.Queue(); [q.put(x) for x in picked]; lock = threading.Lock(); tally = {}
base = a.d or tempfile.mkdtemp(prefix="mutants.")
if a.o: os.makedirs(a.o, exist_ok=True)
def worker(k):
    d = os.path.join(base, "w%d" % k)
    if not os.path.isdir(d): run("git", "clone", "-q", repo, d)
    while True:
        try: f, n, old, new = q.get_nowait()
        except queue.Empty: return
        run("git", "-C", d, "checkout", "-q", "--", ".")
        p = os.path.join(d, f); L = open(p).read().split("\n"); L[n] = new; open(p, "w").write("\n".join(L))
        checks = next(c for pat, c in MAP if re.search(pat, f)).split(); res = "MISSED"; by = ""; t0 = time.time()
        for c in checks:
            r = run("timeout", "900", "python3", V + "/check.py", c, "quick", env=dict(os.environ, VERIF_REPO=d, VERIF_JOBS=os.environ.get("VERIF_JOBS", "3")))
            if r.returncode == 1: res = "caught"; by = c + " " + " ".join(sorted(set(re.findall(r"violated: (\S+)", r.stdout)))[:3]); break
            if "build failed" in r.stdout: res = "nobuild"; break
            if r.returncode: res = "ERROR"; by = c + " " + r.stdout[-200:].replace("\n", " ")
        diff = run("git", "-C", d, "diff").stdout
        with lock:
            tally[res] = tally.get(res, 0) + 1
            print("%-7s %s:%d  %s  =>  %s  [%s] %ds" % (res, f, n + 1, old.strip()[:110], new.strip()[:110], by, time.time() - t0), flush=True)
            if a.o and res in ("MISSED", "ERROR"): open(os.path.join(a.o, "%s-%d-%d.diff" % (os.path.basename(f), n + 1, hash(new) & 0xffff)), "w").write(diff)
T = [threading.Thread(target=worker, args=(k,)) for k in range(a.w)]; [t.start() for t in T]; [t.join() for t in T]
if not a.d: shutil.rmtree(base, ignore_errors=True)
print(tally)
