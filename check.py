#!/usr/bin/env python3
"""check.py <PROPERTY>: build the property's harness from /repo's working tree under the
sanitizers, run it, judge the recorded events, write evidence/<PROPERTY>.json.

exit 0  held on everything explored (KNOWN-FINDING lines for listed findings)
exit 1  VIOLATION property=<id> replay=<path>
exit 2  error of the check itself (does not build, watchdog, too few events)
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

JOBS = int(os.environ.get("VERIF_JOBS", "8"))
COMMON = ["-std=c++20", "-g1", "-w", "-fno-omit-frame-pointer", "-DDOTTORRENT_USE_OPENSSL", "-DFMT_HEADER_ONLY",
          "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]
VARIANTS = {
    "asan": ["-O1", "-fsanitize=address,undefined,float-divide-by-zero,float-cast-overflow", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O1"],
}
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=190:"
                    "detect_stack_use_after_return=1:allocator_may_return_null=0:handle_abort=0:strict_string_checks=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0",
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def fhash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def tree(d, exts=(".hpp", ".h")):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        out += [os.path.join(r, f) for f in sorted(fs) if f.endswith(exts)]
    return sorted(out)


class BuildError(Exception):
    pass


class LinkError(BuildError):
    pass


def compile_one(src, out, flags, pch):
    if os.path.exists(out):
        return
    tmp = out + ".%d.tmp" % os.getpid()
    r = sh(["g++", *flags, "-include", pch, "-I", REPO + "/include", "-I", REPO + "/src", "-I", VERIF + "/shims",
            "-I", VERIF + "/harness", "-c", src, "-o", tmp])
    if r.returncode != 0:
        errs = "\n".join(l for l in r.stdout.split("\n") if "error:" in l)
        raise BuildError("compiling %s failed:\n%s\n%s" % (src, errs[:3000], r.stdout[:3000]))
    os.replace(tmp, out)


def build(variant, harness, sources, defs=(), wrap=()):
    flags = COMMON + VARIANTS[variant] + list(defs)
    shims = tree(VERIF + "/shims")
    repo_h = tree(REPO + "/include") + tree(REPO + "/src")
    har_h = tree(VERIF + "/harness")
    fl = " ".join(flags)
    pdir = os.path.join(BUILD, "pch", fhash(shims, fl))
    pch = os.path.join(pdir, "prelude.hpp")
    if not os.path.exists(pch + ".gch"):
        os.makedirs(pdir, exist_ok=True)
        shutil.copy(VERIF + "/shims/prelude.hpp", pch)
        tmp = pch + ".%d.tmp" % os.getpid()
        r = sh(["g++", *flags, "-I", VERIF + "/shims", "-x", "c++-header", pch, "-o", tmp])
        if r.returncode != 0:
            raise BuildError("precompiled header:\n" + r.stdout[-3000:])
        os.replace(tmp, pch + ".gch")
    odir = os.path.join(BUILD, "obj"); os.makedirs(odir, exist_ok=True)
    jobs = []
    for s in sources:
        p = os.path.join(REPO, s)
        jobs.append((p, os.path.join(odir, fhash([p] + repo_h + shims, fl) + ".o")))
    hp = os.path.join(VERIF, "harness", harness)
    jobs.append((hp, os.path.join(odir, fhash([hp] + repo_h + shims + har_h, fl) + ".o")))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        # the harness first: it is usually the slowest unit
        futs = [ex.submit(compile_one, s, o, flags, pch) for s, o in reversed(jobs)]
        for f in futs:
            f.result()
    exe = os.path.join(BUILD, "bin", os.path.splitext(harness)[0] + "-" + variant + "-" +
                       hashlib.sha256(" ".join(o for _, o in jobs).encode()).hexdigest()[:12])
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh(["g++", *VARIANTS[variant], *[o for _, o in jobs], "-o", tmp, "-lcrypto", "-lpthread", *wrap])
        if r.returncode != 0:
            raise LinkError("linking:\n" + r.stdout[-6000:])
        os.replace(tmp, exe)
    return exe


def sources(sel):
    if sel == "all":
        out = []
        for d in ("src", "src/hasher/backends"):
            out += [d + "/" + f for f in sorted(os.listdir(os.path.join(REPO, d))) if f.endswith(".cpp")]
        return out
    if sel == "hashers":
        return ["src/hasher/backends/" + f for f in sorted(os.listdir(REPO + "/src/hasher/backends")) if f.endswith(".cpp")]
    return list(sel)


def unesc(s):
    return re.sub(r"\\(x[0-9a-f]{2}|.)", lambda m: {"n": "\n", "t": "\t", "\\": "\\"}.get(m.group(1), None) or
                  (chr(int(m.group(1)[1:], 16)) if m.group(1)[0] == "x" else m.group(1)), s)


class Result:
    def __init__(self):
        self.evals = 0; self.hashes = set(); self.samples = []; self.counters = {}
        self.viol = []; self.inconclusive = []


def parse_report(path, res, ctx):
    complete = False
    try:
        lines = open(path, encoding="latin-1").read().split("\n")
    except OSError:
        return False
    for l in lines:
        if l == "COMPLETE":
            complete = True
        f = l.split("\t")
        if len(f) < 2:
            continue
        if f[0] == "E": res.evals += int(f[1])
        elif f[0] == "H": res.hashes.add(f[1])
        elif f[0] == "S":
            if len(res.samples) < 12: res.samples.append(unesc(f[1]))
        elif f[0] == "C": res.counters[unesc(f[1])] = res.counters.get(unesc(f[1]), 0) + int(f[2])
        elif f[0] == "V": res.viol.append((unesc(f[1]), unesc(f[2]), ctx))
        elif f[0] == "I": res.inconclusive.append(unesc(f[1]))
    return complete


def classify(err, rc):
    for pat, k in (("CONTRACT-VIOLATION", "contract"), ("AddressSanitizer", "asan"), ("ThreadSanitizer", "race"),
                   ("runtime error:", "ubsan"), ("Assertion", "assert"), ("terminate called", "terminate")):
        if pat in err:
            return k
    return "signal%d" % -rc if rc < 0 else "exit%d" % rc


class Stop:
    """once a violation is in hand the other shards get a little more time only"""
    at = None


def session_cpu(sid):
    """processor time of all processes of a session; None if one of them waits for the disk"""
    tot = 0.0; hz = os.sysconf("SC_CLK_TCK")
    for d in os.listdir("/proc"):
        if not d.isdigit(): continue
        try: f = open("/proc/%s/stat" % d).read().rpartition(")")[2].split()
        except OSError: continue
        if int(f[3]) != sid: continue
        if f[0] == "D": return None
        tot += (int(f[11]) + int(f[12]) + int(f[13]) + int(f[14])) / hz  # with waited-for children
    return tot


def run_shard(exe, run, shard, tier, seed, scratch, limit, known=()):
    """-> Result, or raises TimeoutError (no verdict)"""
    res = Result()
    sdir = os.path.join(scratch, "s%s-%d" % (run.get("name", ""), shard)); os.makedirs(sdir, exist_ok=True)
    rep, mark, errf = (os.path.join(sdir, x) for x in ("report", "marker", "stderr"))
    cmd = [exe, "--seed", str(seed), "--shard", str(shard), "--shards", str(run.get("shards", 1)), "--tier", tier,
           "--report", rep, "--marker", mark, "--scratch", sdir]
    if known:
        cmd += ["--known", ",".join(known)]
    if run.get("mode"):
        cmd += ["--mode", run["mode"]]
    env = dict(os.environ, **SAN_ENV)
    env.pop("LD_PRELOAD", None)
    env.update(run.get("env", {}))
    for k, v in run.get("env_extra", {}).items(): env[k] = env.get(k, "") + v
    ctx = {"cmd": cmd, "variant": run["variant"], "shard": shard}
    pre = run.get("prefix", [])
    with open(errf, "wb") as ef:
        p = subprocess.Popen(pre + cmd, stdout=ef, stderr=ef, env=env, cwd=sdir, start_new_session=True)
        end = time.time() + limit; rc = None; stopped = False; hung = False
        last, since, cpu0, cpuw, probe = None, time.time(), 0.0, 0.0, time.time() + 5
        while True:
            if time.time() > probe:
                probe = time.time() + 2
                try: cur = open(mark, "rb").read()
                except OSError: cur = b""
                cpu = session_cpu(p.pid)
                if cur != last or cpu is None: last, since, cpu0 = cur, time.time(), cpu or 0.0; cpuw = cpu0
                elif cpu - cpu0 > 300: hung = True
                elif time.time() - since > 75:
                    if cpu - cpuw < 0.04 * (time.time() - since): hung = True
                    since, cpuw = time.time(), cpu
                if hung: break
            try:
                rc = p.wait(timeout=0.5); break
            except subprocess.TimeoutExpired:
                stopped = Stop.at is not None and time.time() > Stop.at
                if stopped or time.time() > end:
                    break
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.wait()
    err = open(errf, encoding="utf-8", errors="replace").read()
    mk = open(mark, encoding="latin-1").read().split("\0")[0] if os.path.exists(mark) else ""
    label, _, detail = mk.partition("\n")
    complete = parse_report(rep, res, ctx)
    shutil.rmtree(sdir, ignore_errors=True)
    if rc is None and stopped:
        return res, None
    if hung:
        return res, ("hang", label, detail, err)
    if rc is None:
        return res, ("timeout", label, detail, err)
    if rc != 0 or not complete:
        if rc == -9:
            return res, ("killed", label, detail, err)
        kind = classify(err, rc)
        res.viol.append(("crash:%s" % (label or "?"), "%s\n%s\n%s" % (kind, detail, err[-12000:] if kind != "race" else err[:12000]), ctx))
    elif "WARNING: ThreadSanitizer" in err:
        res.viol.append(("race:%s" % label, detail + "\n" + err[:12000], ctx))
    return res, None


def load_known(prop):
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known


def prune():
    """keep the build cache small"""
    try:
        ents = []
        for d in ("obj", "bin", "pch"):
            for r, _, fs in os.walk(os.path.join(BUILD, d)):
                for f in fs:
                    p = os.path.join(r, f); st = os.stat(p); ents.append((st.st_mtime, st.st_size, p))
        tot = sum(e[1] for e in ents)
        for mt, sz, p in sorted(ents):
            if tot < 6 << 30: break
            os.unlink(p); tot -= sz
    except OSError:
        pass


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    total = Result(); errors = []
    try:
        prune()
        runs = [r for r in spec["runs"] if tier == "thorough" or not r.get("thorough_only")]
        plan = []
        for i, run in enumerate(runs):
            try:
                exe = build(run["variant"], spec["harness"], sources(spec["sources"]), run.get("defs", ()), run.get("wrap", ()))
            except LinkError:  # what used to be in a header may have moved to a source file
                if spec["sources"] == "all": raise
                exe = build(run["variant"], spec["harness"], sources("all"), run.get("defs", ()), run.get("wrap", ()))
            seeds = [seed] if tier == "quick" else [seed + 1000 * k for k in range(run.get("thorough_seeds", 1))]
            for sd in seeds:
                for s in range(run.get("shards", 1)):
                    plan.append((exe, dict(run, name="%s%d-%d" % (run["variant"], i, sd)), s, sd, run.get("cost", 1)))
        tbuild = time.time() - t0
        limit = spec.get("limit", 700) if tier == "quick" else spec.get("limit", 300) * 12
        workers = spec.get("workers", JOBS)

        known_keys = [k for k, _ in load_known(prop)]

        def go(item):
            res = go1(item)
            if any(k not in known_keys for k, _, _ in res.viol) and Stop.at is None:
                Stop.at = time.time() + 45
            return res

        def go1(item):
            exe, run, s, sd, _ = item
            if Stop.at is not None and time.time() > Stop.at:
                return Result()
            res, bad = run_shard(exe, run, s, tier, sd, scratch, limit, known_keys)
            if bad and bad[0] == "hang":
                res.viol.append(("hang:%s" % bad[1], "no progress in this case\n%s\n%s" % (bad[2], bad[3][-4000:]),
                                 {"variant": run["variant"], "shard": s}))
            elif bad and bad[0] == "killed":  # inconclusive: once more
                res, bad = run_shard(exe, run, s, tier, sd, scratch, limit, known_keys)
            if bad and bad[0] != "hang":
                res.inconclusive.append("%s %s" % (bad[0], bad[1]))
            return res

        with cf.ThreadPoolExecutor(workers) as ex:
            for res in ex.map(go, plan):
                total.evals += res.evals; total.hashes |= res.hashes
                for s in res.samples:
                    if len(total.samples) < 12: total.samples.append(s)
                for k, v in res.counters.items(): total.counters[k] = total.counters.get(k, 0) + v
                total.viol += res.viol; total.inconclusive += res.inconclusive
    except BuildError as e:
        print("ERROR: build failed for %s\n%s" % (prop, e)); shutil.rmtree(scratch, ignore_errors=True); sys.exit(2)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = load_known(prop)
    new, seen_known = [], {}
    for key, detail, ctx in total.viol:
        k = next((k for k in known if k[0] == key), None)
        if k: seen_known.setdefault(k, 0); seen_known[k] += 1
        else: new.append((key, detail, ctx))
    for k in known:
        if k in seen_known: print("KNOWN-FINDING: property=%s key=%s %s" % (prop, k[0], k[1]))
    if not new and total.inconclusive: errors.append("inconclusive: " + "; ".join(total.inconclusive[:5]))
    for name, minimum in spec.get("min_events", {}).items():
        if not new and total.counters.get(name, 0) < minimum:
            errors.append("monitor observed only %d of '%s' (need %d)" % (total.counters.get(name, 0), name, minimum))
    if not new and total.evals == 0: errors.append("nothing evaluated")

    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": total.evals, "distinct_nontrivial": len(total.hashes), "rule": spec["rule"],
                       "samples": total.samples or ["(none)"], "observed": dict(sorted(total.counters.items())),
                       "runs": [{k: r[k] for k in ("variant", "mode", "shards") if k in r} for r in runs],
                       "build_s": round(tbuild, 1),
                       "known_findings_seen": sorted(k[0] for k in seen_known)},
          "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if new:
        rp = os.path.join(VERIF, "replays", "%s-seed%d.json" % (prop, seed))
        json.dump({"property": prop, "tier": tier, "seed": seed,
                   "how": "VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (seed, tier, prop),
                   "violations": [{"key": k, "detail": d, "run": c} for k, d, c in new[:40]]}, open(rp, "w"), indent=1)
        for k in dict.fromkeys(k for k, _, _ in new): print("violated: %s" % k)
        k, d, _ = new[0]
        print("first witness (%s): %s" % (k, d[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if errors:
        print("ERROR: " + "\n".join(errors)); sys.exit(2)
    print("OK property=%s tier=%s evaluations=%d distinct=%d %s wall=%.1fs" %
          (prop, tier, total.evals, len(total.hashes), json.dumps(dict(sorted(total.counters.items()))), time.time() - t0))


if __name__ == "__main__":
    main()
