#!/usr/bin/env python3
"""Builds and runs the property check of one property against /repo's working tree.

    check.py run PROPERTY          tier and seed from VERIF_TIER (quick) and VERIF_SEED (1)
    check.py replay FILE           runs a saved replay file again
    check.py build [PROPERTY...]   builds only

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line: it is broken.
"""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
HARNESS = os.path.join(HERE, "harness")
WORKERS = 8

COMMON = ["-std=c++17", "-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-D__NO_CTYPE",
          "-Wall", "-Wextra", "-Wno-unused-parameter", "-ftrivial-auto-var-init=pattern"]
ASAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]
TSAN = ["-fsanitize=thread"]

# cases per tier; wall caps protect against a slow machine only
#   quick/thorough: number of generated cases; fuzz: seconds of coverage-guided search (thorough)
PROPS = json.load(open(os.path.join(HERE, "props.json")))

RUN_ENV = dict(os.environ)
RUN_ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=3000:"
                    "max_malloc_fill_size=65536:malloc_fill_byte=190:max_free_fill_size=65536:free_fill_byte=85:"
                    "detect_stack_use_after_return=1:quarantine_size_mb=16:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1",
    "LC_ALL": "C",
})
RUN_ENV.pop("VERIF_FUZZ_LOG", None)


class CompileError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ build
def digest_tree(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".cpp", ".inl", ".ipp", ".tpp")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


class Builder:
    def __init__(self):
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        self.repo_hash = digest_tree(os.path.join(REPO, "include"), os.path.join(REPO, "src"),
                                     os.path.join(REPO, "single_include"))
        self.harness_hash = digest_tree(HARNESS)
        self.pool = concurrent.futures.ThreadPoolExecutor(WORKERS)
        self.futures = {}

    def compile(self, src, flags, compiler="clang++", uses_repo=True):
        """Returns a future of the object file."""
        key = hashlib.sha256("\0".join([compiler, src] + flags + [self.repo_hash if uses_repo else "", self.harness_hash]).encode())
        with open(src, "rb") as f:
            key.update(f.read())
        name = re.sub(r"[^A-Za-z0-9]+", "_", os.path.basename(src)) + "-" + key.hexdigest()[:24] + ".o"
        obj = os.path.join(BUILD, "obj", name)
        if obj not in self.futures:
            self.futures[obj] = self.pool.submit(self._compile, compiler, src, flags, obj)
        return self.futures[obj]

    def _compile(self, compiler, src, flags, obj):
        if os.path.exists(obj):
            return obj
        tmp = "%s.%d.tmp" % (obj, os.getpid())
        cmd = [compiler] + flags + ["-c", src, "-o", tmp]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if p.returncode != 0:
            raise CompileError(" ".join(cmd) + "\n" + p.stdout)
        os.rename(tmp, obj)
        return obj

    def link(self, out, objs, flags, compiler="clang++"):
        objs = [o.result() for o in objs]
        tmp = "%s.%d.tmp" % (out, os.getpid())
        cmd = [compiler] + flags + objs + ["-o", tmp, "-lpthread"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if p.returncode != 0:
            raise CompileError(" ".join(cmd) + "\n" + p.stdout)
        os.rename(tmp, out)
        return out


def library_sources():
    d = os.path.join(REPO, "src")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]


def variant_flags(variant, fuzz=False):
    form, _, kind = variant.partition("-")
    san = {"tsan": TSAN, "plain": []}.get(kind, ASAN)
    flags = COMMON + san
    if fuzz:
        flags = flags + ["-fsanitize=fuzzer-no-link", "-DVERIF_LIBFUZZER"]
    inc = "include" if form == "lib" else "single_include"
    return flags, ["-I" + HARNESS, "-I" + os.path.join(REPO, inc), '-DVERIF_VARIANT="%s"' % variant], form


def start_variant(b, prop, variant, fuzz=False):
    """Starts the compilations of one program; returns a function that links it."""
    flags, inc, form = variant_flags(variant, fuzz)
    objs = [b.compile(os.path.join(HARNESS, "props", prop + ".cpp"), flags + inc),
            b.compile(os.path.join(HARNESS, "driver.cpp"), flags + inc)]
    if form == "lib":
        objs += [b.compile(s, flags + inc[1:2]) for s in library_sources()]
    objs += [b.compile(os.path.join(HARNESS, f), flags + inc[:1], uses_repo=False) for f in ("spec.cpp", "usage.cpp", "engine.cpp")]
    link = flags + (["-fsanitize=fuzzer"] if fuzz else [])
    out = os.path.join(BUILD, "bin", "%s-%s%s" % (prop, variant, "-fuzz" if fuzz else ""))
    return lambda: b.link(out, objs, [f for f in link if f.startswith("-fsanitize")])


# ------------------------------------------------------------------ C25: every build of the same program
C25_SERVER = ["server_main.cpp", "server_declare.cpp", "server_read.cpp"]


def c25_matrix(tier):
    forms = []
    for compiler in ("g++", "clang++"):
        for std in ("98", "11", "17", "20"):
            for form in ("lib", "single"):
                units = ["one", "many"] if std in ("11", "17") or tier == "thorough" else ["many" if form == "single" else "one"]
                for u in units:
                    forms.append((compiler, std, form, u, "-O2" if (std in ("98", "20")) else "-O1"))
    return forms


def build_servers(b, tier, outdir):
    """Builds the same program in every form; returns [(name, path)], raises CompileError."""
    os.makedirs(outdir, exist_ok=True)
    jobs = []
    for compiler, std, form, units, opt in c25_matrix(tier):
        inc = os.path.join(REPO, "include" if form == "lib" else "single_include")
        flags = ["-std=c++" + std, opt, "-fPIC", "-Wall", "-Wextra", "-Wno-unused-parameter", "-I" + inc, "-I" + HARNESS]
        if compiler == "g++":
            flags.append("-fno-gnu-unique") # nothing is shared between the builds
        srcs = C25_SERVER if units == "many" else ["server_all.cpp"]
        objs = [b.compile(os.path.join(HARNESS, s), flags, compiler) for s in srcs]
        if form == "lib":
            objs += [b.compile(s, flags, compiler) for s in library_sources()]
        name = "%s-%s-%s-%s" % (compiler.replace("+", "p"), std, form, units)
        jobs.append((name, objs, compiler))
    links = []
    for name, objs, compiler in jobs:
        out = os.path.join(outdir, name)
        links.append((name, b.pool.submit(b.link, out, objs, ["-shared", "-Wl,--version-script=" + os.path.join(HARNESS, "server.map")], compiler)))
    return [(n, f.result()) for n, f in links]


# ------------------------------------------------------------------ running
def run_workers(bins, prop, seed, count, seconds, tmp):
    """bins: list of (variant, path). Returns list of worker records."""
    procs = []
    per = max(1, WORKERS // len(bins))
    total = per * len(bins)
    w = 0
    for variant, path in bins:
        for _ in range(per):
            out = os.path.join(tmp, "w%d" % w)
            cmd = [path, "run", out, str(seed), str(w), str(total), str(count), str(seconds)]
            errf = open(out + ".err", "w")
            p = subprocess.Popen(cmd, stdout=errf, stderr=subprocess.STDOUT, env=RUN_ENV, cwd=tmp)
            procs.append({"variant": variant, "bin": path, "out": out, "proc": p, "cmd": cmd, "first": w, "step": total,
                          "err": errf})
            w += 1
    deadline = time.time() + seconds + 240
    for r in procs:
        try:
            r["rc"] = r["proc"].wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            r["proc"].kill()
            r["proc"].wait()
            r["rc"] = "stuck"
        r["err"].close()
        js = r["out"] + ".json"
        r["result"] = json.load(open(js)) if os.path.exists(js) else None
    return procs


def tail(path, n=4000):
    try:
        with open(path, "rb") as f:
            d = f.read()
        return d[:n].decode("utf-8", "replace") if len(d) <= n else (d[: n // 2] + b"\n...\n" + d[-n // 2:]).decode("utf-8", "replace")
    except OSError:
        return ""


def replay_once(path, replay, timeout=120):
    """True if it fails, False if it passes."""
    try:
        p = subprocess.run([path, "replay", replay], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=RUN_ENV,
                           timeout=timeout, cwd=tempfile.gettempdir())
    except subprocess.TimeoutExpired as e:
        return True, (e.stdout or b"").decode("utf-8", "replace") + "\n(does not end)"
    out = p.stdout.decode("utf-8", "replace")
    return p.returncode not in (40, 3, 2), out


def sequence_fails(path, seed, first, step, last, tmp):
    """Runs the cases first, first+step, ... <= last in one process; True if it fails at its end."""
    out = os.path.join(tmp, "seq")
    for e in (".json", ".fail", ".log"):
        if os.path.exists(out + e):
            os.unlink(out + e)
    try:
        p = subprocess.run([path, "run", out, str(seed), str(first), str(step), str(last + 1), "600"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=RUN_ENV, timeout=300, cwd=tmp)
    except subprocess.TimeoutExpired:
        return False, ""
    return p.returncode != 0, p.stdout.decode("utf-8", "replace")


def case_index(logpath):
    with open(logpath, "rb") as f:
        return int.from_bytes(f.read(8), "little")


def write_replay(dest, variant, body, note=""):
    with open(dest, "w") as f:
        f.write("variant: %s\n" % variant)
        f.write(body)
        if note:
            f.write("\nnote:\n" + note + "\n")


def confirm(prop, rec, seed, tmp):
    """Shrinks and replays the failure of one worker. Returns (replay path, message) or None."""
    replays = os.path.join(HERE, "evidence", "replays")
    os.makedirs(replays, exist_ok=True)
    path, out = rec["bin"], rec["out"]
    fail = out + ".fail"
    if rec["rc"] == "stuck":
        return None
    if not os.path.exists(fail):
        subprocess.run([path, "salvage", out + ".log", fail], env=RUN_ENV, cwd=tmp)
    dest = os.path.join(replays, "%s-%s.replay" % (prop, rec["variant"]))
    shrunk = out + ".shrunk"
    use = fail
    try:
        p = subprocess.run([path, "shrink", fail, shrunk, "40"], env=RUN_ENV, cwd=tmp, timeout=200,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if p.returncode == 0 and os.path.exists(shrunk) and all(replay_once(path, shrunk)[0] for _ in range(2)):
            use = shrunk
    except subprocess.TimeoutExpired:
        pass
    text = ""
    ok = True
    for _ in range(3):
        failed, text = replay_once(path, use)
        ok = ok and failed
    if ok:
        write_replay(dest, rec["variant"], open(use, encoding="utf-8", errors="replace").read(), text[:6000])
        return dest, text
    # it may need the cases before it in the same process
    if rec.get("first") is None:
        return None
    idx = case_index(out + ".log")
    step, first = rec["step"], rec["first"]
    failed, text = sequence_fails(path, seed, first, step, idx, tmp)
    if not failed:
        return None
    # shorter prefix
    n = (idx - first) // step
    keep = 1
    while keep < n:
        f, t = sequence_fails(path, seed, idx - keep * step, step, idx, tmp)
        if f:
            first, text = idx - keep * step, t
            break
        keep *= 4
    if not all(sequence_fails(path, seed, first, step, idx, tmp)[0] for _ in range(2)):
        return None
    detail = open(os.path.join(tmp, "seq.fail"), errors="replace").read() if os.path.exists(os.path.join(tmp, "seq.fail")) else text[:6000]
    write_replay(dest, rec["variant"], "property: %s\nsequence: %d %d %d %d\n" % (prop, seed, first, step, idx), detail)
    return dest, detail


def run_fuzz(prop, bins, seed, seconds, tmp):
    """Coverage-guided search; returns (records of failures, statistics)."""
    procs = []
    per = max(1, WORKERS // len(bins))
    k = 0
    for variant, path, plain in bins:
        for _ in range(per):
            d = os.path.join(tmp, "fuzz%d" % k)
            corpus = os.path.join(d, "corpus")
            os.makedirs(corpus)
            env = dict(RUN_ENV)
            env["VERIF_FUZZ_LOG"] = os.path.join(d, "x.log")
            errf = open(os.path.join(d, "err"), "w")
            cmd = [path, "-seed=%d" % (seed * 1000 + k + 1), "-max_total_time=%d" % seconds, "-max_len=2048", "-len_control=20",
                   "-timeout=25", "-rss_limit_mb=3000", "-print_final_stats=1", "-artifact_prefix=" + d + "/",
                   "-use_value_profile=%d" % (k % 2), corpus]
            p = subprocess.Popen(cmd, stdout=errf, stderr=subprocess.STDOUT, env=env, cwd=d)
            procs.append({"variant": variant, "bin": plain, "out": os.path.join(d, "x"), "proc": p, "dir": d, "err": errf, "first": None})
            k += 1
    fails, execs, features = [], 0, 0
    deadline = time.time() + seconds + 120
    for r in procs:
        try:
            r["rc"] = r["proc"].wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            r["proc"].kill()
            r["proc"].wait()
            r["rc"] = "stuck"
        r["err"].close()
        t = tail(os.path.join(r["dir"], "err"), 200000)
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", t)
        if m:
            execs += int(m.group(1))
        m = re.findall(r"cov: (\d+) ft: (\d+)", t)
        if m:
            features = max(features, int(m[-1][1]))
        if r["rc"] not in (0, "stuck"):
            fails.append(r)
    return fails, {"executions": execs, "features": features, "seconds": seconds, "processes": len(procs)}


def known_findings(prop):
    r = []
    path = os.path.join(HERE, "known_findings.txt")
    for line in open(path):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            r.append((m.group(2), m.group(3)))
    return r


def violation(prop, replay, detail):
    log(detail[:6000])
    log("VIOLATION property=%s replay=%s" % (prop, replay))


def run(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = PROPS[prop]
    t0 = time.time()
    if REPO == "/repo":
        evidence = os.path.join(HERE, "evidence")
    else:
        evidence = os.path.join(BUILD, "evidence")
    os.makedirs(evidence, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run_in(prop, tier, seed, conf, t0, evidence, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_in(prop, tier, seed, conf, t0, evidence, tmp):
    b = Builder()
    variants = conf.get("variants", ["lib", "single"])
    links = [(v, start_variant(b, prop, v)) for v in variants]
    findings = known_findings(prop)
    fbin = None
    if findings:
        flags, inc, _ = variant_flags("lib")
        fobjs = [b.compile(os.path.join(HARNESS, "findings.cpp"), flags + inc)] + [b.compile(s, flags + inc[1:2]) for s in library_sources()]
    servers = []
    if prop == "C25":
        try:
            servers = build_servers(b, tier, os.path.join(BUILD, "c25"))
        except CompileError as e:
            replays = os.path.join(evidence, "replays")
            os.makedirs(replays, exist_ok=True)
            dest = os.path.join(replays, "C25-build.txt")
            with open(dest, "w") as f:
                f.write(str(e))
            write_evidence(evidence, prop, tier, seed, t0, {"evaluations": len(c25_matrix(tier)), "distinct_nontrivial": len(c25_matrix(tier)),
                           "rule": "building the same program in every form", "samples": [str(e)[:1000]]}, 1)
            violation(prop, dest, "a build of the same program fails:\n" + str(e)[:4000])
            return 1
        RUN_ENV["VERIF_C25_SERVERS"] = ":".join(p for _, p in servers)
    bins, broken = [], None
    for v, l in links:
        try:
            bins.append((v, l()))
        except CompileError as e: # the other form of the library can still be judged
            broken = e
            log("note: the variant %s does not compile:\n%s" % (v, str(e)[:3000]))
    if not bins:
        raise broken
    variants = [v for v, _ in bins]
    if findings:
        fbin = b.link(os.path.join(BUILD, "bin", "findings"), fobjs, [f for f in flags if f.startswith("-fsanitize")])
    build_s = time.time() - t0
    for key, what in findings:
        p = subprocess.run([fbin, key], env=RUN_ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tmp)
        if p.returncode == 10:
            log("KNOWN-FINDING: property=%s %s" % (prop, what))
        elif p.returncode == 11:
            log("note: the finding %s no longer fails" % key)
        else:
            dest = os.path.join(evidence, "replays", "%s-finding-%s.txt" % (prop, key))
            os.makedirs(os.path.dirname(dest), exist_ok=True)
            with open(dest, "w") as f:
                f.write("finding: %s\n%s\n" % (key, p.stdout.decode("utf-8", "replace")))
            violation(prop, dest, "finding %s now fails in another way:\n%s" % (key, p.stdout.decode("utf-8", "replace")))
            return 1
    count = conf[tier]
    cap = 150 if tier == "quick" else 420
    recs = run_workers(bins, prop, seed, count, cap, tmp)
    failures = [r for r in recs if r["result"] is None or r["result"]["failed"] or r["rc"] != 0]
    cov = merge(recs)
    cov["build_s"] = round(build_s, 1)
    cov["variants"] = variants if not servers else [n for n, _ in servers]
    if tier == "thorough" and not failures and conf.get("fuzz", 0):
        flinks = [(v, start_variant(b, prop, v, fuzz=True)) for v in variants if "tsan" not in v]
        plain = dict(bins)
        fb = [(v, l(), plain[v]) for v, l in flinks]
        ff, stats = run_fuzz(prop, fb, seed, conf["fuzz"], tmp)
        cov["coverage_guided"] = stats
        cov["evaluations"] += stats["executions"]
        failures += ff
    confirmed = None
    unconfirmed = []
    # the smallest reproduction among the first of each variant
    seen = set()
    for r in failures:
        if r["variant"] in seen:
            continue
        got = confirm(prop, r, seed, tmp)
        if got:
            seen.add(r["variant"])
            if confirmed is None:
                confirmed = got
                break
        else:
            unconfirmed.append("%s: worker ended with %s and does not reproduce\n%s" % (r["variant"], r["rc"], tail(r["out"] + ".err", 1500)))
    cov["unconfirmed"] = unconfirmed
    write_evidence(evidence, prop, tier, seed, t0, cov, 1 if confirmed else 0)
    log("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, build %.1f s, total %.1f s" %
        (prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], cov["discarded"], build_s, time.time() - t0))
    if confirmed:
        violation(prop, confirmed[0], confirmed[1])
        return 1
    for u in unconfirmed:
        log("not reproducible, not reported: " + u)
    return 0


def merge(recs):
    import array
    ev = disc = non = 0
    labels, samples, rule = {}, [], ""
    hashes = set()
    timeup = False
    for r in recs:
        j = r["result"]
        if not j:
            continue
        ev += j["evaluations"]
        disc += j["discards"]
        non += j["nontrivial"]
        rule = j["rule"]
        timeup = timeup or j["timeup"]
        for k, v in j["labels"].items():
            labels[k] = labels.get(k, 0) + v
        if len(samples) < 4 and j["samples"]:
            samples.append(j["samples"][-1])
        h = array.array("Q")
        try:
            with open(r["out"] + ".hash", "rb") as f:
                h.frombytes(f.read())
        except OSError:
            pass
        hashes.update(h)
    return {"evaluations": ev, "distinct_nontrivial": len(hashes), "nontrivial": non, "discarded": disc, "rule": rule,
            "labels": dict(sorted(labels.items(), key=lambda x: -x[1])), "samples": samples or ["(none)"], "stopped_by_time": timeup}


def write_evidence(evidence, prop, tier, seed, t0, cov, violations):
    d = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": ["C locale", "x86-64 Linux with glibc and libstdc++", "words and texts contain no NUL byte"],
         "wall_s": round(time.time() - t0, 2), "violations": violations}
    path = os.path.join(evidence, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(d, f, indent=1, sort_keys=True)
        f.write("\n")
    os.rename(path + ".tmp", path)


def replay(path):
    head = open(path, errors="replace").read()
    prop = re.search(r"^property: (\S+)", head, re.M).group(1)
    variant = re.search(r"^variant: (\S+)", head, re.M).group(1)
    b = Builder()
    bin_ = start_variant(b, prop, variant)()
    if prop == "C25":
        RUN_ENV["VERIF_C25_SERVERS"] = ":".join(p for _, p in build_servers(b, "quick", os.path.join(BUILD, "c25")))
    m = re.search(r"^sequence: (\d+) (\d+) (\d+) (\d+)", head, re.M)
    if m:
        tmp = tempfile.mkdtemp(prefix="verif-replay-")
        failed, text = sequence_fails(bin_, *[int(x) for x in m.groups()], tmp)
        text += tail(os.path.join(tmp, "seq.fail"), 8000)
        shutil.rmtree(tmp)
    else:
        failed, text = replay_once(bin_, path)
    log(text)
    if failed:
        log("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if failed else 0


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "run":
        sys.exit(run(sys.argv[2]))
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) >= 2 and sys.argv[1] == "build":
        b = Builder()
        links = []
        for prop in sys.argv[2:] or sorted(PROPS):
            links += [start_variant(b, prop, v) for v in PROPS[prop].get("variants", ["lib", "single"])]
        for l in links:
            l()
        sys.exit(0)
    print(__doc__)
    sys.exit(2)


if __name__ == "__main__":
    main()
