#!/usr/bin/env python3
"""Runs the check of one property:  run.py ID [--tier quick|thorough] [--replay FILE]

Builds the library from /repo's current working tree together with the
property's harness (cached by content under build/), runs the generated-input
search, writes evidence/ID.json and prints VIOLATION / KNOWN-FINDING lines.
Exit 0: held on everything explored; 1: violation; anything else: error.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
DEFS = ["-DMAX_HTTP_HEADER_SIZE=0xC800", "-DMAX_HTTP_BODY_SIZE=0xA00000", "-DLISTEN_QUEUE_SIZE=64", "-DUSE_SSL",
        "-DNOMINMAX", "-Dhtonf", "-Dhtonll", "-Dntohll", "-Dhtond", "-Dntodh"]
UB = "-fsanitize=bool,bounds,null,return,unreachable,vptr,signed-integer-overflow,integer-divide-by-zero"
SAN = ["-fsanitize=address", UB, "-fno-sanitize-recover=all"]
KINDS = {
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer"] + SAN,
    "fuzz": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=fuzzer-no-link"] + SAN,
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}
LINK = {"asan": SAN, "fuzz": ["-fsanitize=fuzzer"] + SAN, "tsan": ["-fsanitize=thread"]}
MBED = ["-lmbedtls", "-lmbedx509", "-lmbedcrypto"]

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(os.path.basename(p).encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def headers():
    return glob.glob(REPO + "/include/**/*.h", recursive=True) + glob.glob(REPO + "/include/**/*.hpp", recursive=True) \
        + glob.glob(REPO + "/src/*.h")


def version_header(inc_dir):
    """include/frnetlib/version.h is generated by the build and ignored by git."""
    v = REPO + "/include/frnetlib/version.h"
    if not os.path.exists(v):
        d = os.path.join(inc_dir, "frnetlib")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "version.h"), "w") as f:
            f.write("#pragma once\n#define FRNETLIB_VERSION_MAJOR 1\n#define FRNETLIB_VERSION_MINOR 0\n#define FRNETLIB_VERSION_PATCH 0\n")


def defines(override):
    names = {d.split("=")[0] for d in override}
    return [d for d in DEFS if d.split("=")[0] not in names] + list(override)


def compile_obj(src, kind, std, extra=(), defs=()):
    flags = [std, "-pthread"] + defines(defs) + KINDS[kind] + ["-w", "-I" + REPO + "/include", "-I" + BUILD + "/inc", "-I" + HARN] + list(extra)
    hh = headers() + (glob.glob(HARN + "/*.hpp") if src.startswith(VERIF) else [])
    key = hashlib.sha256((file_hash(hh + [src]) + " ".join(flags) + src).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = "%s.%d" % (out, os.getpid())
        r = sh(["clang++", "-c", src, "-o", tmp] + flags)
        if r.returncode:
            raise SystemExit("compile failed: %s\n%s" % (src, r.stdout[-6000:]))
        os.replace(tmp, out)
    return out


def build(pid, kinds):
    """kinds: list of build kinds; returns {kind: binary}"""
    c = CHECKS[pid]
    version_header(BUILD + "/inc")
    lib = sorted(glob.glob(REPO + "/src/*.cpp"))
    har = [os.path.join(HARN, "engine.cpp"), os.path.join(HARN, c["src"])] + [os.path.join(HARN, x) for x in c.get("extra", [])]
    jobs = {}
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for k in kinds:
            for s in har:
                fl = ["-DVP_FUZZ"] if (k == "fuzz" and s.endswith("engine.cpp")) else []
                # the engine itself is not instrumented for coverage
                kk = "asan" if (k == "fuzz" and s.endswith("engine.cpp")) else k
                jobs[ex.submit(compile_obj, s, kk, "-std=c++17", fl, c.get("defs", []))] = (k, s)
            for s in sorted(lib, key=lambda x: -os.path.getsize(x)):
                jobs[ex.submit(compile_obj, s, k, "-std=c++14", [], c.get("defs", []))] = (k, s)
        objs = {k: [] for k in kinds}
        for f in cf.as_completed(jobs):
            objs[jobs[f][0]].append(f.result())
    bins = {}
    for k in kinds:
        o = sorted(objs[k])
        wraps = ["-Wl,--wrap=" + w for w in c.get("wrap", [])]
        key = hashlib.sha256((" ".join(o) + " ".join(wraps) + str(c.get("static_tls")) + k).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "bin", "%s-%s-%s" % (pid, k, key))
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            tmp = "%s.%d" % (out, os.getpid())
            # mbedtls's own system calls are interposed too when it is linked statically
            mbed = ["-l:lib%s.a" % m[2:] for m in MBED] if wraps and c.get("static_tls") else MBED
            r = sh(["clang++", "-pthread", "-o", tmp] + o + LINK[k] + wraps + mbed)
            if r.returncode:
                raise SystemExit("link failed:\n" + r.stdout[-6000:])
            os.replace(tmp, out)
        bins[k] = out
    return bins


# ------------------------------------------------------------------ dictionary
STR = re.compile(r'"((?:[^"\\\n]|\\.)*)"')
CHR = re.compile(r"'((?:[^'\\\n]|\\.[0-7x0-9a-fA-F]*))'")
INT = re.compile(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])")


def unescape(s):
    try:
        return s.encode("latin-1", "replace").decode("unicode_escape").encode("latin-1", "replace")
    except Exception:
        return s.encode()


def literals():
    ints, strs = set(), set()
    for p in glob.glob(REPO + "/src/*.cpp") + headers():
        if p.endswith("version.h"):
            continue
        t = open(p, errors="replace").read()
        t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
        t = re.sub(r"(?m)//[^\"\n]*$", " ", t)
        t = re.sub(r"(?m)^\s*#\s*include.*$", " ", t)
        for m in STR.finditer(t):
            b = unescape(m.group(1))
            if 0 < len(b) <= 64 and not re.match(rb"^\.[\w, .]+$", b) and not re.match(rb"^(application|audio|video|image|text|model|chemical|x-conference|message)/", b):
                strs.add(b)
        u = STR.sub(" ", t)
        for m in CHR.finditer(u):
            b = unescape(m.group(1))
            if len(b) == 1:
                strs.add(b)
                ints.add(b[0])
        for m in INT.finditer(u):
            try:
                v = int(m.group(1), 0) if not re.match(r"^0\d", m.group(1)) else int(m.group(1), 8)
                if v < 1 << 64:
                    ints.add(v)
            except ValueError:
                pass
    return ints, strs


def write_dict(path):
    ints, strs = literals()
    base = os.path.join(HARN, "base_literals.json")
    b = json.load(open(base)) if os.path.exists(base) else {"ints": [], "strs": []}
    bi, bs = set(b["ints"]), set(b["strs"])
    with open(path, "w") as f:
        for v in sorted(ints):
            f.write("i %d\n" % v)
            if v not in bi:
                f.write("I %d\n" % v)
        for s in sorted(strs):
            f.write("s %s\n" % s.hex())
            if s.hex() not in bs:
                f.write("S %s\n" % s.hex())


# ------------------------------------------------------------------ running
def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def run_fuzz(pid, binary, main_bin, tier, seed, runs, work, replay):
    """Coverage-guided stage: N libFuzzer processes over the same property function."""
    n = min(8, os.cpu_count() or 4)
    c = CHECKS[pid]
    procs = []
    env = dict(os.environ, VP_DICT=work + "/dict.txt", ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="halt_on_error=1")
    cap = 60 if tier == "quick" else 400
    for k in range(n):
        d = "%s/fz%d" % (work, k)
        os.makedirs(d + "/corpus")
        ml = c.get("fuzz_len", 600)
        cmd = [binary, "-runs=%d" % runs, "-seed=%d" % (seed * 100 + k + 1), "-max_len=%d" % ml, "-len_control=%d" % (20 if k % 2 else 100), "-timeout=25",
               "-rss_limit_mb=2500", "-artifact_prefix=%s/" % d, "-max_total_time=%d" % cap, "-print_final_stats=1", "-use_value_profile=%d" % (k % 2), d + "/corpus"]
        procs.append((k, d, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(d + "/log", "w"), env=env, cwd=d)))
    total, cov, units = 0, 0, 0
    failed = None
    for k, d, p in procs:
        try:
            p.wait(timeout=cap + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        t = open(d + "/log", errors="replace").read()
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", t)
        if m:
            total += int(m.group(1))
        m = re.findall(r"cov: (\d+)", t)
        if m:
            cov = max(cov, int(m[-1]))
        units += len(os.listdir(d + "/corpus"))
        arts = [a for a in os.listdir(d) if a.startswith(("crash-", "timeout-", "oom-"))]
        if arts and not failed:
            r = sh([main_bin, "--bytes", d + "/" + arts[0], "--replay-out", replay, "--errdir", work, "--dict", work + "/dict.txt", "--tier", tier],
                   env=env)
            log(r.stdout[-1500:])
            if r.returncode == 1:
                failed = r.stdout
    return dict(fuzz_executions=total, fuzz_processes=n, fuzz_edges_covered=cov, fuzz_corpus_units=units), failed


ASAN = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=3000:handle_abort=0:detect_stack_use_after_return=0:symbolize=1"


def setup():
    """Builds every check's binaries once (they are rebuilt from the cache by content afterwards)."""
    for pid, c in CHECKS.items():
        kinds = [c.get("kind", "asan")]
        if c.get("fuzz_runs", {}).get("quick", 0):
            kinds.append("fuzz")
        try:
            build(pid, kinds)
        except SystemExit as e:
            log("%s: %s" % (pid, e))
    return 0


def main():
    if sys.argv[1] == "--setup":
        return setup()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay_in, cases = None, None
    a = sys.argv[2:]
    while a:
        k = a.pop(0)
        if k == "--tier":
            tier = a.pop(0)
        elif k == "--seed":
            seed = int(a.pop(0))
        elif k == "--replay":
            replay_in = a.pop(0)
        elif k == "--cases":
            cases = a.pop(0)
    c = CHECKS[pid]
    t0 = time.time()
    kind = c.get("kind", "asan")
    kinds = [kind]
    nofuzz = c.get("fuzz_runs", {}).get(tier, 0) == 0 or replay_in
    if not nofuzz:
        kinds.append("fuzz")
    bins = build(pid, kinds)
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    try:
        write_dict(work + "/dict.txt")
        os.makedirs(VERIF + "/replays", exist_ok=True)
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        replay = "%s/replays/%s.replay" % (VERIF, pid)
        env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1",
                   TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_signal_unsafe=0", VP_WORK=work)
        cmd = [bins[kind], "--tier", tier, "--seed", str(seed), "--dict", work + "/dict.txt", "--errdir", work, "--stats", work + "/stats.json",
               "--replay-out", replay]
        if kind == "tsan":  # the address-space layout tsan expects
            cmd = ["setarch", os.uname().machine, "-R"] + cmd
        if replay_in:
            r = subprocess.run(cmd + ["--replay", replay_in], env=env, cwd=work)
            return r.returncode
        if cases:
            cmd += ["--cases", cases]
        r = subprocess.run(cmd, env=env, cwd=work, stdout=subprocess.PIPE, text=True, errors="replace")
        if r.stdout:
            print(r.stdout.strip(), flush=True)
        if r.returncode not in (0, 1):
            log("engine error %d" % r.returncode)
            for f in glob.glob(work + "/*.err"):
                log(open(f, errors="replace").read()[-3000:])
            return 3
        failed = r.returncode == 1
        for f in glob.glob(work + "/worker*.err"):  # what could not be confirmed
            for l in open(f, errors="replace"):
                if l.startswith("case "):
                    log("seen once: " + l.strip()[:700])
        stats = json.load(open(work + "/stats.json")) if os.path.exists(work + "/stats.json") else {"evaluations": 0}
        fz = {}
        if not failed and not nofuzz:
            fz, ff = run_fuzz(pid, bins["fuzz"], bins[kind], tier, seed, c["fuzz_runs"][tier], work, replay)
            if ff:
                print(ff.strip(), flush=True)
                failed = True
        kf = known_findings(pid)
        cov = {k: stats[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples") if k in stats}
        cov["random_search"] = {k: stats.get(k) for k in ("planned", "nontrivial", "discarded", "choices_drawn", "unconfirmed", "search_s", "labels")}
        if fz:
            cov["coverage_guided"] = fz
        ev = dict(property=pid, tier=tier, seed=seed, level=c.get("level", "exploration"), coverage=cov,
                  assumptions=c.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if failed else 0)
        ev["coverage"]["build_s"] = round(tb, 2)
        with open("%s/evidence/%s.json" % (VERIF, pid), "w") as f:
            json.dump(ev, f, indent=1)
        for k in kf:
            print("KNOWN-FINDING: property=%s %s" % (pid, k), flush=True)
        if failed:
            print("VIOLATION property=%s replay=%s" % (pid, replay), flush=True)
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
