"""C01: the same executions natively, under AddressSanitizer, under memcheck, and under Miri."""
import os
import re
import shutil
import subprocess
import threading
import time

MIRI = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
ASAN_OPTIONS = "exitcode=43:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1"


def build_asan(driver, types):
    src = driver.harness_copy("mon-asan", lock=False)
    target = os.path.join(driver.BUILD, "target-asan")
    r = driver.sh(["cargo", "build", "--offline", "-q", "--target", "x86_64-unknown-linux-gnu"], cwd=src,
                  env=driver.env(SX_TYPES=types, CARGO_TARGET_DIR=target, RUSTUP_TOOLCHAIN="nightly",
                                 RUSTFLAGS="-Zsanitizer=address -Awarnings"))
    if r.returncode:
        raise driver.NoVerdict("the monitors don't build with AddressSanitizer:\n" + r.stdout[-4000:])
    return os.path.join(target, "x86_64-unknown-linux-gnu", "debug", "mon")


class Miri:
    def __init__(self, driver, types):
        self.driver = driver
        self.src = driver.harness_copy("mon-miri", lock=False)
        self.env = dict(SX_TYPES=types, CARGO_TARGET_DIR=os.path.join(driver.BUILD, "target-miri"), RUSTUP_TOOLCHAIN="nightly",
                        MIRI_SYSROOT=os.path.join(driver.BUILD, "miri-sysroot"), RUSTFLAGS="-Awarnings")
        r = driver.sh(["cargo", "miri", "setup"], cwd=driver.BUILD, env=driver.env(**self.env))
        if r.returncode:
            raise driver.NoVerdict("Miri can't be set up:\n" + r.stdout[-4000:])
        empty = os.path.join(driver.BUILD, "empty-corpus")
        open(empty, "w").close()
        p = self.start("", [empty, "0", "1", "1"])
        out = p.communicate()[0]
        if p.returncode or "done 0 of 0" not in out:
            raise driver.NoVerdict("the monitors don't run in Miri:\n" + out[-4000:])

    def start(self, flags, args):
        return subprocess.Popen(["cargo", "miri", "run", "-q", "--offline", "--", "--replay"] + args, cwd=self.src,
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                                env=self.driver.env(MIRIFLAGS=MIRI + " " + flags, **self.env))


def corpus(driver, binary, seed, tier, shards, path):
    """Small cases, every type in turn."""
    r = driver.sh([binary, "--prop", "C01", "--seed", str(seed), "--tier", tier, "--shards", str(shards),
                   "--write-corpus", path])
    # The native run reports what goes wrong here.
    if not os.path.exists(path):
        raise driver.NoVerdict("no corpus: " + r.stdout[-2000:])


def describe(driver, binary, path, n):
    return driver.sh([binary, "--describe", path, str(n)]).stdout.strip()


def last_case(out):
    cases = re.findall(r"^case (\d+)$", out, re.M)
    return int(cases[-1]) if cases else None


def watch(driver, res, start, label, path, binary, seconds, kind):
    """Runs a corpus in 8 processes; `start(args)`; looks at their output."""
    procs = [start([path, str(i), str(driver.SHARDS), str(seconds)]) for i in range(driver.SHARDS)]
    outs = [None] * len(procs)

    def collect(i):
        outs[i] = procs[i].communicate()[0]
    ts = [threading.Thread(target=collect, args=(i,)) for i in range(len(procs))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ran = 0
    for p, out in zip(procs, outs):
        ran += len(re.findall(r"^ended ", out, re.M))
        for m in re.findall(r"^ended (.*)$", out, re.M):
            k = label + m
            res["counters"][k] = res["counters"].get(k, 0) + 1
        at = last_case(out)
        for m in re.finditer(r"^case (\d+)\nended .*\n((?:bad .*\n)+)", out, re.M):
            n = int(m.group(1))
            res["violations"].append((n, "%s%s; %s" % (label, m.group(2)[4:].strip(), describe(driver, binary, path, n))))
            res["replay"] = dict(kind=kind)
        if p.returncode == 0:
            continue
        ub = re.search(r"(error: Undefined Behavior.*?)(?=\n\n|\nnote: run with)", out, re.S)
        asan = re.search(r"(ERROR: AddressSanitizer.*?)(?=\n\n\n|\nSUMMARY)", out, re.S)
        memcheck = re.search(r"(==\d+== (?:Conditional jump|Use of uninit|Invalid|Mismatched|Syscall param|Source and dest).*)", out, re.S)
        m = ub or (asan if kind == "asan" else None) or (memcheck if kind == "memcheck" else None)
        if m:
            where = describe(driver, binary, path, at) if at is not None else ""
            res["violations"].append((at, "%s%s; %s" % (label, m.group(1)[:2500], where)))
            res["replay"] = dict(kind=kind)
        elif p.returncode < 0 or "process abnormally terminated" in out or "the program aborted" in out:
            raise driver.NoVerdict("%sended (%d) in case %s: %s" % (label, p.returncode, at, out[-2500:]))
        else:
            raise driver.NoVerdict("%sfailed (%d) in case %s: %s" % (label, p.returncode, at, out[-2500:]))
    res["counters"][label + "executions"] = ran
    res["evals"] += ran
    if ran == 0:
        raise driver.NoVerdict(label + "nothing ran")


def plain(driver, cmd, **kw):
    def start(args):
        return subprocess.Popen(cmd + ["--replay"] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                errors="replace", env=driver.env(**kw))
    return start


MEMCHECK = ["valgrind", "-q", "--error-exitcode=44", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=20"]


def parts(driver, seed, tier):
    """Builds everything, at the same time."""
    types = driver.types_file(seed, tier)
    got, failed = {}, []

    def go(name, f):
        try:
            got[name] = f()
        except driver.NoVerdict as e:
            failed.append(e)
    jobs = [("native", lambda: driver.build(seed, tier)), ("asan", lambda: build_asan(driver, types)),
            ("miri", lambda: Miri(driver, types))]
    ts = [threading.Thread(target=go, args=j) for j in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if failed:
        raise failed[0]
    return got


def corpora(driver, binary, seed, tier):
    work = os.path.join(driver.BUILD, "c01")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    small, large = os.path.join(work, "small"), os.path.join(work, "large")
    corpus(driver, binary, seed, tier, 50 if tier == "quick" else 20, small)
    corpus(driver, binary, seed + 7, tier, 1 if tier == "quick" else 2, large)
    return small, large


HOSTILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "gen", "hostile")
HOSTILE_TOML = """[package]
name = "hostile"
version = "0.0.0"
edition = "2021"

[dependencies]
static-xml = { path = "/repo/static-xml" }
static-xml-derive = { path = "/repo/static-xml-derive" }
xml-rs = "0.8"

[workspace]
"""


def hostile(driver, res, miri, only=None):
    """Programs without unsafe code: however odd, the compiler refuses them or they behave in Miri."""
    d = os.path.join(driver.BUILD, "hostile")
    os.makedirs(os.path.join(d, "src", "bin"), exist_ok=True)
    driver.write_if_changed(os.path.join(d, "Cargo.toml"), HOSTILE_TOML)
    names = sorted(f[:-3] for f in os.listdir(HOSTILE) if f.endswith(".rs"))
    for n in names:
        with open(os.path.join(HOSTILE, n + ".rs")) as f:
            src = f.read()
        assert "#![forbid(unsafe_code)]" in src, n
        driver.write_if_changed(os.path.join(d, "src", "bin", n + ".rs"), src)
    for f in os.listdir(os.path.join(d, "src", "bin")):
        if f[:-3] not in names:
            os.remove(os.path.join(d, "src", "bin", f))

    def one(n):
        try:
            r = subprocess.run(["cargo", "miri", "run", "-q", "--offline", "--bin", n], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=300, env=driver.env(MIRIFLAGS=MIRI, **miri.env))
        except subprocess.TimeoutExpired:
            raise driver.NoVerdict("%s didn't finish" % n)
        refused = re.search(r"^error(\[E\d+\])?: .*", r.stdout, re.M)
        if "error: Undefined Behavior" in r.stdout:
            m = re.search(r"(error: Undefined Behavior.*?)(?=\n\n|\nnote: run with)", r.stdout, re.S)
            return "violation", m.group(1)[:2500]
        if refused and "error: aborting due to" in r.stdout and re.search(r"--> src/bin/%s\.rs" % n, r.stdout):
            return "refused by the compiler", refused.group(0)
        if r.returncode == 0 or r.returncode == 101 and "panicked at" in r.stdout:
            return "ran", ""
        raise driver.NoVerdict("%s failed (%d): %s" % (n, r.returncode, r.stdout[-2500:]))
    seen = {}
    # The first builds what they depend on.
    todo = [n for n in names if only in (None, n)]
    errors = []

    def work():
        while todo and not errors:
            n = todo.pop(0)
            try:
                seen[n] = one(n)
            except driver.NoVerdict as e:
                errors.append(e)
    ts = [threading.Thread(target=work) for _ in range(driver.SHARDS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]
    for n, (how, what) in sorted(seen.items()):
        if how == "violation":
            res["violations"].append(("hostile " + n, "a program without unsafe code, gen/hostile/%s.rs: %s" % (n, what)))
            res["replay"] = dict(kind="hostile", name=n)
        k = "programs without unsafe code: " + how
        res["counters"][k] = res["counters"].get(k, 0) + 1
        res["evals"] += 1
    return seen


def run(driver, prop, seed, tier):
    start = time.time()
    got = parts(driver, seed, tier)
    binary = got["native"]
    times = dict(build=time.time() - start)

    def timed(name, f):
        t = time.time()
        f()
        times[name] = round(time.time() - t, 1)
    res = driver.run_shards(binary, prop, seed, tier)
    res.setdefault("replay", {})
    if res["violations"]:
        res["replay"] = dict(mon=True)
        return res
    asan = driver.run_shards(got["asan"], prop, seed, tier, label="-asan", extra_env=dict(ASAN_OPTIONS=ASAN_OPTIONS))
    driver.merge(res, asan, "AddressSanitizer: ")
    if res["violations"]:
        res["replay"] = dict(kind="asan-mon")
        return res
    timed("hostile programs", lambda: hostile(driver, res, got["miri"]))
    if res["violations"]:
        return res
    small, large = corpora(driver, binary, seed, tier)
    limit = 200 if tier == "quick" else 1500
    timed("memcheck", lambda: watch(driver, res, plain(driver, MEMCHECK + [binary]), "memcheck: ", large, binary, limit, "memcheck"))
    if not res["violations"]:
        timed("Miri", lambda: watch(driver, res, lambda a: got["miri"].start("", a), "Miri: ", small, binary, limit, "miri"))
    if not res["violations"] and tier == "thorough":
        timed("Miri, tree borrows", lambda: watch(
            driver, res, lambda a: got["miri"].start("-Zmiri-tree-borrows -Zmiri-symbolic-alignment-check", a),
            "Miri, tree borrows: ", small, binary, limit, "miri-tree"))
    res["more"] = dict(seconds=times)
    return res


def replay(driver, d):
    kind = d.get("kind")
    seed, tier = d["seed"], d["tier"]
    got = parts(driver, seed, tier)
    if kind == "asan-mon":
        return subprocess.run([got["asan"], "--prop", "C01", "--seed", str(seed), "--tier", tier, "--case", str(d["case"])],
                              env=driver.env(ASAN_OPTIONS=ASAN_OPTIONS)).returncode
    if kind == "hostile":
        res = dict(violations=[], counters={}, evals=0)
        print(hostile(driver, res, got["miri"], d["name"]))
        return 1 if res["violations"] else 0
    small, large = corpora(driver, got["native"], seed, tier)
    if kind == "memcheck":
        start, path = plain(driver, MEMCHECK + [got["native"]]), large
    else:
        flags = "-Zmiri-tree-borrows -Zmiri-symbolic-alignment-check" if kind == "miri-tree" else ""
        start, path = (lambda a: got["miri"].start(flags, a)), small
    p = start([path, str(d["case"] or 0), "100000000", "600"])
    print(p.communicate()[0])
    return p.returncode
