#!/usr/bin/env python3
"""Decides one property: builds the monitors against /repo's working tree, runs them, writes evidence.

    run.py C03                  (VERIF_SEED, VERIF_TIER from the environment)
    run.py --replay PATH        re-runs the case a VIOLATION line points to, verbosely
    run.py --manifest           rewrites MANIFEST.json from props.py
    run.py --setup              checks that the toolchain is there

Exit: 0 held on everything observed, 1 violated (with a VIOLATION line), anything else: no verdict.
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

REPO = "/repo"
BUILD = os.path.join(HERE, ".build")
HARNESS = os.path.join(HERE, "harness")
STABLE = "1.83.0"
CRASHES = (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGTRAP)
EXIT_HANG, EXIT_MEMORY, EXIT_ASAN = 41, 42, 43
SHARDS = 8


class NoVerdict(Exception):
    pass


class Violation(Exception):
    """A violation found by the driver itself: (message, replay dict)."""

    def __init__(self, msg, **replay):
        super().__init__(msg)
        self.msg, self.replay = msg, replay


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUST_BACKTRACE", "RUST_LOG"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = STABLE
    e.update(kw)
    return e


def sh(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    kw.setdefault("text", True)
    return subprocess.run(cmd, **kw)


def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def types_file(seed, tier):
    sys.path.insert(0, os.path.join(HERE, "gen"))
    import gentypes
    os.makedirs(BUILD, exist_ok=True)
    path = os.path.join(BUILD, "types-%s-%d.rs" % (tier, seed))
    n, t = (90, 40) if tier == "thorough" else (36, 16)
    write_if_changed(path, gentypes.generate(seed, n, t, names_in(dictionary())))
    return path


def dictionary():
    """Literals in the code under test: words and sizes its branches may depend on.

    They only steer what's generated; what's right is decided without them."""
    import re
    words, nums = [], set()  # words in the order of the sources: neighbours often belong together
    for crate in ("static-xml", "static-xml-derive"):
        for root, _, files in os.walk(os.path.join(REPO, crate, "src")):
            for f in sorted(files):
                if not f.endswith(".rs"):
                    continue
                with open(os.path.join(root, f), encoding="utf-8", errors="replace") as fh:
                    text = re.sub(r"^\s*//.*$", "", fh.read(), flags=re.M)
                for m in re.finditer(r'"((?:[^"\\]|\\.)*)"|\'((?:[^\'\\]|\\[^\']+|\\\'))\'', text):
                    w = m.group(1) if m.group(1) is not None else m.group(2)
                    w = re.sub(r"\\u\{([0-9a-fA-F_]+)\}", lambda x: chr(min(int(x.group(1).replace("_", ""), 16), 0x10ffff)), w)
                    w = re.sub(r"\\x([0-9a-fA-F]{2})", lambda x: chr(int(x.group(1), 16)), w)
                    w = re.sub(r"\\\n\s*", "", w)
                    w = re.sub(r"\\(.)", lambda x: {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(x.group(1), x.group(1)), w)
                    if 0 < len(w) <= 60 and all(c in "\t\n\r" or " " <= c <= "\ud7ff" or "\ue000" <= c <= "\ufffd" or c >= "\U00010000" for c in w):
                        words.append(w)
                for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?\b", text):
                    try:
                        n = int(m.group(1).replace("_", ""), 0 if m.group(1).startswith("0x") else 10)
                    except ValueError:
                        continue
                    if 3 <= n <= 100_000:
                        nums.add(n)
    path = os.path.join(BUILD, "dict.txt")
    write_if_changed(path, "".join("w %s\n" % w.encode().hex() for w in words) + "".join("n %d\n" % n for n in sorted(nums)))
    return path


def names_in(path):
    """The words in a dictionary that can name an element."""
    import re
    with open(path) as f:
        words = [bytes.fromhex(l[2:].strip()).decode() for l in f if l.startswith("w ")]
    return sorted({w for w in words if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_.-]*", w) and not w.lower().startswith("xml")})


def harness_copy(name, lock=True):
    """The harness sources under .build, so that Cargo.lock can follow /repo's.

    Without the lock for nightly toolchains, for which /repo's version of proc-macro2 is too old."""
    dst = os.path.join(BUILD, name)
    os.makedirs(dst, exist_ok=True)
    src = os.path.join(HARNESS, "src")
    for root, _, files in os.walk(src):
        out = os.path.join(dst, "src", os.path.relpath(root, src))
        os.makedirs(out, exist_ok=True)
        for f in files:
            if f == "dict.txt":
                continue
            with open(os.path.join(root, f)) as fh:
                write_if_changed(os.path.join(out, f), fh.read())
    write_if_changed(os.path.join(dst, "src", "dict.txt"), open(dictionary(), encoding="utf-8").read())
    with open(os.path.join(HARNESS, "Cargo.toml")) as f:
        write_if_changed(os.path.join(dst, "Cargo.toml"), f.read())
    if lock:
        shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(dst, "Cargo.lock"))
    return dst


def build(seed, tier, release=False):
    types = types_file(seed, tier)
    src = harness_copy("mon")
    cmd = ["cargo", "build", "--offline", "-q"] + (["--release"] if release else [])
    r = sh(cmd, cwd=src, env=env(SX_TYPES=types, CARGO_TARGET_DIR=os.path.join(BUILD, "target")))
    if r.returncode:
        raise NoVerdict("the monitors don't build:\n" + r.stdout[-6000:])
    return os.path.join(BUILD, "target", "release" if release else "debug", "mon")


def died(rc):
    if rc == EXIT_HANG:
        return "a case didn't end (CPU time limit)"
    if rc == EXIT_MEMORY:
        return "a case used more than 3 GiB of memory"
    if rc == EXIT_ASAN:
        return "AddressSanitizer reports an error"
    if rc < 0:
        return "the process was killed by signal %d" % -rc
    return None


def run_shards(binary, prop, seed, tier, label="", shards=SHARDS, cap=None, extra_env=None):
    """Runs all shards; returns merged results."""
    work = os.path.join(BUILD, "out", prop + label)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    cap = cap or (600 if tier == "quick" else 3000)
    procs = []
    for i in range(shards):
        out = os.path.join(work, "%d.json" % i)
        cmd = [binary, "--prop", prop, "--shard", str(i), "--shards", str(shards), "--seed", str(seed),
               "--tier", tier, "--cap", str(cap), "--out", out, "--case-file", out + ".case"]
        err = open(out + ".err", "w")
        procs.append((i, out, cmd, subprocess.Popen(cmd, stdout=err, stderr=err, env=env(**(extra_env or {})))))
    res = dict(evals=0, counters={}, samples=[], violations=[], truncated=False, distinct=set())
    unclear = None
    for i, out, cmd, p in procs:
        rc = p.wait()
        if rc in (0, 1) and os.path.exists(out):
            d = json.load(open(out))
            res["evals"] += d["evals"]
            res["truncated"] |= d["truncated"]
            for k, v in d["counters"].items():
                res["counters"][k] = res["counters"].get(k, 0) + v
            if i < 3:
                res["samples"] += d["samples"][:2]
            res["violations"] += [(v["case"], v["msg"]) for v in d["violations"]]
            with open(out + ".distinct", "rb") as f:
                b = f.read()
            import array
            a = array.array("Q")
            a.frombytes(b)
            res["distinct"].update(a)
            continue
        why = died(rc)
        if why is None:
            unclear = NoVerdict("shard %d of %s failed (%s):\n%s" % (i, prop, rc, open(out + ".err", errors="replace").read()[-4000:]))
            continue
        try:
            case = int(open(out + ".case").read().split()[0])
        except (OSError, ValueError, IndexError):
            unclear = NoVerdict("shard %d of %s: %s before the first case" % (i, prop, why))
            continue
        if any(m.startswith(why) for _, m in res["violations"]) and rc in (EXIT_HANG, EXIT_MEMORY):
            continue  # One confirmed hang is enough; each takes its time.
        # Is it that case?
        r = sh([binary, "--prop", prop, "--seed", str(seed), "--tier", tier, "--case", str(case)],
               env=env(**(extra_env or {})), timeout=1200)
        if died(r.returncode) is None:
            tail = open(out + ".err", errors="replace").read()[-1500:]
            # Corrupted memory may only show cases later; nothing else makes safe code crash.
            if rc not in CRASHES or "memory allocation of" in tail:
                unclear = NoVerdict("shard %d of %s: %s, but not again when case %d is run by itself" % (i, prop, why, case))
                continue
            res["violations"].append((case, "%s, after the cases before it (run: mon --prop %s --seed %d --tier %s --shard %d --shards %d); output: %s" % (
                why, prop, seed, tier, i, shards, tail)))
            continue
        res["violations"].append((case, "%s; output: %s" % (
            why, r.stdout[max(r.stdout.find("ERROR: AddressSanitizer"), -1):][:1500] if rc == EXIT_ASAN else r.stdout[-1500:])))
    if unclear and not res["violations"]:
        raise unclear
    res["violations"].sort()
    return res


def merge(into, other, label):
    into["evals"] += other["evals"]
    into["distinct"] |= other["distinct"]
    into["violations"] += other["violations"]
    into["truncated"] |= other["truncated"]
    for k, v in other["counters"].items():
        into["counters"][label + k] = into["counters"].get(label + k, 0) + v


def evidence(prop, tier, seed, res, wall, violations):
    p = PROPS[prop]
    cov = dict(
        evaluations=res["evals"],
        distinct_nontrivial=len(res["distinct"]) if not isinstance(res["distinct"], int) else res["distinct"],
        rule=p["rule"],
        samples=res["samples"][:6],
        observed=res["counters"],
    )
    if res.get("truncated"):
        cov["truncated"] = "the time cap ended the run before all planned cases"
    cov.update(res.get("more", {}))
    d = dict(property=prop, tier=tier, seed=seed, level=p["level"], coverage=cov,
             assumptions=p["assumptions"], wall_s=round(wall, 2), violations=violations)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(d, f, indent=1, ensure_ascii=True)
        f.write("\n")


def known_findings():
    """Open findings: `known: property=<id> match=<exact text>`; `fixed:` lines suppress nothing."""
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            if line.startswith("known: property="):
                prop, _, m = line[len("known: property="):].rstrip("\n").partition(" match=")
                out.append((prop, m))
    except OSError:
        pass
    return out


def save_replay(prop, n, tier, seed, case, msg, extra):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, n))
    with open(path, "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, case=case, message=msg,
                       command="python3 run.py --replay " + path, **extra), f, indent=1)
    return path


def main():
    if sys.argv[1:] == ["--manifest"]:
        return manifest()
    if sys.argv[1:] == ["--setup"]:
        return setup()
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    start = time.time()
    extra = {}
    try:
        engine = PROPS[prop].get("engine", "mon")
        if engine == "mon":
            binary = build(seed, tier)
            res = run_shards(binary, prop, seed, tier)
            if tier == "thorough" and not res["violations"]:
                # Once more without debug assertions and with optimizations, other cases.
                rel = build(seed, tier, release=True)
                r2 = run_shards(rel, prop, seed + 1000003, tier, label="-release")
                if r2["violations"]:
                    extra = dict(release=True, case_seed=seed + 1000003)
                merge(res, r2, "release: ")
        else:
            mod = __import__("engines." + engine, fromlist=["run"])
            res = mod.run(sys.modules[__name__], prop, seed, tier)
            extra = res.get("replay", {})
    except NoVerdict as e:
        print("no verdict on %s: %s" % (prop, e))
        return 2
    new = []
    known = known_findings()
    for case, msg in res["violations"]:
        k = [m for p, m in known if p == prop and m in msg]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0]))
        else:
            new.append((case, msg))
    evidence(prop, tier, seed, res, time.time() - start, len(new))
    print("%s: %d evaluations, %d distinct, %.1f s; %s" % (
        prop, res["evals"], len(res["distinct"]), time.time() - start, json.dumps(res["counters"], sort_keys=True)))
    if new:
        for n, (case, msg) in enumerate(new[:3]):
            path = save_replay(prop, n, tier, seed, case, msg, extra)
            print("case %s: %s" % (case, msg[:3000]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if res["evals"] == 0 or len(res["distinct"]) < 2:
        print("no verdict on %s: nothing was observed" % prop)
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    print(d["message"])
    prop = d["property"]
    engine = PROPS[prop].get("engine", "mon")
    if engine == "mon" or d.get("mon"):
        binary = build(d["seed"], d["tier"], release=d.get("release", False))
        r = subprocess.run([binary, "--prop", prop, "--seed", str(d.get("case_seed", d["seed"])), "--tier", d["tier"],
                            "--case", str(d["case"])], env=env())
        return r.returncode
    mod = __import__("engines." + engine, fromlist=["replay"])
    return mod.replay(sys.modules[__name__], d)


def setup():
    """Nothing to install: shows that what the checks need is there."""
    for t in (STABLE, "nightly"):
        r = sh(["cargo", "--version"], env=env(RUSTUP_TOOLCHAIN=t))
        print(r.stdout.strip())
        if r.returncode:
            return 2
    print(len(open(types_file(1, "quick")).read()), "bytes of generated types")
    return 0


def manifest():
    checks, na = [], []
    for pid, p in sorted(PROPS.items()):
        if "not_applicable" in p:
            na.append(dict(property=pid, reason=p["not_applicable"]))
            continue
        checks.append(dict(
            property=pid,
            quick_cmd="VERIF_TIER=quick python3 run.py %s" % pid,
            thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % pid,
            technique=p["technique"], level=p["level"], level_note=p["note"]))
    m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
             notes="No hooks: everything is observed through the public interface. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    return 0


if __name__ == "__main__":
    sys.exit(main())
