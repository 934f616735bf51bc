"""C20: runs the derive macros, under the compiler, on generated definitions and watches its diagnostics."""
import hashlib
import json
import os
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "gen"))
import genmacros  # noqa: E402

CARGO = """[package]
name = "%s"
version = "0.0.0"
edition = "%s"

[lib]
path = "lib.rs"

[dependencies]
static-xml = { path = "/repo/static-xml" }
static-xml-derive = { path = "/repo/static-xml-derive" }
xml-rs = "0.8.4"

[workspace]
"""


def program(items, strict=False):
    """The source, and each item's first and last line."""
    out = (genmacros.STRICT if strict else "") + genmacros.PRELUDE
    where = [(1, out.count("\n"))]
    for i, (_, what, src) in enumerate(items):
        out += "// %d: %s\npub mod m%d { use super::prelude::*;\n%s}\n" % (i, what.replace("\n", " "), i, src)
        end = out.count("\n")
        where.append((where[-1][1] + 1, end))
    return out, where


def outermost(span):
    """Where a span comes from in the crate itself, through macro expansions."""
    while span.get("expansion"):
        span = span["expansion"]["span"]
    return span


def check(driver, name, items, edition):
    """Returns {item: [message]} (item -1: the prelude), what happened by item."""
    d = os.path.join(driver.BUILD, "macros", name)
    os.makedirs(d, exist_ok=True)
    src, where = program(items, name.startswith("strict"))
    driver.write_if_changed(os.path.join(d, "Cargo.toml"), CARGO % (name, edition))
    driver.write_if_changed(os.path.join(d, "lib.rs"), src)
    shutil.copy(os.path.join(driver.REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    try:
        r = subprocess.run(["cargo", "check", "--offline", "-q", "--message-format=json"], cwd=d, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=600,
                           env=driver.env(CARGO_TARGET_DIR=os.path.join(driver.BUILD, "macros", "target")))
    except subprocess.TimeoutExpired:
        return {0: ["the compiler didn't finish within 600 s"]}, {}, where
    errors = {}
    seen = 0
    for line in r.stdout.splitlines():
        m = json.loads(line)
        if m.get("reason") != "compiler-message":
            continue
        if m["target"]["name"] != name:
            if m["message"]["level"] == "error":
                raise driver.NoVerdict("%s doesn't build: %s" % (m["target"]["name"], m["message"]["rendered"]))
            continue
        m = m["message"]
        if not m["level"].startswith("error") or (not m["spans"] and m["message"].startswith("aborting")):
            continue
        if m["message"].startswith("could not compile") or m["message"].startswith("Some errors have"):
            continue
        seen += 1
        direct = via = None
        for s in m["spans"]:
            if not s["is_primary"]:
                continue
            o = outermost(s)
            for i, (a, b) in enumerate(where):
                if s["file_name"].endswith("lib.rs") and not os.path.isabs(s["file_name"]) and a <= s["line_start"] and s["line_end"] <= b:
                    direct = i - 1
                if o["file_name"].endswith("lib.rs") and not os.path.isabs(o["file_name"]) and a <= o["line_start"] and o["line_end"] <= b:
                    via = i - 1
        item = direct if direct is not None else via
        text = m["message"] + "".join("; " + c["message"] for c in m["children"][:2])
        errors.setdefault(item, []).append((direct is not None, text))
    if r.returncode and not seen:
        raise driver.NoVerdict("cargo failed: " + r.stderr[-3000:])
    if not r.returncode and seen:
        raise driver.NoVerdict("errors, but cargo succeeded")
    return errors, dict(seen=seen), where


def judge(items, errors):
    """Violations as (index, message)."""
    out = []
    for t in errors.get(None, []):
        out.append((-1, "an error that points into no definition: %s" % t[1]))
    for t in errors.get(-1, []):
        out.append((-1, "a definition of the prelude isn't accepted: %s" % t[1]))
    for i, (expect, what, src) in enumerate(items):
        es = errors.get(i, [])
        panics = [t for _, t in es if "panicked" in t]
        m = None
        if panics:
            m = "the macro panics: %s" % panics[0]
        elif expect == "accept" and es:
            m = "isn't accepted: %s" % es[0][1]
        elif expect == "reject" and not es:
            m = "is accepted"
        elif es and not any(d for d, _ in es):
            m = "no error points into the definition: %s" % es[0][1]
        if m:
            out.append((i, "%s; %s:\n%s" % (m, what, src)))
    return out


# Inputs the macros are known to mishandle; each must be listed in known-findings.txt.
KNOWN = [
    ("reject", "KF1: a C string literal for rename",
     '#[derive(Serialize)]\n#[static_xml(rename = c"x")]\npub struct T { pub a: u8 }\n'),
]


def run(driver, prop, seed, tier):
    n = (4000, 8000, 400) if tier == "thorough" else (400, 760, 120)
    res = dict(evals=0, counters={}, samples=[], violations=[], truncated=False, distinct=set())
    crates = genmacros.generate(seed, *n)
    crates["known"] = KNOWN
    # In pieces, so that one failing type doesn't hide much.
    jobs = []
    for name, items in crates.items():
        for k in range(0, len(items), 1000):
            jobs.append((name, k, items[k:k + 1000], "2018" if k % 2000 else "2021"))
    for name, k, items, edition in jobs:
        errors, info, _ = check(driver, "%s%d" % (name, k), items, edition)
        for i, m in judge(items, errors):
            # Without the bad items, the others get further.
            res["violations"].append(("%s#%d" % (name, k + i), m))
        if not info:
            res["violations"].append((name, "the compiler didn't finish"))
        res["evals"] += len(items)
        for i, (expect, what, src) in enumerate(items):
            res["distinct"].add(int.from_bytes(hashlib.sha256((what.split("derives")[-1] + src).encode()).digest()[:8], "little"))
            key = what.split(" (")[0].split(", derives")[0]
            key = "%s: %s" % (name, key.split(" #[")[0].split(" on member")[0].split(" within variant")[0].split(" for ")[0][:40]
                              if name in ("reject",) else key)
            if name == "reject":
                key = "rejected: " + key.split(": ")[1].split(" on ")[0].split(" item ")[0]
            res["counters"][key] = res["counters"].get(key, 0) + 1
        res["counters"]["errors seen: " + name] = res["counters"].get("errors seen: " + name, 0) + info.get("seen", 0)
        if name in ("accept", "reject") and k == 0:
            res["samples"] += ["%s: %s\n%s" % items[seed % len(items)], "%s: %s\n%s" % items[(seed * 7 + 3) % len(items)]]
    res["violations"] = res["violations"][:20]
    res["replay"] = {}
    return res


def replay(driver, d):
    """Runs the case again by itself."""
    crates = genmacros.generate(d["seed"], *((4000, 8000, 400) if d["tier"] == "thorough" else (400, 760, 120)))
    crates["known"] = KNOWN
    name, _, i = str(d["case"]).partition("#")
    i = int(i or -1)
    items = [crates[name][i]] if i >= 0 else []
    errors, _, _ = check(driver, "strict-replay" if name == "strict" else "replay", items, "2021")
    bad = judge(items, errors)
    for _, m in bad:
        print(m)
    for i, es in errors.items():
        for e in es:
            print(i, e)
    return 1 if bad else 0
