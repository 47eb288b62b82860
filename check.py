#!/usr/bin/env python3
"""Runs the model-checking engine (mc/) for one property.

  check.py <property> <quick|thorough>     explore; exit 0 held, 1 violated, 2 no verdict
  check.py replay <file>                   run one recorded violation again
  check.py setup                           build the engine in the standard configurations

The engine is rebuilt from /repo's working tree in every feature configuration the property is
explored in; its results are merged into evidence/<property>.json.
"""
import concurrent.futures as cf
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import time
import tomllib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo/email-parser"
TARGET = os.path.join(HERE, "target")
OUT = os.path.join(TARGET, "out")
EVIDENCE = os.path.join(HERE, "evidence")
HEADERS = ["to", "cc", "bcc", "date", "from", "sender", "reply-to", "message-id", "in-reply-to",
           "references", "subject", "comments", "keywords", "trace"]
OTHERS = ["mime", "content-disposition", "unrecognized-headers", "compatibility-fixes", "benchmarking"]
FEATURES = HEADERS + OTHERS
CONFIGS = {
    "def": ["headers"],
    "strict": ["headers", "content-disposition"],
    "full": ["headers", "content-disposition", "unrecognized-headers", "compatibility-fixes", "benchmarking"],
    # counting what the library does (C26)
    "work": ["headers", "content-disposition", "unrecognized-headers", "compatibility-fixes", "benchmarking", "work"],
    "sched": ["headers", "content-disposition", "unrecognized-headers", "compatibility-fixes", "benchmarking", "sched"],
    "work-strict": ["headers", "content-disposition", "work"],
    # configurations only C22 looks at
    "none": [],
    "mime-only": ["mime"],
    "sender-only": ["sender"],
    "compat": ["headers", "compatibility-fixes"],
    "unrecognized": ["headers", "unrecognized-headers"],
    "no-from": [f for f in HEADERS if f != "from"] + ["content-disposition"],
    "no-sender": [f for f in HEADERS if f != "sender"],
    "no-date-trace": [f for f in HEADERS if f not in ("date", "trace")] + ["mime"],
    "half-a": HEADERS[0::2],
    "half-b": HEADERS[1::2] + OTHERS,
}
MIME_ONLY = ["C15", "C16", "C17", "C18", "C19", "C20", "C21", "C24", "C27"]
C22_QUICK = ["def", "strict", "full", "none", "mime-only", "sender-only", "compat", "unrecognized", "no-from",
             "no-sender", "no-date-trace", "half-a", "half-b"]
C22_BRIEF = ["sender-only", "no-from", "no-sender", "no-date-trace", "half-a", "half-b"]
# Covering arrays: with the configurations above, every choice of on and off of any three (any four) features
# occurs together somewhere (checked by covered()). Bit i of a number: feature i of COVER_FEATURES.
COVER_FEATURES = HEADERS + OTHERS[:4]
COVER3 = [
    0x3f518, 0x3ca45, 0x200db, 0x239a4, 0x1e636, 0xf68, 0x1d183, 0x3239, 0x35c4e, 0xecf1, 0x2c39c, 0x22f03,
    0x36176, 0x1d6e8, 0x281e, 0x35db9, 0x3f0a7, 0xdb5d, 0x3ce4
]
COVER4 = [
    0x3f01d, 0x3cd42, 0x226d0, 0x21b29, 0x1c4fc, 0x1c393, 0x231a6, 0x16e05, 0x287b, 0x2d24e, 0xfd30, 0x3548b,
    0x2099c, 0x3e365, 0x1f8c0, 0x273e, 0x15378, 0x2cca5, 0x21e12, 0x25c9, 0xae6, 0x3f473, 0x1d90f, 0x32bd,
    0x36956, 0x2ce59, 0x3d784, 0x2c1fa, 0x23c6c, 0x358b1, 0x3303, 0xe48e, 0x14fa8, 0x2066f, 0x1d236, 0x22db3,
    0xd2c1, 0x176da, 0x2eb19, 0x11d2, 0x1414d, 0x20c85, 0x1ed28, 0xa1d, 0x26bcc, 0xcbd6, 0x1ddea, 0x21a78,
    0x366b2, 0x1dc1e, 0x361cf, 0xc5f, 0x1f643
]
ASSUMPTIONS = [
    "exhaustive within the listed spaces (finite sets of messages given by their grammar and bounds); says nothing about inputs outside of them",
    "the reference model in mc/src/model.rs states the intended behaviour; every explored input is run through both the real library and the model",
    "the library is built in release mode with overflow checks and debug assertions; textcode's code tables are trusted",
]


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k != "CARGO_HOME":
            del e[k]
    e.pop("RUSTC_WRAPPER", None)
    e["RUSTFLAGS"] = "--cap-lints allow"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def features_of(cfg):
    if cfg in CONFIGS:
        return CONFIGS[cfg]
    if cfg.startswith("cover-"):
        return [f for i, f in enumerate(COVER_FEATURES) if int(cfg[6:], 16) >> i & 1]
    return cfg.split("+")[1:]


def covered(cfgs, n):
    """Whether every possible choice of any n features occurs in one of the configurations."""
    on = [set(features_of(c)) for c in cfgs]
    on = [s | set(HEADERS if "headers" in s else []) | set(OTHERS[:1] if set(OTHERS[1:3]) & s else []) for s in on]
    seen = {tuple((f, f in s) for f in t) for t in itertools.combinations(COVER_FEATURES, n) for s in on}
    bad = lambda t: ("mime", False) in t and (("content-disposition", True) in t or ("unrecognized-headers", True) in t)
    want = {c for t in itertools.combinations(COVER_FEATURES, n) for c in itertools.product(*[[(f, False), (f, True)] for f in t]) if not bad(c)}
    return want <= seen


def build(cfg, lane=0):
    """Builds the engine in one configuration; returns the path of the binary or the compiler's errors."""
    shared = cfg.startswith("cover-")
    d = os.path.join(TARGET, "cover%d" % lane if shared else cfg.replace("+", "_"))
    e = env()
    if "sched" in features_of(cfg):
        e["MC_SCHED"] = "1"
    if {"work", "sched"} & set(features_of(cfg)):
        e["RUSTC_WRAPPER"] = os.path.join(HERE, "mc", "wrap.sh")
    p = subprocess.run(
        ["cargo", "build", "--offline", "--release", "--no-default-features", "--features", ",".join(features_of(cfg)),
         "--manifest-path", os.path.join(HERE, "mc", "Cargo.toml"), "--target-dir", d],
        env=e, cwd=os.path.join(HERE, "mc"), capture_output=True, text=True)
    if p.returncode:
        return None, p.stderr
    b = os.path.join(d, "release", "mc")
    if shared:
        os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
        b = shutil.copyfile(b, os.path.join(OUT, "bin", cfg))
        os.chmod(b, 0o755)
    return b, ""


def build_all(cfgs):
    lanes = 4
    with cf.ThreadPoolExecutor(lanes) as ex:
        parts = ex.map(lambda k: [(c, build(c, k)) for c in cfgs[k::lanes]], range(lanes))
        return dict(x for p in parts for x in p)


def die(msg):
    print("CHECK ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def compile_errors(text):
    lines = text.splitlines()
    out = []
    for i, l in enumerate(lines):
        if l.startswith("error"):
            out += lines[i:i + 6]
    return "\n".join(out[:40]) or text[-2000:]


def check_features(tier, prop, ev):
    """C22, first half: which subsets of the Cargo features compile. Returns a violation or None."""
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f:
        feats = [x for x in tomllib.load(f)["features"] if x != "default"]
    single = [x for x in feats if x != "headers"]
    subsets = [[], ["headers"]] + [[x] for x in single]
    subsets += [[y for y in single if y != x] for x in single] + [single]
    subsets += [["headers", x] for x in feats if x not in HEADERS and x != "headers"]
    subsets += [list(p) for p in itertools.combinations([x for x in single if x not in HEADERS], 2)]
    if tier == "thorough":
        subsets += [list(p) for p in itertools.combinations(single, 2)]
        subsets += [["headers"] + list(p) for n in range(2, 6) for p in itertools.combinations([x for x in single if x not in HEADERS], n)]
        subsets += [["mime", "content-disposition"] + [x] for x in HEADERS]
        subsets += [[y for y in single if y not in p] for p in itertools.combinations(single, 2)]
    uniq = []
    for s in subsets:
        if sorted(s) not in [sorted(u) for u in uniq]:
            uniq.append(s)
    jobs = [[], [], [], []]
    for i, s in enumerate(uniq):
        jobs[i % 4].append(s)

    def worker(k):
        for s in jobs[k]:
            p = subprocess.run(
                ["cargo", "check", "--offline", "--lib", "--no-default-features", "--features", ",".join(s),
                 "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--target-dir", os.path.join(TARGET, "features%d" % k)],
                env=env(), cwd=HERE, capture_output=True, text=True)
            if p.returncode:
                if "error[E" not in p.stderr and "could not compile `email-parser`" not in p.stderr:
                    return ("error", s, p.stderr)
                return ("broken", s, p.stderr)
        return None

    with cf.ThreadPoolExecutor(4) as ex:
        res = [r for r in ex.map(worker, range(4)) if r]
    ev["feature_sets_compiled"] = len(uniq)
    for kind, s, err in res:
        if kind == "error":
            die("cargo check failed for another reason than the code:\n" + err[-3000:])
    if res:
        _, s, err = min(res, key=lambda r: len(r[1]))
        path = os.path.join(OUT, prop + ".replay")
        cmd = "cargo check --offline --lib --no-default-features --features '%s' --manifest-path %s/Cargo.toml" % (",".join(s), REPO)
        with open(path, "w") as f:
            f.write("property: %s\nkind: features\nfeatures: %s\ncommand: %s\n\n%s\n" % (prop, ",".join(s), cmd, compile_errors(err)))
        return path
    return None


def run(prop, tier):
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    ev_path = os.path.join(EVIDENCE, prop + ".json")
    extra = {}
    violation = None
    if prop == "C22":
        cfgs = list(C22_QUICK)
        cfgs += ["cover-%x" % x for x in (COVER4 if tier == "thorough" else COVER3)]
        assert covered(cfgs, 4 if tier == "thorough" else 3)
        violation = check_features(tier, prop, extra)
    elif prop == "C26":
        cfgs = ["work", "full"] if tier == "quick" else ["work", "work-strict", "full"]
    else:
        cfgs = ["full", "strict"] if prop in MIME_ONLY else ["def", "full", "strict"]
        if prop == "C23":
            cfgs.insert(0, "sched")
    results = []
    if violation is None:
        bins = build_all(cfgs)
        for c in cfgs:
            if bins[c][0] is None:
                die("the engine does not build in configuration %s:\n%s" % (c, compile_errors(bins[c][1])))
        budget = (500 if prop == "C22" else 300) if tier == "quick" else 780
        for i, c in enumerate(cfgs):
            out = os.path.join(OUT, "%s.%s.json" % (prop, re.sub(r"\W", "_", c)))
            replay = os.path.join(OUT, "%s.%s.replay" % (prop, re.sub(r"\W", "_", c)))
            for f in (out, replay):
                if os.path.exists(f):
                    os.unlink(f)
            cap = max(15, int((budget - (time.time() - t0)) / (len(cfgs) - i) * (2 if prop == "C22" or c == "sched" else 1)))
            p = subprocess.run([bins[c][0], "run", "--prop", prop, "--tier", "brief" if c.startswith("cover-") or prop == "C22" and tier == "quick" and c in C22_BRIEF else tier, "--config", c, "--out", out,
                                "--replay", replay, "--cap", str(cap), "--threads", str(min(8, os.cpu_count() or 8))],
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
            if p.returncode not in (0, 1):
                die("engine, configuration %s: exit %s\n%s" % (c, p.returncode, p.stderr[-3000:]))
            with open(out) as f:
                results.append(json.load(f))
            if p.returncode == 1:
                violation = replay
                break
    capped = [r["config"] for r in results if r["capped"]]
    spaces = []
    samples = []
    for r in results:
        for s in r["spaces"]:
            spaces.append(dict(s, config=r["config"]))
        samples += ["[%s] %s" % (r["config"], s) for s in r["samples"][:: max(1, len(r["samples"]) // 8)][:8]]
    classes = {}
    for s in spaces:
        for k, v in s["classes"].items():
            classes[k] = classes.get(k, 0) + v
    cov = {
        "states": sum(r["states"] for r in results),
        "transitions": sum(r["transitions"] for r in results),
        "traces_validated_against_impl": sum(r["validated"] for r in results),
        "samples": samples[:40] or ["(no exploration: a feature set does not compile)"],
        "exhaustive": not capped and violation is None,
        "inputs_explored": sum(r["inputs"] for r in results),
        "distinct_outcomes": sum(r["distinct_outcomes"] for r in results),
        "outcome_classes": classes,
        "configurations": {r["config"]: features_of(r["config"]) for r in results},
        "capped_configurations": capped,
        "spaces": spaces[:1500],
        "what_the_numbers_are": "states: distinct inputs (message or history) explored, counted by fingerprint; transitions: calls into the real library; traces_validated_against_impl: model executions compared with the library's answer",
    }
    cov.update(extra)
    evidence = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": cov, "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    with open(ev_path, "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    if violation:
        with open(violation) as f:
            text = f.read()
        keep = os.path.join(EVIDENCE, prop + ".replay.txt")
        shutil.copyfile(violation, keep)
        print(text[:6000])
        print("VIOLATION property=%s replay=%s" % (prop, keep))
        return 1
    n = cov["inputs_explored"]
    print("%s %s: held on %d inputs (%d distinct, %d library calls) in %s%s, %.1f s" % (
        prop, tier, n, cov["states"], cov["transitions"], ", ".join(r["config"] for r in results)[:200],
        " CAPPED in " + ",".join(capped) if capped else "", time.time() - t0))
    return 0


def replay(path):
    with open(path) as f:
        text = f.read()
    get = lambda k: (re.search(r"^%s: (.*)$" % k, text, re.M) or [None, ""])[1]
    if get("kind") == "features":
        return subprocess.run(get("command"), shell=True, env=env()).returncode
    b, err = build(get("config"))
    if not b:
        die(err[-3000:])
    p = subprocess.run([b, "replay", "--prop", get("property"), "--tier", get("tier"), "--space", get("space").rsplit(" (#", 1)[0], "--hex", get("input_hex")])
    if p.returncode not in (0, 1):
        print("violated: the process died (%s)" % p.returncode)
        return 1
    return p.returncode


def main():
    a = sys.argv[1:]
    if a and a[0] == "setup":
        for c, (b, err) in build_all(["def", "full", "strict", "work", "sched"]).items():
            if not b:
                die("configuration %s\n%s" % (c, err[-3000:]))
        print("engine built")
        return 0
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    if len(a) == 2 and a[1] in ("quick", "thorough"):
        return run(a[0], a[1])
    print(__doc__)
    return 2


sys.exit(main())
