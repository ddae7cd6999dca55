#!/usr/bin/env python3
"""Builds one check from /repo's working tree, runs it, writes evidence/<id>.json.

run.py <ID>              the check, tier from VERIF_TIER (quick|thorough), seed from VERIF_SEED
run.py --replay FILE     re-runs a saved case
run.py --setup           compiles the parts that do not depend on /repo
"""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(HERE, "build"))
CXX = "/usr/bin/clang++-16"
sys.path.insert(0, HERE)
from checks import CHECKS

STD = ["-std=c++2a", "-fcoroutines-ts", "-stdlib=libstdc++", "-pthread", "-fno-omit-frame-pointer", "-w"]
MODES = {
    # single-threaded: address + undefined behaviour sanitizers, asserts on
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=null,vptr", "-fno-sanitize-recover=all", "-fsanitize-coverage=inline-8bit-counters"],
    # controlled threads: instrumentation calls go to harness/dct.cpp
    "dct": ["-O1", "-g1", "-fsanitize=thread", "-fsanitize-coverage=inline-8bit-counters"],
    # plain build (configuration comparison)
    "plain": ["-O2", "-g1"],
}


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def repo_files():
    out = []
    for d in ("include", "source", "asio"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(root, f) for f in files]
    return out


def compile_one(src, flags, outdir, key):
    """object file of src; rebuilt unless an object of exactly this input exists"""
    name = os.path.splitext(os.path.basename(src))[0]
    tag = hashlib.sha256((key + "\0" + " ".join(flags) + "\0" + src).encode()).hexdigest()[:20]
    obj = os.path.join(outdir, "%s-%s.o" % (name, tag))
    if not os.path.exists(obj):
        tmp = "%s.%d.tmp" % (obj, os.getpid())
        sh([CXX] + flags + ["-c", src, "-o", tmp])
        os.replace(tmp, obj)
    return obj


def build(binary):
    """binary: dict(name, src, mode, defs)"""
    os.makedirs(BUILD, exist_ok=True)
    harness = os.path.join(HERE, "harness")
    hh = file_hash(glob.glob(harness + "/*.hpp"))
    rk = file_hash(repo_files())
    mode = binary["mode"]
    flags = STD + MODES[mode] + ["-I", os.path.join(REPO, "include"), "-I", harness] + binary.get("defs", [])
    lib_flags = STD + MODES[mode] + ["-I", os.path.join(REPO, "include")] + binary.get("lib_defs", binary.get("defs", []))
    rt_flags = ["-std=c++2a", "-O2", "-g1", "-w", "-pthread"]
    rt = ["engine.cpp", "vclock.cpp"] + (["dct.cpp"] if mode == "dct" else [])
    jobs = []
    for s in binary["src"] if isinstance(binary["src"], list) else [binary["src"]]:
        p = os.path.join(harness, s)
        jobs.append((p, flags, hh + rk + file_hash([p])))
    for s in sorted(glob.glob(os.path.join(REPO, "source", "*.cpp"))) if not binary.get("plugins") else []:
        jobs.append((s, lib_flags, rk))
    for s in rt:
        p = os.path.join(harness, s)
        jobs.append((p, rt_flags + (["-DVP_NO_SPIN_HOOKS"] if mode == "dct" else []), hh + file_hash([p])))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(j[0], j[1], BUILD, j[2]), jobs))
    tag = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:20]
    exe = os.path.join(BUILD, "%s-%s" % (binary["name"], tag))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        link = [CXX, "-stdlib=libstdc++", "-pthread", "-rdynamic"]
        if mode == "asan":
            link += ["-fsanitize=address,undefined"]
        sh(link + objs + ["-ldl", "-o", tmp])
        os.replace(tmp, exe)
    return exe


def build_plugin(base, pl):
    """a shared object: harness sources and the library, built with the options of one configuration"""
    harness = os.path.join(HERE, "harness")
    hh, rk = file_hash(glob.glob(harness + "/*.hpp")), file_hash(repo_files())
    flags = STD + MODES[pl.get("mode", base["mode"])] + ["-fPIC", "-fvisibility=hidden", "-I", os.path.join(REPO, "include"), "-I", harness] + pl.get("defs", [])
    jobs = [(os.path.join(harness, s), flags, hh + rk + file_hash([os.path.join(harness, s)])) for s in pl["src"]]
    jobs += [(s, flags, rk) for s in sorted(glob.glob(os.path.join(REPO, "source", "*.cpp")))]
    return pl, jobs


class ConfigBroken(Exception):
    """one configuration does not build although the default one does"""
    def __init__(self, name, defs, log):
        self.what = "the library does not build as '%s' (%s):\n%s" % (name, " ".join(defs), log)


def build_plugins(base):
    todo = [build_plugin(base, pl) for pl in base["plugins"]]
    flat = [j for _, jobs in todo for j in jobs]
    # the long ones first
    order = sorted(range(len(flat)), key=lambda i: not flat[i][0].startswith(HERE))
    objs = [None] * len(flat)
    def attempt(i):
        try:
            objs[i] = compile_one(*flat[i][:2], BUILD, flat[i][2])
        except RuntimeError as e:
            return str(e)
    errors = [None] * len(flat)
    with ThreadPoolExecutor(8) as ex:
        for i, e in zip(order, ex.map(attempt, order)):
            errors[i] = e
    at = 0
    for k, (pl, jobs) in enumerate(todo):
        bad = [e for e in errors[at:at + len(jobs)] if e]; at += len(jobs)
        if bad:
            if k == 0:
                raise RuntimeError(bad[0])
            raise ConfigBroken(pl["name"], pl.get("defs", []), bad[0][-3000:])
    out, at = [], 0
    for pl, jobs in todo:
        mine = objs[at:at + len(jobs)]; at += len(jobs)
        tag = hashlib.sha256("\0".join(mine).encode()).hexdigest()[:20]
        so = os.path.join(BUILD, "%s-%s.so" % (pl["name"], tag))
        if not os.path.exists(so):
            tmp = so + ".%d.tmp" % os.getpid()
            sh([CXX, "-shared", "-Wl,-Bsymbolic", "-stdlib=libstdc++", "-pthread"] + (["-fsanitize=address,undefined"] if pl.get("mode", base["mode"]) == "asan" else []) + mine + ["-o", tmp])
            os.replace(tmp, so)
        out.append("%s=%s" % (pl["name"], so))
    return ";".join(out)


def prune():
    """keeps the build folder small: drops objects not used for the last two days"""
    try:
        now = time.time()
        for p in glob.glob(os.path.join(BUILD, "*")):
            if os.path.isfile(p) and now - os.path.getatime(p) > 2 * 86400:
                os.unlink(p)
    except OSError:
        pass


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                out.append(line[len("known: "):])
    return out


def run_check(prop):
    spec = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    results, violation, what = [], None, ""
    try:
        for b in spec["binaries"]:
            if tier not in b.get("tiers", (tier,)):
                continue
            exe = build(b)
            out = os.path.join(scratch, b["name"] + ".json")
            cap = spec.get("cap", {}).get(tier) or (1800 if tier == "thorough" else 420)
            cmd = [exe, "--prop", prop, "--tier", tier, "--seed", str(seed), "--out", out, "--replay-dir", replays, "--cap", str(cap)]
            if b.get("only"):
                cmd += ["--check", b["only"]]
            env = dict(os.environ, VP_TMP=scratch)
            if b.get("plugins"):
                try:
                    env["VP_PLUGINS"] = build_plugins(b)
                except ConfigBroken as e:
                    violation, what = os.path.join(replays, "%s-build.replay" % prop), e.what
                    with open(violation, "w") as f:
                        f.write("property %s\ncheck %s\n\n%s\n" % (prop, "build", what))
                    break
            if b.get("cases"):
                cmd += ["--cases", str(b["cases"])]
            env.pop("ASAN_OPTIONS", None); env.pop("UBSAN_OPTIONS", None); env.pop("TSAN_OPTIONS", None)
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode not in (0, 1) or not os.path.exists(out):
                sys.stderr.write(r.stdout[-3000:] + r.stderr[-3000:])
                raise RuntimeError("%s ended with %d" % (b["name"], r.returncode))
            doc = json.load(open(out))
            results += [dict(c, binary=b["name"]) for c in doc["checks"]]
            if doc["violation"]:
                bad = [c for c in doc["checks"] if c["violation"]][0]
                violation, what = bad["replay"], bad["what"]
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    samples = []
    for c in results:
        for s in c["samples"]:
            samples.append({"check": c["check"], "case": s})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(c["evaluations"] for c in results),
            "distinct_nontrivial": sum(c["distinct_nontrivial"] for c in results),
            "rule": " || ".join("%s: %s" % (c["check"], c["rule"]) for c in results),
            "samples": samples[:8],
            "parts": [{k: c[k] for k in ("check", "binary", "planned", "evaluations", "nontrivial", "distinct_nontrivial", "mutated", "corpus", "features", "avg_choices", "unconfirmed", "wall_s", "labels")} for c in results],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for c in results:
        print("%s/%s: %d cases (%d distinct non-trivial) in %.1fs" % (prop, c["check"], c["evaluations"], c["distinct_nontrivial"], c["wall_s"]))
        if c["unconfirmed"]:
            print("note: %d failure(s) in %s did not repeat and are not reported: %s" % (c["unconfirmed"], c["check"], c["unconfirmed_what"]))
    for k in known_findings(prop):
        print("KNOWN-FINDING: " + k)
    if violation:
        print("what: " + what)
        print("VIOLATION property=%s replay=%s" % (prop, violation))
        return 1
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--setup":
        prune()
        os.makedirs(BUILD, exist_ok=True)
        # nothing that depends on /repo is prepared here: every check builds what it needs itself
        subprocess.check_call([CXX, "--version"], stdout=subprocess.DEVNULL)
        return 0
    if sys.argv[1] == "--replay":
        text = open(sys.argv[2]).read()
        prop = text.split("\n")[0].split()[1]
        for b in CHECKS[prop]["binaries"]:
            exe = build(b)
            env = dict(os.environ)
            if b.get("plugins"):
                try:
                    env["VP_PLUGINS"] = build_plugins(b)
                except ConfigBroken as e:
                    print(e.what)
                    return 1
            r = subprocess.run([exe, "--prop", prop, "--replay", os.path.abspath(sys.argv[2])], env=env)
            if r.returncode != 3:
                return r.returncode
        return 3
    if sys.argv[1] == "--build":
        for prop in sys.argv[2:] or CHECKS:
            for b in CHECKS[prop]["binaries"]:
                print(prop, build(b))
        return 0
    prop = sys.argv[1]
    try:
        return run_check(prop)
    except RuntimeError as e:
        sys.stderr.write("check error: %s\n" % e)
        return 2


sys.exit(main())
