#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its compiled code (see DESIGN.md).

usage: check.py PROPERTY [--thorough] | check.py --setup | check.py --replay FILE
"""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
ZSYM = f"{HERE}/engine/target/release/zsym"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0", RUST_BACKTRACE="0")
for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET_DIR"):
    ENV.pop(k, None)
for k in [k for k in ENV if k.startswith("CARGO_PROFILE_")]:
    ENV.pop(k)
IRFLAGS = "-C no-vectorize-loops -C no-vectorize-slp"
JOBS = int(os.environ.get("ZSYM_JOBS", "8"))
MAX_ALLOC = 1 << 26

sys.path.insert(0, HERE)
from bounds import OPTS, GROUPS, BOUNDS_TEXT, secs_for  # noqa: E402


class Broken(Exception):
    """The check itself cannot give an answer (exit 2)."""


class BuildViolation(Exception):
    """Generated code does not compile or the generator fails on a valid schema."""

    def __init__(self, msg, files):
        super().__init__(msg)
        self.files = files


def log(*a):
    print(*a, flush=True)


def run(cmd, cwd, env=ENV, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


# ---------------------------------------------------------------- builds
def tree_hash():
    """Hash of the sources in /repo that anything here is built from."""
    h = hashlib.sha256()
    for top in ("crates", "Cargo.toml", "Cargo.lock"):
        top = f"{REPO}/{top}"
        files = [top] if os.path.isfile(top) else []
        for d, dirs, fs in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            files += [f"{d}/{f}" for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def stale(target, th):
    """Makes cargo rebuild what comes from /repo when its contents changed since the last build here."""
    stamp = f"{target}/zsym.stamp"
    try:
        old = open(stamp).read()
    except OSError:
        old = ""
    if old == th:
        return
    for d, dirs, _ in os.walk(target):
        if os.path.basename(d) == ".fingerprint":
            for x in dirs:
                if re.match(r"(zserio|rust-zserio|gen|rt|gc|sup|replay)", x):
                    shutil.rmtree(f"{d}/{x}")
            dirs[:] = []
    os.makedirs(target, exist_ok=True)
    if os.path.exists(stamp):
        os.remove(stamp)


def stamped(target, th):
    with open(f"{target}/zsym.stamp", "w") as f:
        f.write(th)


def build_engine():
    rc, out = run(["cargo", "build", "--release", "--offline", "-q"], f"{HERE}/engine")
    if rc:
        raise Broken("the engine does not build:\n" + out[-3000:])


def generate(th):
    """Runs /repo's generator over the schema corpus; output in gc/target/gen."""
    tgt = f"{HERE}/gen/target"
    stale(tgt, th)
    rc, out = run(["cargo", "build", "--offline", "-q"], f"{HERE}/gen")
    if rc:
        raise Broken("the schema compiler of /repo does not build:\n" + out[-3000:])
    stamped(tgt, th)
    dst = f"{HERE}/gc/target/gen"
    new = dst + ".new"
    shutil.rmtree(new, ignore_errors=True)
    os.makedirs(new)
    rc, out = run([f"{tgt}/debug/gen", f"{HERE}/schemas", new], HERE, timeout=120)
    if rc:
        raise BuildViolation("the generator fails on a valid schema:\n" + out[-3000:], re.findall(r"SCHEMA (\S+)", out)[-1:])
    # keep timestamps when nothing changed
    if dir_hash(new) == dir_hash(dst):
        shutil.rmtree(new)
    else:
        shutil.rmtree(dst, ignore_errors=True)
        os.rename(new, dst)


def dir_hash(p):
    h = hashlib.sha256()
    for d, dirs, fs in os.walk(p):
        dirs.sort()
        for f in sorted(fs):
            h.update(f"{os.path.relpath(d, p)}/{f}".encode())
            h.update(open(f"{d}/{f}", "rb").read())
    return h.hexdigest()


def build_ir(group, profile, th):
    tgt = f"{HERE}/{group}/target/{profile}"
    stale(tgt, th)
    env = dict(ENV, RUSTFLAGS=IRFLAGS)
    cmd = ["cargo", "rustc", "--profile", profile, "--lib", "--crate-type", "cdylib", "--offline", "-q",
           "--target-dir", tgt, "--", "--emit=llvm-ir", "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all"]
    rc, out = run(cmd, f"{HERE}/{group}", env)
    if rc:
        fail_build(group, out)
    stamped(tgt, th)
    ll = f"{tgt}/{profile}/deps/{group}.ll"
    if not os.path.exists(ll):
        raise Broken(f"no IR at {ll}")
    return ll


def fail_build(group, out):
    spans = re.findall(r"--> (\S*target/gen/\S+?):\d+", out)
    if spans:
        raise BuildViolation("generated code does not compile:\n" + out[-6000:], sorted(set(spans)))
    raise Broken(f"{group} does not build:\n" + out[-4000:])


def build_native(group, profile, th):
    tgt = f"{HERE}/{group}/target/nat"
    stale(f"{tgt}-{profile}", th)
    rc, out = run(["cargo", "build", "--bin", "replay", "--features", "native", "--profile", profile, "--offline", "-q",
                   "--target-dir", f"{tgt}-{profile}"], f"{HERE}/{group}")
    if rc:
        fail_build(group, out)
    stamped(f"{tgt}-{profile}", th)
    return f"{tgt}-{profile}/{'debug' if profile == 'dev' else profile}/replay"


def build(groups, tier, natives=("dev", "nat-rel")):
    """-> {group: {"ir": [(profile, ll)], "dev": bin, "nat-rel": bin}}"""
    th = tree_hash()
    os.makedirs(f"{HERE}/work", exist_ok=True)
    with open(f"{HERE}/work/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_engine()
        if "gc" in groups:
            generate(th)
        r = {}
        jobs = []
        with cf.ThreadPoolExecutor(4) as ex:
            for g in groups:
                profs = ["ir"] + (["ir-rel"] if tier == "thorough" else [])
                for p in profs:
                    jobs.append((g, p, ex.submit(build_ir, g, p, th)))
                for p in natives:
                    jobs.append((g, p, ex.submit(build_native, g, p, th)))
            for g, p, f in jobs:
                r.setdefault(g, {"ir": []})
                if p.startswith("ir"):
                    r[g]["ir"].append((p, f.result()))
                else:
                    r[g][p] = f.result()
        return r


# ---------------------------------------------------------------- native runs
def native(binary, harness, opts, inputs_list, timeout=60):
    """Runs the compiled real code on recorded inputs; one result per entry (None: the process died)."""
    res = []
    todo = list(inputs_list)
    while todo:
        text = "".join(f"{harness} {opts} " + " ".join(f"{w}:{v}" for w, v in ins) + "\n" for ins in todo)
        try:
            p = subprocess.run([binary], input=text, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
            out = [json.loads(x) for x in p.stdout.splitlines() if x.startswith("{") and x.endswith("}")]
            rc = p.returncode
        except subprocess.TimeoutExpired as e:
            out = [json.loads(x) for x in (e.stdout or b"").decode().splitlines() if x.endswith("}")]
            rc = "timeout"
        res += out
        todo = todo[len(out):]
        if todo:
            res.append({"outcome": "hang" if rc == "timeout" else "crash", "log": [], "failed": [[0, f"process ended: {rc}"]], "heap": 0})
            todo = todo[1:]
    return res


def reproduces(v, r):
    """Does the native run r show a violation? (v: what the engine reported)"""
    if r["outcome"] in ("assert", "panic", "crash", "hang"):
        return True
    if v["kind"] == "error" and "allocation of up to" in v["msg"] and r["heap"] > MAX_ALLOC:
        return True
    return False


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    out = []
    p = f"{HERE}/known-findings.txt"
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) harness=(\S+) failure=\"([^\"]*)\" (.*)", line)
        if m and m.group(1) == prop:
            out.append({"harness": m.group(2), "failure": m.group(3), "what": m.group(4)})
    return out


# ---------------------------------------------------------------- one property
def run_harness(job):
    ll, prof, name, group, opts, secs, seed, work, tag = job
    out = f"{work}/{tag}.json"
    if os.path.exists(out):
        os.remove(out)
    cmd = [ZSYM, ll, name, "--secs", str(secs), "--opts", opts, "--out", out, "--seed", str(seed), "--samples", "12",
           "--max-alloc", str(MAX_ALLOC)]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=secs + 90)
        err = p.stderr[-2000:]
    except subprocess.TimeoutExpired:
        err = "killed after its time limit"
    try:
        j = json.load(open(out))
        os.remove(out)
    except (OSError, ValueError):
        j = {"entry": name, "crashed": err, "complete": False, "timed_out": "killed" in err, "paths": {}, "forks": 0, "insts": 0,
             "queries": 0, "sat": 0, "unsat": 0, "cached": 0, "solver_ms": 0, "solver_max_ms": 0, "wall_s": time.time() - t,
             "nodes": 0, "vars": 0, "alloc_max": 0, "asserts": {}, "merged": {}, "covers": {}, "unsupported": {}, "functions": [],
             "violations": [], "samples": []}
    j["profile"] = prof
    j["group"] = group
    j["opts"] = opts
    return j


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ev = f"{HERE}/evidence/{prop}.json"
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    os.makedirs(f"{HERE}/replays", exist_ok=True)
    work = f"{HERE}/work/{prop}-{os.getpid()}"
    groups = GROUPS[prop]
    try:
        b = build(groups, tier)
    except BuildViolation as e:
        return build_violation(prop, tier, seed, ev, e, t0)
    tb = time.time() - t0
    prefix = f"h_{prop.lower()}_"
    jobs = []
    os.makedirs(work, exist_ok=True)
    deadline = 560 if tier == "quick" else 6 * 3600
    for g in groups:
        for prof, ll in b[g]["ir"]:
            rc, out = run([ZSYM, ll, "--list"], HERE)
            names = [n for n in out.split() if n.startswith(prefix) and not (tier == "quick" and n.endswith("_deep"))]
            for n in names:
                jobs.append((ll, prof, n, g, OPTS[g][tier], secs_for(n, tier), seed, work, f"{prof}-{n}"))
    if not jobs:
        raise Broken(f"no harness for {prop}")
    results = []
    start = time.time()

    def go(job):
        left = deadline - (time.time() - start)
        if left < 10:
            left = 10
        job = list(job)
        job[5] = min(job[5], left)
        return run_harness(tuple(job))

    with cf.ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(go, jobs))
    shutil.rmtree(work, ignore_errors=True)

    # replay
    known = known_findings(prop)
    violations, findings, unrepro = [], {}, []
    validated = mismatches = 0
    mism = []
    sampled = []
    for j in results:
        g, name, opts = j["group"], j["entry"], j["opts"]
        binary = b[g]["nat-rel" if j["profile"] == "ir-rel" else "dev"]
        other = b[g]["dev" if j["profile"] == "ir-rel" else "nat-rel"]
        if j["samples"]:
            rs = native(binary, name, opts, [s["inputs"] for s in j["samples"]])
            for s, r in zip(j["samples"], rs):
                if r["outcome"] == s["outcome"] and r["log"] == s["log"]:
                    validated += 1
                else:
                    mismatches += 1
                    mism.append({"harness": name, "inputs": s["inputs"], "engine": s["outcome"], "native": r["outcome"], "failed": r["failed"],
                                 "engine_log": s["log"], "native_log": r["log"]})
            sampled.append({"harness": name, "inputs": j["samples"][0]["inputs"], "log": j["samples"][0]["log"][:40]})
        seen = {}
        for v in j["violations"]:
            seen.setdefault((v["kind"], v["msg"], v["loc"]), []).append(v)
        for vs in seen.values():
            hit = None
            for v in vs[:4]:
                r, r2 = native(binary, name, opts, [v["inputs"]])[0], native(other, name, opts, [v["inputs"]])[0]
                if reproduces(v, r) or reproduces(v, r2):
                    hit = (v, r, r2)
                    break
            if not hit:
                unrepro.append({"harness": name, "profile": j["profile"], **vs[0]})
                continue
            v, r, r2 = hit
            text = " / ".join(m for _, m in (r["failed"] or r2["failed"])) or f"{v['kind']}: {v['msg']}"
            k = next((k for k in known if re.fullmatch(k["harness"], name) and k["failure"] in text), None)
            if k:
                findings.setdefault((k["harness"], k["failure"]), k["what"])
                continue
            path = f"{HERE}/replays/{prop}-{name}-{len(violations)}.json"
            rec = {"property": prop, "group": g, "harness": name, "profile": j["profile"], "opts": opts, "inputs": v["inputs"], "engine": {x: v[x] for x in ("kind", "msg", "loc", "stack")},
                   "native": {"outcome": r["outcome"], "failed": r["failed"], "heap": r["heap"]},
                   "native_other_profile": {"outcome": r2["outcome"], "failed": r2["failed"], "heap": r2["heap"]}, "what": text,
                   "rerun": f"python3 {HERE}/check.py --replay {path}"}
            json.dump(rec, open(path, "w"), indent=1)
            violations.append((path, name, text))
    # evidence
    S = lambda k: sum(j[k] for j in results)
    funcs = sorted({f for j in results for f in j["functions"]})
    own = [f for f in funcs if re.search(r"zserio|bitreader|bitwriter|half::|^gc::|^gen", f)]
    incomplete = [{"harness": j["entry"], "profile": j["profile"], "timed_out": j["timed_out"], "unsupported": j["unsupported"], "crashed": j.get("crashed"),
                   "paths": j["paths"]} for j in results if not j["complete"]]
    vacuous = [j["entry"] for j in results if j["complete"] and not j["covers"] and not j["violations"]]
    cov = {
        "states": sum(sum(j["paths"].values()) for j in results),
        "transitions": S("insts"),
        "traces_validated_against_impl": validated,
        "samples": sampled[:: max(1, len(sampled) // 12)][:14],
        "what_is_counted": "states: symbolic paths explored to their end (each stands for all inputs that take it); transitions: LLVM instructions executed symbolically; "
                           "traces_validated_against_impl: paths whose solver model was run on the compiled real code with identical outputs",
        "harnesses": {f"{j['entry']}@{j['profile']}": {"complete": j["complete"], "paths": j["paths"], "assertions": len(j["asserts"]),
                                                       "assertion_evaluations": [sum(v[0] for v in j["asserts"].values()), sum(v[1] for v in j["asserts"].values())],
                                                       "reach_points_hit": len(j["covers"]), "input_bits_vars": j["vars"], "queries": j["queries"], "unsat": j["unsat"],
                                                       "solver_ms": round(j["solver_ms"]), "wall_s": j["wall_s"]} for j in results},
        "solver": {"name": next((j["z3"] for j in results if "z3" in j), "?"), "queries": S("queries"), "sat": S("sat"), "unsat": S("unsat"), "answered_from_cache": S("cached"),
                   "solver_s": round(S("solver_ms") / 1000, 2), "longest_query_ms": max(j["solver_max_ms"] for j in results)},
        "functions_encoded": {"total": len(funcs), "of_the_project_and_its_bit_libraries": own},
        "bounds": {"options": {g: OPTS[g][tier] for g in groups}, "text": BOUNDS_TEXT.get(prop, ""), "ir_profiles": sorted({j["profile"] for j in results})},
        "complete_within_bounds": not incomplete,
        "incomplete": incomplete,
        "vacuous": vacuous,
        "engine_native_mismatches": mism[:5],
        "violations_not_reproduced": unrepro[:5],
        "known_findings_seen": sorted(findings.values()),
        "build_s": round(tb, 1),
        "tree": tree_hash(),
    }
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
               "assumptions": ["z3's answers are correct", "zsym executes the LLVM IR rustc emits as the machine would (sampled paths are compared with native runs)",
                               "alloc::fmt::format is stubbed: the text of error messages is not modelled", "allocation succeeds up to 64 MiB; larger requests are reported"],
               "wall_s": round(time.time() - t0, 2), "violations": len(violations)}, open(ev, "w"), indent=1)
    for what in sorted(findings.values()):
        log(f"KNOWN-FINDING: property={prop} {what}")
    for x in incomplete:
        log(f"incomplete: {x['harness']}@{x['profile']} paths={x['paths']} {x['unsupported'] or ''} {x['crashed'] or ''}")
    for x in vacuous:
        log(f"vacuous: {x}")
    nq = S("queries")
    log(f"{prop} {tier}: {len(results)} harness runs, {cov['states']} paths, {nq} queries ({S('unsat')} unsat), solver {cov['solver']['solver_s']} s, "
        f"{validated} paths validated natively, {len(violations)} violations, {time.time()-t0:.0f} s")
    if violations:
        for p, n, t in violations:
            log(f"  {n}: {t}")
        p, n, t = violations[0]
        log(f"VIOLATION property={prop} replay={p}")
        return 1
    if mism:
        log("BROKEN: engine and native execution disagree: " + json.dumps(mism[0])[:1500])
        return 2
    if unrepro:
        log("BROKEN: a counterexample of the engine does not reproduce natively: " + json.dumps(unrepro[0])[:1500])
        return 2
    if any(j.get("crashed") and not j["timed_out"] for j in results):
        log("BROKEN: the engine crashed: " + str([j["crashed"] for j in results if j.get("crashed")][0])[:1500])
        return 2
    if not any(j["paths"].get("done") for j in results):
        log("BROKEN: no path was explored to its end")
        return 2
    return 0


def build_violation(prop, tier, seed, ev, e, t0):
    path = f"{HERE}/replays/{prop}-build.json"
    json.dump({"property": prop, "what": str(e), "files": e.files}, open(path, "w"), indent=1)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
               "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [{"build": str(e)[:2000]}]},
               "assumptions": [], "wall_s": round(time.time() - t0, 2), "violations": 1}, open(ev, "w"), indent=1)
    log(str(e)[-3000:])
    log(f"VIOLATION property={prop} replay={path}")
    return 1


def replay(path):
    rec = json.load(open(path))
    if "harness" not in rec:
        log(rec["what"])
        return 1
    b = build([rec["group"]], "quick")
    bad = False
    for p in ("dev", "nat-rel"):
        r = native(b[rec["group"]][p], rec["harness"], rec["opts"], [rec["inputs"]])[0]
        log(p, json.dumps(r)[:3000])
        bad |= r["outcome"] in ("assert", "panic", "crash", "hang") or r["heap"] > MAX_ALLOC
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            build(sorted({g for gs in GROUPS.values() for g in gs}), "quick")
            return 0
        if a[:1] == ["--replay"]:
            return replay(a[1])
        tier = "thorough" if "--thorough" in a else "quick"
        return check(a[0], tier)
    except Broken as e:
        log("BROKEN:", e)
        return 2
    except BuildViolation as e:
        log(e)
        return 1


if __name__ == "__main__":
    sys.exit(main())
