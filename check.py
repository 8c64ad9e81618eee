#!/usr/bin/env python3
"""Decides one property of /repo against the TLA+ specification in /verif/spec.

  check.py C01 [--tier quick|thorough] [--seed N]     decide the property
  check.py C01 --replay replays/C01-....json          run one recorded script again

Stages: (1) TLC checks the specification modules the property rests on; (2) the driver is built against /repo;
(3) scripts are made, by TLC from the specification and by the seeded generator, and executed on the real crate;
(4) TLC checks every recorded trace against the specification, together with corrupted copies (canaries) that it
must not accept.  Exit 0: all accepted; 1: VIOLATION lines; 2: the machinery itself failed.
"""
from concurrent.futures import ThreadPoolExecutor
import argparse, json, os, random, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN, MODELS, GENS  # noqa: E402
import convert  # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4
T0 = time.time()


class ToolError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# ---------------------------------------------------------------------------------------------------------------
# TLC

def tlc(work, cfg, module, env=None, workers=CORES, timeout=840, args=()):
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx10g", "-Xss16m", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-fp", "1", "-seed", "1",
           "-config", cfg, *args, module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        out = x.stdout or b""
        return None, out.decode(errors="replace") if isinstance(out, bytes) else out
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_stats(out):
    m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return tuple(int(x.replace(",", "")) for x in m[-1])


def apalache(work, module, args, timeout=840):
    out = tempfile.mkdtemp(prefix="apalache", dir=work)
    e = dict(os.environ, TMPDIR=out, JVM_ARGS="-Xmx4g -Djava.io.tmpdir=" + out)
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        p = subprocess.run(["apalache-mc", "check", *args, "--out-dir=" + out, os.path.join(SPEC, module)], cwd=out, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return p.returncode == 0 and "The outcome is: NoError" in p.stdout, p.stdout
    finally:
        shutil.rmtree(out, ignore_errors=True)


def check_models(work, names, stats):
    for name in names:
        module, cfg, env, args = MODELS[name]
        t = time.time()
        if cfg == "apalache":
            ok, out = apalache(work, module, args)
            if not ok:
                raise ToolError("specification model %s failed:\n%s" % (name, out[-4000:]))
            stats["models"][name] = {"states": 1, "transitions": 1, "symbolic": True, "wall_s": round(time.time() - t, 1)}
            log("model %s: proved by Apalache, %.1fs" % (name, time.time() - t))
            continue
        rc, out = tlc(work, cfg, module, env=env, args=args)
        if rc != 0:
            raise ToolError("specification model %s failed (rc %s):\n%s" % (name, rc, out[-4000:]))
        gen, dist = tlc_stats(out)
        if dist < 1:
            raise ToolError("specification model %s explored nothing:\n%s" % (name, out[-2000:]))
        stats["models"][name] = {"states": dist, "transitions": gen, "wall_s": round(time.time() - t, 1)}
        log("model %s: %d states, %d transitions, %.1fs" % (name, dist, gen, time.time() - t))


def spec_scripts(work, name, tier, seed, stats):
    """scripts generated by TLC from the specification"""
    module, cfg, env, args, conv = GENS[name]
    t = time.time()
    args = [a.replace("SEED", str(seed)) for a in args]
    rc, out = tlc(work, cfg, module, env=env, args=args)
    if rc != 0 and not (rc is None):
        raise ToolError("generator %s failed (rc %s):\n%s" % (name, rc, out[-4000:]))
    items = []
    for m in re.finditer(r'^<<"GEN", (".*")>>$', out, re.M):
        items.append(json.loads(json.loads(m.group(1))))
    gen, dist = tlc_stats(out)
    del out
    scripts = getattr(convert, conv)(items, random.Random(seed), tier)
    if not scripts:
        raise ToolError("generator %s produced nothing" % name)
    stats["generators"][name] = {"cases": len(items), "scripts": len(scripts), "states": dist, "transitions": gen,
                                 "wall_s": round(time.time() - t, 1)}
    log("generator %s: %d cases, %d scripts, %.1fs" % (name, len(items), len(scripts), time.time() - t))
    return scripts


# ---------------------------------------------------------------------------------------------------------------
# driver

CARGO_ENV = {
    "RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUST_BACKTRACE": "0",
}


def cargo(features, hook, profile="release"):
    name = "-".join(sorted(features) + (["hook"] if hook else [])) or "plain"
    if profile != "release":
        name += "-" + profile
    target = os.path.join(ROOT, "driver", "target", name)
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_INCREMENTAL", "LD_PRELOAD"):
        e.pop(k, None)
    e.update(CARGO_ENV)
    e["CARGO_TARGET_DIR"] = target
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    if hook:
        e["RUSTFLAGS"] = "--cfg fast_paths_verif"
    cmd = ["cargo", "build", "--profile", profile, "--offline", "--locked"]
    if features:
        cmd += ["--features", ",".join(features)]
    # never reuse what was built from another state of /repo with equal time stamps
    p = subprocess.run(["cargo", "clean", "--profile", profile, "--offline", "-p", "fast_paths"],
                       cwd=os.path.join(ROOT, "driver"), env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(cmd, cwd=os.path.join(ROOT, "driver"), env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=600)
    return p.returncode == 0, os.path.join(target, profile, "fpv"), p.stdout


def build(plan, notes):
    feats, hook = list(plan.get("features", [])), plan.get("hook", False)
    with ThreadPoolExecutor(2) as pool:
        second = pool.submit(cargo, feats, hook, "checked")
        ok, exe, out = cargo(feats, hook)
        ok2, exe2, _ = second.result()
    if ok:
        if ok2:
            os.environ["FPV_CHECKED"] = exe2
        else:
            notes.append("the build with overflow checks and assertions fails; checked without them only")
        return exe, hook
    if hook:
        notes.append("the hook does not compile; checked without it")
        ok, exe, out2 = cargo(feats, False)
        if ok:
            return exe, False
    if "conc" in feats:
        ok, exe, _ = cargo([], False)
        if ok:
            return None, out     # prepared graphs cannot be shared between threads any more
    raise ToolError("the driver does not build:\n" + out[-4000:])


def execute(exe, work, scripts, timeout=150):
    d = tempfile.mkdtemp(prefix="run", dir=work)
    sf, tf = os.path.join(d, "scripts"), os.path.join(d, "traces")
    with open(sf, "w") as f:
        for s in scripts:
            f.write(s + "\n")
    p = subprocess.run([exe, "run", sf, tf, os.path.join(d, "w"), str(CORES), str(timeout)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=d)
    if p.returncode != 0:
        raise ToolError("driver failed (rc %d):\n%s" % (p.returncode, p.stderr[-3000:]))
    with open(tf) as f:
        traces = f.read().splitlines()
    shutil.rmtree(d, ignore_errors=True)
    return traces


HEADERS = {
    "id": {"enc": "id", "k": "1000000", "wm": 1000000000, "lim32": 1000000000},
    # 15 * k is the largest 64-bit number, resp. the largest 32-bit number (see driver/src/enc.rs)
    "max64": {"enc": "max64", "k": str((2 ** 64 - 1) // 15), "wm": 15000000, "lim32": 500001},
    "max32": {"enc": "max32", "k": str((2 ** 32 - 1) // 15), "wm": 1000000000, "lim32": 15000000},
}


def numbered_scripts(exe, work, specs):
    """all graphs of a numbered family (see Bulk.tla), in chunks"""
    out = []
    for k, (n, b, lo, hi, chunk, more) in enumerate(specs):
        more = dict(more)
        head = HEADERS[more.pop("enc", "id")]
        step = more.get("step", 1)
        for i in range(lo, hi, chunk * step):
            j = min(hi, i + chunk * step)
            out.append(json.dumps({"h": dict(head, id="numbered-%d-%d-%d-%d" % (k, n, b, i)),
                                   "ops": [dict(o="enum", n=n, b=b, lo=i, hi=j, **more)]}, separators=(",", ":")))
    return out


def seeded_scripts(exe, work, suite, seed, tier, scale):
    f = os.path.join(work, "gen.%s" % suite.replace(":", "-"))
    e = dict(os.environ, FPV_SCALE=str(scale))
    p = subprocess.run([exe, "gen", suite, str(seed), tier, f], env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise ToolError("generator of suite %s failed:\n%s" % (suite, p.stderr[-3000:]))
    with open(f) as h:
        s = h.read().splitlines()
    os.unlink(f)
    return s


# ---------------------------------------------------------------------------------------------------------------
# trace validation

def corrupt(trace, rnd):
    """a copy of the trace with one response changed into one the specification cannot allow"""
    t = json.loads(trace)
    wm = t["h"]["wm"]
    cands = []
    for i, e in enumerate(t["ev"]):
        r, o = e["r"], e["o"]
        if o in ("q", "mq") and r["k"] == "path" and r["w"] + 1 < wm:
            cands += [(i, "w"), (i, "none")]
        elif o in ("q", "mq") and r["k"] in ("none", "panic"):
            cands.append((i, "flip"))
        elif o == "row" and r["k"] == "row" and r["d"]:
            cands.append((i, "row"))
        elif o in ("all", "fall", "one") and r["k"] in ("all", "ok") and r.get("d"):
            cands.append((i, "all"))
        elif o in ("nn", "ne", "add", "addb") and r["k"] == "ok":
            cands.append((i, "n"))
        elif o in ("nn", "ne", "add", "addb", "frz", "edges") and r["k"] == "panic":
            cands.append((i, "ok"))
        elif o == "edges" and r.get("e"):
            cands.append((i, "edge"))
        elif o in ("frz", "thw", "fromd", "fromf", "tof", "tod", "prep") and r["k"] == "ok":
            cands.append((i, "panic"))
        elif o == "ord" and r.get("o"):
            cands.append((i, "ord"))
        elif o == "cnt" and r["k"] == "ok":
            cands.append((i, "cnt"))
        elif o == "long" and r.get("w", 0) and r["k"] == "path":
            cands.append((i, "w"))
        elif o == "hier" and r.get("o"):
            cands.append((i, "ord"))
    if not cands:
        return None
    i, how = rnd.choice(cands)
    e = t["ev"][i]
    r = e["r"]
    if how == "w":
        r["w"] += 1
    elif how == "none":
        e["r"] = {"k": "none"}
    elif how == "flip":
        e["r"] = {"k": "panic"} if r["k"] == "none" else {"k": "none"}
    elif how == "row":
        j = rnd.randrange(len(r["d"]))
        r["d"][j] = r["d"][j] - 1
    elif how == "all":
        j = rnd.randrange(len(r["d"]))
        k = rnd.randrange(len(r["d"][j]))
        r["d"][j][k] = r["d"][j][k] - 1
    elif how == "n":
        r["n"] += 1
    elif how == "ok":
        e["r"] = {"k": "ok"}
    elif how == "panic":
        e["r"] = {"k": "panic"}
    elif how == "edge":
        r["e"].pop(rnd.randrange(len(r["e"])))
    elif how == "ord":
        r["o"] = [x + 1 for x in r["o"]]
    elif how == "cnt":
        r["n"] += 1
    t["ev"] = t["ev"][:i + 1]
    t["h"]["id"] += "-canary-%s-%d" % (how, i)
    return json.dumps(t, separators=(",", ":"))


MAX_BATCH = 60_000_000


def validate(work, traces, stats):
    """indices of the traces that the specification does not accept"""
    if not traces:
        return [], 0
    if len(traces) > 1 and sum(map(len, traces)) > MAX_BATCH:
        bad, size, lo = [], 0, 0
        for i, t in enumerate(traces + [None]):
            if t is None or (size + len(t) > MAX_BATCH and i > lo):
                b, _ = validate(work, traces[lo:i], stats)
                bad += [lo + x for x in b]
                size, lo = 0, i
            size += len(t or "")
        return bad, 0
    f = os.path.join(work, "traces.ndjson")
    with open(f, "w") as h:
        h.write("\n".join(traces) + "\n")
    rc, out = tlc(work, "FastPathsTrace.cfg", "FastPathsTrace.tla", env={"TRACE": f})
    os.unlink(f)
    acc = {int(x) - 1 for x in re.findall(r'<<"ACCEPT", (\d+)>>', out)}
    gen, dist = tlc_stats(out)
    stats["states"] += dist
    stats["transitions"] += gen
    if rc == 0:
        if dist < len(traces):
            raise ToolError("trace validation saw fewer traces than recorded:\n" + out[-2000:])
        return [i for i in range(len(traces)) if i not in acc], dist
    if rc is None:
        raise ToolError("trace validation ran out of time")
    if "OutOfMemory" in out or "StackOverflow" in out or "Java heap" in out:
        if len(traces) == 1:
            raise ToolError("trace validation ran out of memory:\n" + out[-3000:])
    elif len(traces) == 1:
        # a response the specification cannot even be evaluated on
        log("TLC: " + " | ".join(re.findall(r"^Error: .*", out, re.M)[:3]))
        if "Parsing" not in out or "Starting..." not in out:
            raise ToolError("TLC did not start:\n" + out[-3000:])
        return [0], dist
    # isolate the culprit
    log("TLC stopped (rc %s) on a batch of %d traces; splitting" % (rc, len(traces)))
    rest = [i for i in range(len(traces)) if i not in acc]
    if len(rest) == len(traces) and len(rest) > 1 or len(rest) > 1:
        mid = len(rest) // 2
        bad = []
        for part in (rest[:mid], rest[mid:]):
            b, _ = validate(work, [traces[i] for i in part], stats)
            bad += [part[i] for i in b]
            if len(bad) >= 3:
                break
        return bad, dist
    if rest:
        b, _ = validate(work, [traces[rest[0]]], stats)
        return [rest[i] for i in b], dist
    raise ToolError("TLC failed:\n" + out[-3000:])


def diagnose(work, trace):
    """number of the first event the specification does not allow"""
    f = os.path.join(work, "one.ndjson")
    with open(f, "w") as h:
        h.write(trace + "\n")
    rc, out = tlc(work, "FastPathsDiagnose.cfg", "FastPathsTrace.tla", env={"TRACE": f}, workers=1)
    os.unlink(f)
    ls = [int(x) for x in re.findall(r"^/\\ l = (\d+)", out, re.M)]
    if not ls:
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        return 1
    return max(ls)


# ---------------------------------------------------------------------------------------------------------------

def report(prop, work, n, trace, script):
    t = json.loads(trace)
    l = diagnose(work, trace)
    ev = t["ev"][l - 1] if l <= len(t["ev"]) else {"o": "crash", "r": {"k": "?"}}
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (prop, re.sub(r"[^\w-]", "_", t["h"]["id"]), n))
    with open(path, "w") as h:
        json.dump({"property": prop, "script": json.loads(script) if script else None,
                   "rejected_event": l, "event": ev, "trace": t}, h)
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    print("  trace %s, event %d not allowed by the specification: %s"
          % (t["h"]["id"], l, json.dumps(ev, separators=(",", ":"))[:700]), flush=True)


def checked_third(scripts):
    """every third script is for the build with overflow checks and assertions"""
    return [s if i % 3 or '"prof":' in s[:400] else s.replace('"h":{', '"h":{"prof":"checked",', 1)
            for i, s in enumerate(scripts)]


def run_round(prop, exe, work, scripts, rnd, stats, shown):
    traces = execute(exe, work, scripts)
    log("%d scripts executed, %d traces, %d events" % (len(scripts), len(traces),
                                                      sum(t.count('"r":') for t in traces)))
    by_id = {}
    for s in scripts:
        by_id[json.loads(s)["h"]["id"]] = s
    canaries = []
    for t in rnd.sample(traces, min(len(traces), 40)):
        if len(t) < 200000:
            c = corrupt(t, rnd)
            if c:
                canaries.append(c)
    bad, _ = validate(work, traces + canaries, stats)
    n = len(traces)
    wrong = [c for i, c in enumerate(canaries) if n + i not in bad]
    real = [i for i in bad if i < n]
    stats["traces"] += n
    stats["events"] += sum(t.count('"r":') for t in traces)
    stats["canaries"] += len(canaries)
    for i, t in enumerate(traces):
        if len(stats["samples"]) < 4 and i not in bad and len(t) < 3000 and rnd.random() < 0.05:
            stats["samples"].append(json.loads(t))
    log("%d traces accepted, %d rejected; %d canaries rejected" % (n - len(real), len(real), len(canaries) - len(wrong)))
    for k, i in enumerate(real[:3]):
        sid = json.loads(traces[i])["h"]["id"]
        report(prop, work, shown + k, traces[i], by_id.get(sid))
    if wrong and not real:
        raise ToolError("the specification accepts corrupted traces:\n" + "\n".join(w[:1500] for w in wrong[:3]))
    return len(real)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    plan = PLAN[prop]
    os.makedirs(os.path.join(ROOT, "work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(ROOT, "work"))
    stats = {"states": 0, "transitions": 0, "traces": 0, "events": 0, "canaries": 0, "models": {}, "generators": {},
             "samples": [], "notes": [], "rounds": 0}
    rnd = random.Random(a.seed * 1000003 + sum(map(ord, prop)))
    violations = 0
    try:
        exe, extra = build(plan, stats["notes"])
        log("driver built" + (" with hooks" if extra is True else ""))
        if exe is None:
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            path = os.path.join(ROOT, "replays", prop + "-build.txt")
            with open(path, "w") as h:
                h.write(extra)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  prepared graphs can no longer be shared between threads (the driver does not compile with it)")
            violations = 1
        elif a.replay:
            with open(a.replay) as h:
                rec = json.load(h)
            violations = run_round(prop, exe, work, [json.dumps(rec["script"])], rnd, stats, 0)
        else:
            check_models(work, plan["models"][tier], stats)
            scripts = []
            for g in plan["gens"][tier]:
                scripts += [json.dumps(s, separators=(",", ":")) for s in spec_scripts(work, g, tier, a.seed, stats)]
            scale, rounds, budget = plan["seeded"][tier]
            for k in range(rounds):
                seed = a.seed * 10007 + k
                for suite in plan.get("suites", [prop]):
                    scripts += seeded_scripts(exe, work, suite, seed, tier if k == 0 else "quick", scale)
                if plan["bulk"][tier]:
                    scripts += seeded_scripts(exe, work, "bulk:" + prop, seed, str(plan["bulk"][tier]), 1)
                if k == 0:
                    scripts += numbered_scripts(exe, work, plan["numbered"][tier])
                violations += run_round(prop, exe, work, checked_third(scripts), rnd, stats, violations)
                stats["rounds"] += 1
                scripts = []
                if violations or time.time() - T0 > budget:
                    break
    except ToolError as e:
        print("ERROR: " + str(e), flush=True)
        return 1 if violations else 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    if not a.replay:
        evidence(prop, tier, a.seed, plan, stats, violations)
    return 1 if violations else 0


def evidence(prop, tier, seed, plan, stats, violations):
    mg = list(stats["models"].values()) + list(stats["generators"].values())
    cov = {
        "states": stats["states"] + sum(m["states"] for m in mg),
        "transitions": stats["transitions"] + sum(m["transitions"] for m in mg),
        "traces_validated_against_impl": stats["traces"],
        "samples": stats["samples"] or [{"note": "no trace short enough to print"}],
        "events_validated": stats["events"],
        "canaries_rejected": stats["canaries"],
        "rounds": stats["rounds"],
        "models": stats["models"],
        "spec_generated": stats["generators"],
        "trace_states": stats["states"],
        "explanation": plan["what"],
    }
    if stats["notes"]:
        cov["notes"] = stats["notes"]
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as h:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                   "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - T0, 2),
                   "violations": violations}, h, indent=1)
        h.write("\n")


if __name__ == "__main__":
    sys.exit(main())
