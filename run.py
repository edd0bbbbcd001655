#!/usr/bin/env python3
"""Decides one property by running its monitors against /repo's working tree.

usage: run.py PROP        decide a property (VERIF_SEED, VERIF_TIER in the environment)
       run.py --setup     build everything
exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not run.
"""
import hashlib, json, os, re, resource, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
T = f"{V}/target"
NIGHTLY = "nightly"
TRIPLE = "x86_64-unknown-linux-gnu"

sys.path.insert(0, V)
from props import PROPS  # noqa: E402

SEED = os.environ.get("VERIF_SEED", "1").strip() or "1"
try:
    SEED = int(SEED)
except ValueError:
    SEED = 1
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def log(*a):
    print(*a, flush=True)


def base_env(**kw):
    e = dict(os.environ)
    e.update(
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUST_BACKTRACE="0",
        CARGO_INCREMENTAL="1",
    )
    for k in list(e):
        if k.startswith("OTEL_"):
            del e[k]
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
        e.pop(k, None)
    e.update(kw)
    return e


# ---- rebuilding from /repo's current tree --------------------------------------------
def repo_hashes():
    """content hash per crate of /repo: file times decide nothing"""
    out = {}
    for d in sorted(os.listdir(REPO)):
        root = f"{REPO}/{d}"
        if not (d.startswith("opentelemetry") and os.path.isfile(f"{root}/Cargo.toml")):
            continue
        h = hashlib.sha256()
        for p, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "benches", "tests", "examples"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")):
                    with open(f"{p}/{f}", "rb") as fh:
                        h.update(f"{p}/{f}\0".encode())
                        h.update(fh.read())
        out[d] = h.hexdigest()
    return out


def refresh(pkg, target, env, tool):
    """forget build products of crates whose content changed since they were built"""
    os.makedirs(target, exist_ok=True)
    stamp = f"{target}/.{pkg}.hashes.json"
    now = repo_hashes()
    try:
        with open(stamp) as f:
            old = json.load(f)
    except (OSError, ValueError):
        old = None
    if old is not None:
        changed = [c for c in now if old.get(c) != now[c]]
        if changed:
            names = dep_names(pkg)
            # crates of ours compiled straight from /repo's sources
            vd = f"{V}/{pkg}/variants"
            names |= set(os.listdir(vd)) if os.path.isdir(vd) else set()
            changed += os.listdir(vd) if os.path.isdir(vd) else []
            args = [x for c in changed if c in names for x in ("-p", c)]
            if args:
                subprocess.run(tool + ["clean", "--offline"] + args, cwd=f"{V}/{pkg}", env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return stamp, now


def dep_names(pkg):
    with open(f"{V}/{pkg}/Cargo.toml") as f:
        direct = set(re.findall(r'path\s*=\s*"/repo/([\w-]+)"', f.read()))
    # everything a /repo crate may depend on
    if direct:
        direct |= {"opentelemetry", "opentelemetry_sdk", "opentelemetry-sdk", "opentelemetry-http", "opentelemetry-proto"}
    lock = f"{V}/{pkg}/Cargo.lock"
    present = set()
    if os.path.exists(lock):
        with open(lock) as f:
            present = set(re.findall(r'name = "([\w-]+)"', f.read()))
    return {d for d in list(direct) + [x.replace("-", "_") for x in direct] if d in present}


def build(pkg, bins, kind="native"):
    lock = f"{V}/{pkg}/Cargo.lock"
    if not os.path.exists(lock):
        src = f"{V}/locks/{pkg}.lock"
        if os.path.exists(src):
            shutil.copy(src, lock)
    target = f"{T}/{kind}"
    if kind == "native":
        env = base_env(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTFLAGS="--cap-lints=allow", CARGO_TARGET_DIR=target)
        tool = ["cargo"]
        args = ["build", "--offline", "-q"] + [x for b in bins for x in ("--bin", b)]
    elif kind == "tsan":
        env = base_env(RUSTFLAGS="-Zsanitizer=thread --cap-lints=allow", CARGO_TARGET_DIR=target)
        env.pop("RUSTUP_TOOLCHAIN", None)
        tool = ["cargo", "+" + NIGHTLY]
        args = ["build", "--offline", "-q", "-Zbuild-std", "--target", TRIPLE] + [x for b in bins for x in ("--bin", b)]
    elif kind == "miri":
        env = base_env(CARGO_TARGET_DIR=target)
        env.pop("RUSTUP_TOOLCHAIN", None)
        env.pop("RUSTFLAGS", None)  # Miri does not get on with --cap-lints
        tool = ["cargo", "+" + NIGHTLY]
        args = None
    stamp, now = refresh(pkg, target, env, tool)
    t0 = time.time()
    if args:
        r = subprocess.run(tool + args, cwd=f"{V}/{pkg}", env=env, capture_output=True, text=True)
        if r.returncode != 0:
            log(r.stderr[-6000:])
            log(f"ERROR: building {pkg} ({kind}) failed")
            sys.exit(2)
    with open(stamp, "w") as f:
        json.dump(now, f)
    return target, env, time.time() - t0


# ---- engines ---------------------------------------------------------------------------
def run_native(prop, spec, parts, budget):
    pkg, b = spec["pkg"], spec["bin"]
    target, env, bt = build(pkg, [b])
    out = f"{V}/evidence/.parts/{prop}.native.json"
    env = base_env(VERIF_OUT=out, VERIF_SEED=str(SEED), VERIF_TIER=TIER, VERIF_BUDGET_S=str(budget),
                   VERIF_KNOWN=f"{V}/known_findings.txt", RUST_BACKTRACE="0")
    if os.environ.get("VERIF_REPLAY"):
        env["VERIF_REPLAY"] = os.environ["VERIF_REPLAY"]
    try:
        os.remove(out)
    except OSError:
        pass
    limit = 800 if TIER == "quick" else 3600
    try:
        # code that eats memory without end aborts (and is reported) before the sandbox runs out of it
        cap = lambda: resource.setrlimit(resource.RLIMIT_DATA, (14 << 30, 14 << 30))
        r = subprocess.run([f"{target}/debug/{b}", prop], env=env, timeout=limit, capture_output=True, text=True, errors="replace", cwd="/tmp", preexec_fn=cap)
        rc, err, so = r.returncode, r.stderr, r.stdout
    except subprocess.TimeoutExpired as e:
        rc, err, so = "timeout", (e.stderr or b"").decode("utf-8", "replace") if isinstance(e.stderr, bytes) else str(e.stderr), ""
    if err and os.environ.get("VERIF_VERBOSE"):
        log(err[-8000:])
    try:
        with open(out) as f:
            d = json.load(f)
    except (OSError, ValueError):
        d = None
    crashed = isinstance(rc, int) and (rc < 0 or rc in (101, 134))
    if d is None:
        d = {"evaluations": 0, "distinct": 0, "samples": [], "violations": [], "observed": {}, "inconclusive": {}, "sections": [], "starved": False}
        if crashed and rc < 0 and -rc in (4, 6, 7, 8, 11):
            # the process running the real code died on a signal: memory corruption, abort or stack overflow
            d["violations"].append({"key": f"crash:signal{-rc}", "case": "", "detail": f"the process running the library died on signal {-rc}; last output: {err[-1500:]}", "count": 1})
        else:
            log(err[-3000:])
            log(f"ERROR: native engine for {prop} gave no result (rc={rc})")
            sys.exit(2)
    d["engine"] = "native"
    d["build_s"] = round(bt, 1)
    parts.append(d)


def sanitizer_part(engine):
    return {"engine": engine, "evaluations": 0, "distinct": 0, "samples": [], "violations": [], "observed": {}, "inconclusive": {}, "sections": [], "starved": False}


def frames_of(text):
    """the library source files named in a report, in order"""
    seen = []
    for m in re.finditer(r"(/repo/[\w./-]+\.rs|opentelemetry[\w./-]*/src/[\w./-]+\.rs)", text):
        f = m.group(1).replace("/repo/", "")
        if f not in seen:
            seen.append(f)
    return seen


def run_miri(prop, spec, parts, budget):
    """runs the scenarios of spec['miri'] under Miri with many schedule seeds"""
    d = sanitizer_part("miri")
    target, env, bt = build("mirih", [], "miri")
    # compiles what changed: the budget is for running
    r = subprocess.run(["cargo", "+" + NIGHTLY, "miri", "run", "--offline", "-q", "--", "nop", "1", "miri"], cwd=f"{V}/mirih",
                       env=dict(env, MIRIFLAGS="-Zmiri-disable-isolation"), capture_output=True, text=True, errors="replace")
    if r.returncode != 0:
        log(r.stderr[-3000:])
        log("ERROR: the scenarios do not run under Miri")
        sys.exit(2)
    t0 = time.time()
    scens = spec["miri"]
    nproc = 8
    sigs = set()
    # one job = one scenario x one schedule seed
    pend = []
    k = 0
    running = []
    maxjobs = spec.get("miri_jobs", {}).get(TIER, 10**6)
    launched = 0
    while True:
        while len(running) < nproc and time.time() - t0 < budget and launched < maxjobs:
            sc = scens[k % len(scens)]
            n = k // len(scens)
            k += 1
            launched += 1
            mseed = (SEED * 1000003 + n * 7919 + len(sc)) % (2**31)
            e = dict(env)
            rate = ["0.01", "0.05", "0.2"][n % 3]
            e["MIRIFLAGS"] = f"-Zmiri-disable-isolation -Zmiri-seed={mseed} -Zmiri-preemption-rate={rate} -Zmiri-num-cpus=4" + spec.get("miriflags", "")
            cmd = ["cargo", "+" + NIGHTLY, "miri", "run", "--offline", "-q", "--", sc, str(SEED * 100 + n), "miri"]
            p = subprocess.Popen(cmd, cwd=f"{V}/mirih", env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            running.append((p, sc, mseed, rate, SEED * 100 + n, time.time()))
        if not running:
            break
        time.sleep(0.02)
        for item in list(running):
            p, sc, mseed, rate, n, ts = item
            if p.poll() is None:
                if time.time() - ts > 300:
                    p.kill()
                    p.wait()
                    running.remove(item)
                    d["inconclusive"][f"miri {sc}: no end within 300 s"] = d["inconclusive"].get(f"miri {sc}: no end within 300 s", 0) + 1
                continue
            running.remove(item)
            so, se = p.communicate()
            d["evaluations"] += 1
            judge_miri(d, sigs, p.returncode, so, se, sc, mseed, rate, n)
        if len({v["key"] for v in d["violations"]}) >= 3:
            for item in running:
                item[0].kill()
                item[0].wait()
            break
    d["distinct"] = len(sigs)
    d["observed"]["miri_distinct_histories"] = len(sigs)
    d["sections"].append({"name": "miri", "cases": d["evaluations"], "s": round(time.time() - t0, 1)})
    if d["evaluations"] and not d["violations"] and d["observed"].get("miri_completed", 0) == 0:
        d["starved"] = True
    parts.append(d)


def add_viol(d, key, case, detail):
    for v in d["violations"]:
        if v["key"] == key:
            v["count"] += 1
            return
    d["violations"].append({"key": key, "case": case, "detail": detail, "count": 1})


def scen_lines(d, sigs, so, case):
    for line in so.splitlines():
        if line.startswith("SIG "):
            sigs.add(case.split(" ")[1] + line)
        elif line.startswith("OBS "):
            _, k, n = line.split(" ")
            d["observed"][k] = d["observed"].get(k, 0) + int(n)
        elif line.startswith("FAIL "):
            key, _, det = line[5:].partition(" ")
            add_viol(d, key, case, det)
        elif line.startswith("SAMPLE ") and len(d["samples"]) < 6:
            d["samples"].append(f"[{case}] {line[7:]}")


def judge_miri(d, sigs, rc, so, se, sc, mseed, rate, n):
    case = f"miri {sc} {n} -Zmiri-seed={mseed} -Zmiri-preemption-rate={rate}"
    scen_lines(d, sigs, so, case)
    if rc == 0 and "DONE" in so:
        d["observed"]["miri_completed"] = d["observed"].get("miri_completed", 0) + 1
        return
    m = re.search(r"error: (Undefined Behavior|.*?deadlock.*?|memory leaked.*|unsupported operation.*)", se, re.I)
    what = m.group(1) if m else ""
    low = se.lower()
    if "unsupported operation" in low or "resource exhaustion" in low:
        k = f"miri {sc}: {what or 'unsupported'}"
        d["inconclusive"][k] = d["inconclusive"].get(k, 0) + 1
    elif "undefined behavior" in low or "data race" in low or "deadlock" in low or "memory leaked" in low:
        kind = "race" if "data race" in low else "deadlock" if "deadlock" in low else "leak" if "memory leaked" in low else "ub"
        fr = frames_of(se)
        if not fr and kind in ("race", "ub"):
            d["inconclusive"][f"miri {sc}: {kind} outside the library"] = 1
            return
        add_viol(d, f"miri-{kind}:{sc}:{fr[0] if fr else ''}", case, se[-3500:])
    elif rc != 0 and "FAIL " not in so:
        pm = re.search(r"panicked at ([^\n]+):\n?([^\n]*)", se)
        loc = pm.group(1) if pm else ""
        if pm and ("/repo/" in loc or "/library/" in loc or "opentelemetry" in loc.split("/")[0]):
            add_viol(d, f"miri-panic:{sc}:{re.sub(':[0-9:]+$', '', loc).split('/')[-1]}", case, se[-2500:])
        else:
            k = f"miri {sc}: ended with {rc}: {se[-300:]}"
            d["inconclusive"][k] = d["inconclusive"].get(k, 0) + 1


def run_tsan(prop, spec, parts, budget):
    d = sanitizer_part("tsan")
    target, env, bt = build("mirih", ["mirih"], "tsan")
    exe = f"{target}/{TRIPLE}/debug/mirih"
    sigs = set()
    t0 = time.time()
    k = 0
    scens = spec["tsan"]
    running = []
    while True:
        while len(running) < 4 and (time.time() - t0 < budget or k < len(scens)):
            sc = scens[k % len(scens)]
            n = SEED * 1000 + k // len(scens)
            k += 1
            e = dict(env)
            e["TSAN_OPTIONS"] = "halt_on_error=1 exitcode=66 second_deadlock_stack=1 detect_deadlocks=1 report_signal_unsafe=0"
            p = subprocess.Popen([exe, sc, str(n), "tsan"], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd="/tmp")
            running.append((p, sc, n, time.time()))
        if not running:
            break
        time.sleep(0.02)
        for item in list(running):
            p, sc, n, ts = item
            if p.poll() is None:
                if time.time() - ts > 200:
                    p.kill()
                    p.wait()
                    running.remove(item)
                    key = f"tsan {sc}: no end within 200 s"
                    d["inconclusive"][key] = d["inconclusive"].get(key, 0) + 1
                continue
            running.remove(item)
            so, se = p.communicate()
            d["evaluations"] += 1
            case = f"tsan {sc} {n}"
            scen_lines(d, sigs, so, case)
            if p.returncode == 0:
                d["observed"]["tsan_completed"] = d["observed"].get("tsan_completed", 0) + 1
            elif "ThreadSanitizer:" in se:
                m = re.search(r"ThreadSanitizer: ([\w -]+)", se)
                fr = frames_of(se)
                if fr:
                    add_viol(d, f"tsan-{m.group(1).strip().replace(' ', '-')}:{fr[0]}", case, se[:4000])
                else:
                    d["inconclusive"][f"tsan {sc}: report outside the library"] = 1
            elif "FAIL " not in so:
                pm = re.search(r"panicked at ([^\n]+):\n?([^\n]*)", se)
                loc = pm.group(1) if pm else ""
                if pm and ("/repo/" in loc or "/library/" in loc):
                    add_viol(d, f"tsan-panic:{sc}:{re.sub(':[0-9:]+$', '', loc).split('/')[-1]}", case, se[-2500:])
                elif p.returncode in (-11, -6, -4, -7):
                    add_viol(d, f"tsan-crash:{sc}", case, se[-2500:])
                else:
                    key = f"tsan {sc}: ended with {p.returncode}: {se[-200:]}"
                    d["inconclusive"][key] = d["inconclusive"].get(key, 0) + 1
    d["distinct"] = len(sigs)
    d["sections"].append({"name": "tsan", "cases": d["evaluations"], "s": round(time.time() - t0, 1)})
    if d["evaluations"] and not d["violations"] and d["observed"].get("tsan_completed", 0) == 0:
        d["starved"] = True
    parts.append(d)


ENGINES = {"native": run_native, "miri": run_miri, "tsan": run_tsan}


def known_lines(prop):
    out = {}
    try:
        with open(f"{V}/known_findings.txt") as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    except OSError:
        pass
    return out


def decide(prop):
    t0 = time.time()
    spec = PROPS[prop]
    os.makedirs(f"{V}/evidence/.parts", exist_ok=True)
    os.makedirs(f"{V}/evidence/replay", exist_ok=True)
    parts = []
    for eng, budget in spec["engines"][TIER]:
        try:
            ENGINES[eng](prop, spec, parts, float(os.environ.get("VERIF_BUDGET", budget)))
        except FileNotFoundError as e:
            log(f"ERROR: {e}")
            sys.exit(2)
    known = known_lines(prop)
    fresh, seen_known = [], {}
    for d in parts:
        for v in d["violations"]:
            if v["key"] in known:
                seen_known[v["key"]] = seen_known.get(v["key"], 0) + v["count"]
            else:
                fresh.append((d["engine"], v))
    observed, inconc, samples, sections = {}, {}, [], []
    for d in parts:
        for k, n in d["observed"].items():
            observed[k] = observed.get(k, 0) + n
        for k, n in d["inconclusive"].items():
            inconc[k] = inconc.get(k, 0) + n
        samples += d["samples"]
        sections += [dict(s, engine=d["engine"]) for s in d["sections"]]
    ev = {
        "property": prop,
        "tier": TIER,
        "seed": SEED,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in parts),
            "distinct_nontrivial": sum(d["distinct"] for d in parts),
            "rule": spec["rule"],
            "samples": samples[:14] or ["(none)"],
            "observed": dict(sorted(observed.items())),
            "sections": sections,
            "engines": [d["engine"] for d in parts],
            "inconclusive": inconc,
            "known_findings_seen": seen_known,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    tmp = f"{V}/evidence/{prop}.json.tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, f"{V}/evidence/{prop}.json")
    log(f"{prop}: {ev['coverage']['evaluations']} executions, {ev['coverage']['distinct_nontrivial']} distinct, {ev['wall_s']} s; observed " +
        ", ".join(f"{k}={n}" for k, n in sorted(observed.items())[:24]))
    for k, n in inconc.items():
        log(f"INCONCLUSIVE ({n}): {k}")
    for k, text in known.items():
        log(f"KNOWN-FINDING: property={prop} {text} [key={k}; seen {seen_known.get(k, 0)} times in this run]")
    if fresh:
        for i, (eng, v) in enumerate(fresh[:6]):
            path = f"{V}/evidence/replay/{prop}-{i}.txt"
            with open(path, "w") as f:
                f.write(f"property: {prop}\nengine: {eng}\nkey: {v['key']}\ncase: {v['case']}\nseed: {SEED}\ntier: {TIER}\n"
                        f"replay: VERIF_SEED={SEED} VERIF_REPLAY='{v['case']}' python3 {V}/run.py {prop}\noccurrences: {v['count']}\n\n{v['detail']}\n")
            log(f"  {v['key']} ({eng}, {v['count']}x, case {v['case']}): {v['detail'][:600]}")
            log(f"VIOLATION property={prop} replay={path}")
        return 1
    if any(d["starved"] for d in parts):
        log("ERROR: the run observed too little to mean anything")
        return 2
    return 0


def setup():
    by = {}
    kinds = set()
    for s in PROPS.values():
        by.setdefault(s["pkg"], set()).add(s["bin"])
        for t in s["engines"].values():
            kinds |= {e for e, _ in t}
    for pkg, bins in by.items():
        t0 = time.time()
        build(pkg, sorted(bins))
        log(f"built {pkg} in {time.time() - t0:.0f} s")
    if "tsan" in kinds:
        t0 = time.time()
        build("mirih", ["mirih"], "tsan")
        log(f"built tsan in {time.time() - t0:.0f} s")
    if "miri" in kinds:
        target, env, _ = build("mirih", [], "miri")
        t0 = time.time()
        r = subprocess.run(["cargo", "+" + NIGHTLY, "miri", "run", "--offline", "-q", "--", "nop", "1", "miri"], cwd=f"{V}/mirih",
                           env=dict(env, MIRIFLAGS="-Zmiri-disable-isolation"), capture_output=True, text=True)
        if r.returncode != 0:
            log(r.stderr[-3000:])
            return 2
        log(f"built miri in {time.time() - t0:.0f} s")
    return 0


if __name__ == "__main__":
    if len(sys.argv) != 2:
        log(__doc__)
        sys.exit(2)
    if sys.argv[1] == "--setup":
        sys.exit(setup())
    if sys.argv[1] not in PROPS:
        log("unknown property")
        sys.exit(2)
    sys.exit(decide(sys.argv[1]))
