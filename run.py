#!/usr/bin/env python3
"""Decide one property: build the IR of /repo + harnesses, explore it symbolically, replay, report.

usage: run.py CXX [--tier quick|thorough] [--secs N] [--xc] [--profile] [--only h1,h2] [--keep]
       run.py --setup            build the engine and warm the build caches
       run.py --replay FILE      run a saved counterexample natively
"""
import collections, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
W = os.path.join(V, "work")
H = os.path.join(V, "h")
ENG = os.path.join(V, "engine", "target", "release", "lofsym")
T0 = time.time()
SKIP_DIRS = {"target", ".git", "node_modules"}


def env(**kw):
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    for k in ("RUST_BACKTRACE", "RUST_LOG", "CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    for k in list(e):
        if k.startswith("CARGO_PROFILE_"):
            e.pop(k)
    e.update(kw)
    return e


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def tree_hash(roots, exts=(".rs", ".toml", ".lock", ".in", ".txt", ".md")):
    h = hashlib.sha256()
    for r in roots:
        fs = []
        for d, ds, names in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in SKIP_DIRS)
            fs += [os.path.join(d, n) for n in names if n.endswith(exts)]
        for f in sorted(fs):
            h.update(os.path.relpath(f, r).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def sh(cmd, log, **kw):
    with open(log, "ab") as f:
        return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, **kw).returncode


def tail(log, n=25):
    try:
        return "\n".join(open(log, errors="replace").read().splitlines()[-n:])
    except OSError:
        return ""


def lock(name):
    os.makedirs(W, exist_ok=True)
    f = open(os.path.join(W, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_engine():
    with lock("engine"):
        key = tree_hash([os.path.join(V, "engine")])
        stamp = ENG + ".key"
        if os.path.exists(ENG) and os.path.exists(stamp) and open(stamp).read() == key:
            return
        log = os.path.join(W, "engine.log")
        fp = os.path.join(V, "engine", "target", "release", ".fingerprint")
        shutil.rmtree(fp, ignore_errors=True)
        if sh(["cargo", "build", "--release", "--offline"], log, cwd=os.path.join(V, "engine"), env=env()):
            die("engine does not build\n" + tail(log))
        if sh([ENG, "selftest", "20000"], log):
            die("engine selftest failed\n" + tail(log))
        open(stamp, "w").write(key)


def stale(target, rkey):
    """cargo trusts modification times; here the contents decide"""
    for d in glob.glob(os.path.join(target, "*", ".fingerprint", "lofh-*")):
        shutil.rmtree(d, ignore_errors=True)
    mark = os.path.join(target, "repo.key")
    if os.path.exists(mark) and open(mark).read() == rkey:
        return
    for p in ("lofty", "lofty_attr", "ogg_pager"):
        for d in glob.glob(os.path.join(target, "*", ".fingerprint", p + "-*")):
            shutil.rmtree(d, ignore_errors=True)
    os.makedirs(target, exist_ok=True)
    open(mark, "w").write(rkey)


def keys():
    return tree_hash([os.path.join(REPO, x) for x in ("lofty", "lofty_attr", "ogg_pager")], exts=(".rs", ".toml", ".lock"))


def hkey(prop):
    h = hashlib.sha256()
    for f in ("Cargo.toml", "Cargo.lock", "src/lib.rs", "src/sym.rs", "src/util.rs", "src/tmpl.rs", f"src/{prop.lower()}.rs"):
        h.update(open(os.path.join(H, f), "rb").read())
    return h.hexdigest()


def build_ir(prop, tier, rkey):
    d = os.path.join(W, "ir")
    os.makedirs(d, exist_ok=True)
    key = hashlib.sha256((rkey + hkey(prop) + prop + tier).encode()).hexdigest()[:16]
    out = os.path.join(d, f"{prop}-{tier}-{key}.ll")
    if os.path.exists(out):
        return out
    with lock("t-ir"):
        target = os.path.join(W, "t-ir")
        stale(target, rkey)
        log = os.path.join(W, f"ir-{prop}.log")
        open(log, "w").close()
        for f in glob.glob(os.path.join(d, f"{prop}-{tier}-*.ll")):
            os.remove(f)
        feats = prop.lower() + (",thorough" if tier == "thorough" else "")
        e = env(CARGO_TARGET_DIR=target, RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp -C target-cpu=x86-64")
        rc = sh(["cargo", "rustc", "--release", "--offline", "--lib", "--crate-type", "cdylib", "--features", feats, "--", f"--emit=llvm-ir={out}.tmp"], log, cwd=H, env=e)
        cands = [x for x in (out + ".tmp",) if os.path.exists(x)]
        if rc or not cands:
            die(f"the tree with the harnesses does not build (rc {rc})\n" + tail(log))
        os.rename(cands[0], out)
    return out


def build_native(prop, tier, rkey, profile="dev"):
    with lock("t-nat"):
        target = os.path.join(W, "t-nat")
        stale(target, rkey)
        log = os.path.join(W, f"nat-{prop}.log")
        open(log, "w").close()
        feats = "native," + prop.lower() + (",thorough" if tier == "thorough" else "")
        rc = sh(["cargo", "build", "--profile", profile, "--offline", "--bin", "replay", "--features", feats], log, cwd=H, env=env(CARGO_TARGET_DIR=target))
        if rc:
            die("the replayer does not build\n" + tail(log))
        out = os.path.join(W, f"replay-{prop}-{profile}")
        src = os.path.join(target, "debug" if profile == "dev" else profile, "replay")
        if os.path.exists(out):
            os.remove(out)
        shutil.copy2(src, out)
        return out


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay(binary, cases, timeout=30):
    """cases: [(harness, hex)] -> list of result dicts, restarting after crashes"""
    res = []
    i = 0
    while i < len(cases):
        rest = cases[i:]
        inp = "".join(f"{h} {x}\n" for h, x in rest)
        p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=limits)
        th = threading.Thread(target=lambda: (p.stdin.write(inp), p.stdin.close()), daemon=True)
        th.start()
        timed = [False]
        last = [time.time()]
        done = [False]

        def watch():
            while not done[0]:
                if time.time() - last[0] > timeout:
                    timed[0] = True
                    p.kill()
                    return
                time.sleep(0.05)
        wt = threading.Thread(target=watch, daemon=True)
        wt.start()
        got = 0
        for line in p.stdout:
            last[0] = time.time()
            try:
                res.append(json.loads(line))
            except ValueError:
                break
            got += 1
        rc = p.wait()
        done[0] = True
        wt.join()
        i += got
        if got < len(rest):
            h, x = rest[got]
            st = "timeout" if timed[0] else "crash"
            res.append({"harness": h, "status": st, "what": f"no end within {timeout} s" if timed[0] else f"process died ({rc})", "reach": [], "notes": []})
            i += 1
    return res


def harness_meta(prop):
    """names, reach ids and documentation of the harnesses of a property, from its source"""
    src = open(os.path.join(H, "src", prop.lower() + ".rs")).read()
    meta = {"bounds": [], "assume": [], "secs": None, "steps": None, "secs_t": None, "steps_t": None, "split": None}
    for l in src.splitlines():
        m = re.match(r"//! (bound|assume|secs|steps|secs_t|steps_t|split): (.*)", l)
        if m:
            k, v = m.groups()
            if k in ("secs", "steps", "secs_t", "steps_t", "split"):
                meta[k] = float(v)
            else:
                meta["bounds" if k == "bound" else "assume"].append(v)
    names = re.findall(r"^\s*fn (h_\w+)\s*\(\)", src, re.M)
    names = [n for n in names if not (n.startswith("h_t_"))] + [n for n in names if n.startswith("h_t_")]
    reach = sorted({int(x) for x in re.findall(r"\breach\((\d+)\)", src)})
    opt = {int(x) for x in re.findall(r"\breach\((\d+)\)\s*;?\s*//\s*optional", src)}
    return names, [r for r in reach if r not in opt], meta


def load_known(prop):
    f = os.path.join(V, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["known"] if k["property"] == prop]


def title(prop):
    for l in open(os.path.join(V, "properties.jsonl")):
        j = json.loads(l)
        if j["id"] == prop:
            return j.get("title", prop)
    return prop


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        os.makedirs(W, exist_ok=True)
        build_engine()
        rkey = keys()
        # warm the dependency caches
        try:
            t = threading.Thread(target=lambda: build_native("C28", "quick", rkey))
            t.start()
            build_ir("C28", "quick", rkey)
            t.join()
        except SystemExit:
            print("note: the tree did not build during setup")
        print("setup done in %.0f s" % (time.time() - T0))
        return 0
    if a and a[0] == "--replay":
        j = json.load(open(a[1]))
        rkey = keys()
        b = build_native(j["property"], j["tier"], rkey)
        r = replay(b, [(j["harness"], j["bytes"])])[0]
        print(json.dumps(r, indent=1))
        return 0 if r["status"] in ("ok", "assume") else 1

    prop = a[0]
    opt = lambda k, d=None: a[a.index(k) + 1] if k in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(W, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    names, want, meta = harness_meta(prop)
    if tier == "quick":
        names = [n for n in names if not n.startswith("h_t_")]
    if opt("--only"):
        names = opt("--only").split(",")
        want = []
    secs = float(opt("--secs", meta["secs_t"] or 1200 if tier == "thorough" else meta["secs"] or 45))
    steps = int(meta["steps_t"] or 5e7 if tier == "thorough" else meta["steps"] or 5e6)
    build_engine()
    rkey = keys()
    nat = {}

    def bn():
        try:
            nat["dev"] = build_native(prop, tier, rkey)
        except SystemExit:
            nat["err"] = True
    th = threading.Thread(target=bn)
    th.start()
    ll = build_ir(prop, tier, rkey)
    out = os.path.join(W, "out-" + prop)
    shutil.rmtree(out, ignore_errors=True)
    cmd = [ENG, "--ll", ll, "--out", out, "--harness", ",".join(names), "--jobs", opt("--jobs", "8"), "--secs", str(secs), "--steps", str(steps), "--seed", str(seed)]
    if meta["split"]:
        cmd.append("--split")
    if "--xc" in a:
        cmd.append("--xc")
    if "--profile" in a:
        cmd.append("--profile")
    if opt("--dump"):
        cmd += ["--dump", opt("--dump")]
    t_eng = time.time()
    elog = os.path.join(W, f"engine-{prop}.log")
    with open(elog, "w") as f:
        rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, preexec_fn=os.setsid).returncode
    t_eng = time.time() - t_eng
    if rc:
        die(f"engine failed ({rc})\n" + tail(elog))
    th.join()
    if "dev" not in nat:
        die("no replayer")

    # ---- aggregate
    tot = collections.Counter()
    per = collections.defaultdict(collections.Counter)
    inc = collections.Counter()
    reach = collections.Counter()
    funcs = collections.Counter()
    viols, samples, forks = {}, [], collections.Counter()
    for f in sorted(glob.glob(out + "/*.json")):
        j = json.load(open(f))
        h = j["harness"]
        for k in ("paths", "assumed_away", "steps", "forks", "checks", "decides", "unexplored", "cpu_us", "q", "q_hits", "q_sat", "q_unsat", "q_unknown", "q_us", "eval_sat", "dom", "utf8_calls"):
            tot[k] += j[k]
            per[h][k] += j[k]
        for k in ("max_steps", "q_slowest_us", "rss_mb"):
            tot[k] = max(tot[k], j[k])
            per[h][k] = max(per[h][k], j[k])
        for k, v in j["incomplete"].items():
            inc[h + ": " + k] += v
        for k, v in j["reach"].items():
            reach[int(k)] += v
        for k, v in j["funcs"].items():
            funcs[k] += v
        for k, v in j.get("fork_sites", {}).items():
            forks[h + " " + k] += v
        for v in j["viols"]:
            key = (v["kind"], v["what"].split(" of ")[0], v["loc"], v["stack"][0] if v["stack"] else "")
            viols.setdefault(key, []).append((h, v))
        samples += [(h, s) for s in j["samples"]]
    done = json.load(open(out + "/done.txt"))
    lost = done["started"] - done["finished"]
    if lost:
        inc["worker processes lost"] += lost
    if done["skipped"]:
        inc["harnesses never started"] += done["skipped"]
    missing_h = [n for n in names if n not in per]
    exhaustive = not tot["unexplored"] and not inc and not missing_h

    # ---- validate the translation: completed paths must behave the same natively
    by = collections.defaultdict(list)
    for h, s in samples:
        by[h].append(s)
    pick = []
    cap = 400 if tier == "thorough" else 60
    for h in by:
        seen = collections.Counter()
        l = []
        for s in by[h]:
            k = tuple(s["reach"])
            seen[k] += 1
            if seen[k] <= 3:
                l.append((h, s))
        pick += l[: max(4, cap // max(1, len(by)))]
    nres = replay(nat["dev"], [(h, s["model"]) for h, s in pick])
    validated, mismatch = 0, []
    for (h, s), r in zip(pick, nres):
        if r["status"] == "ok" and r["reach"] == s["reach"] and [tuple(x) for x in r["notes"]] == [tuple(x) for x in s["notes"]]:
            validated += 1
        else:
            mismatch.append((h, s, r))

    # ---- replay counterexamples
    known = load_known(prop)
    rdir = os.path.join(W, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "-*.json")):
        os.remove(f)
    found, unrep, knownhit = [], [], []
    n = 0
    order = sorted(viols.items(), key=lambda kv: kv[0])
    # one counterexample per distinct failure first, more instances while time lasts
    for key, lst in order[:60]:
        hit = None
        for h, v in lst[:3]:
            r = replay(nat["dev"], [(h, v["model"])], timeout=10 if v["kind"] == "hang" else 20)[0]
            if r["status"] not in ("ok", "assume"):
                hit = (h, v, r)
                break
        if hit is None:
            if key[0] == "hang":
                inc[lst[0][0] + ": path over the step limit"] += len(lst)
                exhaustive = False
            else:
                unrep.append((key, lst[0]))
            continue
        h, v, r = hit
        k = next((k for k in known if re.search(k["match"], " ".join([h, v["kind"], v["what"], r["what"]] + v["stack"]))), None)
        if k:
            knownhit.append(k["id"])
            continue
        n += 1
        path = os.path.join(rdir, f"{prop}-{n}.json")
        json.dump({"property": prop, "tier": tier, "harness": h, "bytes": v["model"], "kind": v["kind"], "engine": v["what"], "location": v["loc"], "stack": v["stack"], "native_status": r["status"], "native": r["what"], "rerun": f"python3 {V}/run.py --replay {path}"}, open(path, "w"), indent=1)
        found.append((path, h, v, r))

    # samples that fail natively although the executor saw no failure: a failure of the real code all the same
    # (debug assertions, for instance), reported only when the native run fails by itself
    for h, s, r in list(mismatch):
        if r["status"] in ("panic", "crash", "check", "alloc", "timeout"):
            k = next((k for k in known if re.search(k["match"], " ".join([h, r["status"], r["what"]]))), None)
            mismatch.remove((h, s, r))
            if k:
                knownhit.append(k["id"])
                continue
            n += 1
            path = os.path.join(rdir, f"{prop}-{n}.json")
            json.dump({"property": prop, "tier": tier, "harness": h, "bytes": s["model"], "kind": r["status"], "engine": "path completes in the executor", "native_status": r["status"], "native": r["what"], "rerun": f"python3 {V}/run.py --replay {path}"}, open(path, "w"), indent=1)
            found.append((path, h, {"kind": r["status"], "what": "", "loc": "", "stack": []}, r))

    unreached = [r for r in want if reach[r] == 0]
    lf = sorted(f for f in funcs if ("lofty" in f or "ogg_pager" in f) and "lofh" not in f)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["decides"],
            "traces_validated_against_impl": validated,
            "samples": [{"harness": h, "bytes": s["model"], "reach": s["reach"], "notes": s["notes"][:8]} for h, s in pick[:6]],
            "exhaustive": exhaustive,
            "rule": "states: completed symbolic paths, each standing for every input that satisfies its path condition; transitions: branch, switch, index and assertion conditions decided for a path (by the solver, a cached solver answer, or an exact per-byte domain)",
            "bounds": meta["bounds"], "stubs_and_assumptions": meta["assume"],
            "paths_cut_by_assumptions": tot["assumed_away"], "unexplored_states": tot["unexplored"], "incomplete": dict(inc),
            "assertions_evaluated": tot["checks"], "ir_instructions": tot["steps"], "longest_path_instructions": tot["max_steps"],
            "solver_queries": tot["q"], "solver_sat": tot["q_sat"], "solver_unsat": tot["q_unsat"], "solver_unknown": tot["q_unknown"], "solver_s": round(tot["q_us"] / 1e6, 3), "slowest_query_s": round(tot["q_slowest_us"] / 1e6, 3),
            "answers_from_cache": tot["q_hits"], "sat_by_evaluated_witness": tot["eval_sat"], "single_byte_domain_answers": tot["dom"],
            "utf8_summary_calls": tot["utf8_calls"],
            "harnesses": {h: {"paths": c["paths"], "decisions": c["decides"], "unexplored": c["unexplored"], "solver_queries": c["q"], "cpu_s": round(c["cpu_us"] / 1e6, 2)} for h, c in sorted(per.items())},
            "reach": {str(k): v for k, v in sorted(reach.items())},
            "functions_encoded": len(funcs), "lofty_functions_encoded": lf[:400],
            "engine_s": round(t_eng, 2),
        },
        "assumptions": [
            "rustc's optimised LLVM IR (opt-level 2, overflow checks on, panic=abort) of /repo's current sources with the harness crate is what is executed; rustc, LLVM, Z3 and the executor lofsym are trusted, the executor being cross-checked by native replay of sampled paths",
            "allocation never fails; hash seeds are constant; log output is disabled",
        ] + meta["assume"],
        "wall_s": round(time.time() - T0, 2), "violations": len(found),
    }
    evf = os.path.join(V, "evidence", prop + ".json")
    json.dump(ev, open(evf + ".tmp", "w"), indent=1)
    os.rename(evf + ".tmp", evf)

    print(f"{prop} {title(prop)}: {tot['paths']} paths, {tot['decides']} decisions, {tot['checks']} assertions, {tot['q']} solver queries ({tot['q_us'] / 1e6:.1f} s), {'exhaustive within bounds' if exhaustive else 'NOT exhaustive'}; {validated} paths validated natively; engine {t_eng:.1f} s, total {time.time() - T0:.1f} s")
    for h in sorted(per):
        c = per[h]
        print(f"  {h}: paths {c['paths']} assumed-away {c['assumed_away']} decisions {c['decides']} checks {c['checks']} queries {c['q']} unexplored {c['unexplored']} cpu {c['cpu_us'] / 1e6:.1f} s max-steps {c['max_steps']} rss {c['rss_mb']}")
    for k, c in inc.items():
        print(f"  incomplete: {k} x{c}")
    if "--profile" in a:
        for k, c in forks.most_common(40):
            print(f"  fork {c:8} {k}")
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}" + ("" if k["id"] in knownhit else " (not met within this run's bounds)"))
    for path, h, v, r in found:
        print(f"  failure in {h}: {v['kind']} {v['what']} {v['loc']} | native: {r['status']} {r['what']}")
        for s in v["stack"][:8]:
            print("      " + s)
        print(f"VIOLATION property={prop} replay={path}")
    if found:
        return 1
    for key, (h, v) in unrep:
        print(f"  NOT REPRODUCED {h}: {key} {v['stack'][:6]} {v['model']}")
    for h, s, r in mismatch[:5]:
        print(f"  TRANSLATION MISMATCH {h}: engine reach {s['reach']} notes {s['notes']} native {r} {s['model']}")
    if unrep or mismatch:
        print("ERROR: the executor and the real code disagree")
        return 2
    if missing_h and (not per or len(missing_h) > done["skipped"]):
        print("ERROR: harnesses without a result:", missing_h)
        return 2
    if missing_h:
        print("  no time was left for:", missing_h)
    if unreached:
        print("  unreached goals:", unreached)
        if exhaustive:
            print("ERROR: vacuous: goals never reached")
            return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
