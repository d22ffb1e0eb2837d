#!/usr/bin/env python3
"""Driver of the solver-based checks.

  vf.py setup              build the engine, the IR and the native replayers
  vf.py check ID           decide property ID (tier from VERIF_TIER, default quick)
  vf.py replay FILE        run a recorded counterexample on the real code
  vf.py manifest           rewrite MANIFEST.json from props.py
  vf.py entry NAME...      run single harness entries (development)
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
ENGINE = os.path.join(ROOT, "engine")
IRSYM = os.path.join(BUILD, "engine", "release", "irsym")
IR_TOOLCHAIN = "nightly"
NATIVE_TOOLCHAIN = "nightly-2026-05-18"
TARGET = "x86_64-unknown-linux-gnu"
IR_FLAGS = ("--emit=llvm-ir -Zshare-generics=no -Cforce-frame-pointers=yes "
            "-Cno-vectorize-loops -Cno-vectorize-slp -Awarnings")
sys.path.insert(0, ROOT)
import props  # noqa: E402

JOBS = os.cpu_count() or 4


class CheckError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def env_for(toolchain, target_dir, flags):
    e = {k: v for k, v in os.environ.items()
         if k not in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET",
                      "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_BUILD_DIR", "MIRIFLAGS")
         and not k.startswith("CARGO_PROFILE")}
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=toolchain, CARGO_TARGET_DIR=target_dir,
             RUSTFLAGS=flags)
    return e


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def digest(paths):
    """Content hash of files and directory trees."""
    h = hashlib.sha256()
    for p in paths:
        fs = []
        if os.path.isdir(p):
            for d, ds, ns in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                fs += [os.path.join(d, n) for n in sorted(ns)]
        elif os.path.exists(p):
            fs = [p]
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def run(cmd, cwd, env, what, timeout=1700):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       timeout=timeout)
    if p.returncode != 0:
        sys.stderr.write(p.stderr[-6000:])
        raise CheckError(f"{what} failed")
    return p.stdout


def build_engine():
    with Lock("engine"):
        run(["cargo", "build", "--release", "-q"], ENGINE,
            env_for("stable", os.path.join(BUILD, "engine"), "-Awarnings"), "building the engine")


def artifacts(stdout):
    res = []
    for l in stdout.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact":
            res.append(m)
    return res


def build(crate):
    """Compile the harness crate and /repo's crates to IR and natively.  Returns (ll files, replay binary)."""
    c = props.CRATES[crate]
    if c.get("prepare"):
        c["prepare"](REPO, BUILD)
    cdir = c["dir"] if os.path.isabs(c["dir"]) else os.path.join(ROOT, c["dir"])
    feats = c.get("features", [])
    with Lock("build"):
        srcs = [s if os.path.isabs(s) else os.path.join(REPO, s) for s in c["sources"]]
        srcs += [os.path.join(BUILD, "gen", g) for g in c.get("gen", [])]
        dg = digest(srcs + [cdir, os.path.join(ROOT, "harness", "native.rs")])
        stf = os.path.join(BUILD, "state-" + crate + ".json")
        st = {}
        if os.path.exists(stf):
            with open(stf) as f:
                st = json.load(f)
        irdir, natdir = os.path.join(BUILD, "ir"), os.path.join(BUILD, "native")
        if st.get("digest") != dg:
            # never trust file times: drop everything compiled from /repo or the harness
            for d in st.get("own", []):
                if d.startswith(BUILD + "/") and os.path.isdir(d):
                    shutil.rmtree(d, ignore_errors=True)
            if os.path.exists(stf):
                os.remove(stf)
        own = []

        def note(ms):
            for m in ms:
                if any(x in m["package_id"] for x in ("file://" + REPO, "file://" + ROOT)):
                    for f in m["filenames"]:
                        d = os.path.dirname(f)
                        if os.path.basename(d) == "out":
                            own.append(os.path.dirname(d))
        out = run(["cargo", "build", "--lib", "--release", "-Zbuild-std=core,alloc,std,panic_unwind",
                   "--features", ",".join(feats), "--target", TARGET, "--message-format=json"], cdir,
                  env_for(IR_TOOLCHAIN, irdir, IR_FLAGS), "compiling to IR")
        ms = artifacts(out)
        note(ms)
        lls = []
        for m in ms:
            for f in m["filenames"]:
                if f.endswith(".rlib") and "/" + TARGET + "/" in f:
                    b = os.path.basename(f)[3:-5]
                    if b.split("-")[0] in ("proc_macro", "gimli", "object", "addr2line", "test"):
                        continue
                    ll = os.path.join(os.path.dirname(f), b + ".ll")
                    if os.path.exists(ll):
                        lls.append(ll)
        out = run(["cargo", "build", "--bin", "replay", "--features", ",".join(["native"] + feats),
                   "--message-format=json"], cdir,
                  env_for(NATIVE_TOOLCHAIN, natdir, "-Awarnings"), "compiling the native replayer")
        ms = artifacts(out)
        note(ms)
        exe = None
        for m in ms:
            if m.get("executable"):
                exe = m["executable"]
        if not exe:
            raise CheckError("no replay binary")
        keep = os.path.join(BUILD, "replay-" + crate)
        shutil.copy2(exe, keep + ".tmp")
        os.replace(keep + ".tmp", keep)
        with open(stf, "w") as f:
            json.dump({"digest": dg, "own": sorted(set(own))}, f)
        return lls, keep, dg


def native(exe, entry, inputs, mode="hi"):
    p = subprocess.run([exe, entry, inputs, mode], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       text=True, timeout=60)
    trace, end = "", "signal %d" % p.returncode
    for l in p.stdout.splitlines():
        if l.startswith("TRACE "):
            trace = l[6:].strip()
        elif l.startswith("END "):
            end = l[4:]
    return trace, end


GOOD = ("ok", "assumed", "expected panic", "bad pick", "no such entry")


def miri(crate, entry, inputs):
    c = props.CRATES[crate]
    cdir = c["dir"] if os.path.isabs(c["dir"]) else os.path.join(ROOT, c["dir"])
    e = env_for(IR_TOOLCHAIN, os.path.join(BUILD, "miri"), "-Awarnings")
    e["MIRIFLAGS"] = "-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-disable-isolation"
    with Lock("miri"):
        try:
            p = subprocess.run(["cargo", "miri", "run", "-q", "--bin", "replay", "--features",
                                ",".join(["native"] + c.get("features", [])), "--", entry, inputs], cwd=cdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return "timeout"
    for l in p.stderr.splitlines():
        if "Undefined Behavior" in l or "error: abnormal termination" in l:
            return "MIRI " + l.strip()
    for l in p.stdout.splitlines():
        if l.startswith("END "):
            return l[4:]
    return "miri: " + (p.stderr.strip().splitlines() or ["?"])[-1]


def confirm(crate, exe, entry, inputs, kind):
    """Replay a counterexample on the natively compiled code."""
    ends = []
    for mode in ("hi", "lo"):
        try:
            _, end = native(exe, entry, inputs, mode)
        except subprocess.TimeoutExpired:
            end = "HANG"
        ends.append(end)
        if end not in GOOD:
            return end, "native run, fences " + mode
    end = miri(crate, entry, inputs)
    ends.append(end)
    if end not in GOOD and not end.startswith("miri:") and end != "timeout":
        return end, "Miri"
    return None, ends


def parse(path):
    r = {"stat": {}, "cover": {}, "viol": [], "inc": [], "sample": [], "fn": [], "src": [], "status": "incomplete"}
    if not os.path.exists(path):
        return r
    with open(path) as f:
        for l in f:
            w = l.rstrip("\n").split("\t")
            if w[0] == "stat":
                r["stat"][w[1]] = float(w[2])
            elif w[0] == "cover":
                r["cover"][int(w[1])] = int(w[2])
            elif w[0] in ("viol", "sample", "src"):
                r[w[0]].append(w[1:])
            elif w[0] in ("inc", "fn"):
                r[w[0]].append(w[1])
            elif w[0] == "status":
                r["status"] = w[1]
    return r


def run_engine(lls, entries, outdir, secs, steps=3_000_000):
    os.makedirs(outdir, exist_ok=True)
    for e in entries:
        p = os.path.join(outdir, "r." + e)
        if os.path.exists(p):
            os.remove(p)
    pr = subprocess.run([IRSYM, "--ll", ",".join(lls), "--entry", ",".join(entries), "--jobs", str(JOBS),
                         "--time", str(secs), "--max-steps", str(steps),
                         "--out", os.path.join(outdir, "r"), "--keep", "/repo/,/build/gen/"],
                        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    sys.stderr.write(pr.stderr[-4000:])
    for l in pr.stdout.splitlines():
        say("  " + l)
    return {e: parse(os.path.join(outdir, "r." + e)) for e in entries}


def known(pid):
    res = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                l = l.strip()
                if l.startswith("open: ") and f"property={pid} " in l:
                    # open: property=ID entry=NAME assert=ID <what fails>
                    w = l.split()
                    kv = dict(x.split("=", 1) for x in w[1:] if "=" in x)
                    res.append((kv.get("entry"), kv.get("assert"),
                                " ".join(x for x in w[1:] if "=" not in x)))
    return res


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = props.PROPS[pid]
    build_engine()
    out = os.path.join(BUILD, "out", pid)
    os.makedirs(out, exist_ok=True)
    parts = P["parts"]
    results, meta = {}, {}
    budget = 780 if tier == "quick" else 10500
    tb, skipped = 0.0, []
    for part in parts:
        crate = part["crate"]
        tb0 = time.time()
        try:
            lls, exe, dg = build(crate)
        except CheckError as x:
            # a harness over private items may stop compiling when those are renamed
            if not part.get("optional"):
                raise
            skipped.append(f"{crate}: {x}; its entries were not run")
            continue
        tb += time.time() - tb0
        ents = list(part["quick"])
        if tier == "thorough":
            ents += [e for e in part.get("thorough", []) if e not in ents]
        left = max(60, budget - (time.time() - t0))
        rs = run_engine(lls, ents, os.path.join(out, crate), int(left), part.get("steps", 3_000_000))
        for e in ents:
            results[crate + ":" + e] = rs[e]
            meta[crate + ":" + e] = (crate, exe, part)
    problems, viols, knowns = [], [], []
    validated, samples = 0, []
    findings = known(pid)
    for ce, r in results.items():
        crate, exe, part = meta[ce]
        e = ce.split(":", 1)[1]
        for v in r["viol"]:
            kind, msg, at, inputs = v[0], v[1], v[2], v[3]
            end, how = confirm(crate, exe, e, inputs, kind)
            rec = {"property": pid, "crate": crate, "entry": e, "kind": kind, "message": msg, "at": at,
                   "inputs": inputs, "trace": v[4] if len(v) > 4 else "", "native": end, "how": how}
            if end is None:
                problems.append(f"{e}: {kind} {msg} at {at} not reproduced natively ({how}); inputs {inputs}")
                continue
            kf = [k for k in findings if k[0] == e and end == "ASSERT " + str(k[1])]
            if kf:
                knowns.append(kf[0][2])
                continue
            viols.append(rec)
        if r["status"] == "incomplete" and not r["viol"]:
            problems.append(f"{e}: incomplete: {'; '.join(r['inc'][:3]) or 'engine stopped'}")
        elif r["inc"] and not r["viol"]:
            problems.append(f"{e}: {'; '.join(r['inc'][:3])}")
        if not r["viol"]:
            need = part.get("covers", {}).get(e, [1])
            miss = [c for c in need if not r["cover"].get(c)]
            if miss:
                problems.append(f"{e}: points never reached: {miss}")
        ss = r["sample"]
        # seed only chooses which solved paths are replayed natively
        off = seed % max(1, len(ss))
        for s in (ss[off:] + ss[:off])[:24]:
            inputs, tr = s[0], (s[1].strip() if len(s) > 1 else "")
            gt, end = native(exe, e, inputs)
            if end not in ("ok", "expected panic", "assumed") or gt != tr:
                if not r["viol"]:
                    problems.append(f"{e}: sample path differs natively: inputs {inputs}: engine [{tr}] native [{gt}] {end}")
                continue
            validated += 1
            if len(samples) < 12 and (not samples or samples[-1]["entry"] != e or len(samples) < 6):
                samples.append({"entry": e, "inputs_hex": inputs, "trace": tr, "native_end": end})
    replays = []
    if viols:
        rd = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(viols[:5]):
            p = os.path.join(rd, f"{pid}-{i}.json")
            v["command"] = f"python3 {ROOT}/vf.py replay {p}"
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            replays.append(p)
    tot = lambda k: sum(r["stat"].get(k, 0) for r in results.values())
    fns = sorted({f for r in results.values() for f in r["fn"] if f})
    repo_lines = {}
    for r in results.values():
        for s in r["src"]:
            d = repo_lines.setdefault((os.path.normpath(s[0]), s[1]), set())
            d.update(s[2].split(","))
    enc = [{"file": k[0], "function": k[1], "lines": len(v)} for k, v in sorted(repo_lines.items())]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot("paths")),
            "transitions": int(tot("steps")),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "meaning": "states = path classes (sets of inputs sharing one control path) explored to the end; "
                       "transitions = IR instructions executed symbolically; traces_validated = solved paths whose "
                       "observation trace the natively compiled code reproduced",
            "exhaustive": not problems,
            "functions_encoded": enc,
            "functions_encoded_count": len(enc),
            "ir_functions": len(fns),
            "solver": "Z3 4.8.12 (bit-vectors, IEEE floats)",
            "queries": int(tot("queries")), "queries_unsat": int(tot("queries_unsat")),
            "queries_sat": int(tot("queries_sat")), "queries_unknown": int(tot("queries_unknown")),
            "answers_reused_from_cache": int(tot("query_cache_hits")),
            "solver_s": round(tot("solver_s"), 3),
            "assertions_evaluated": int(tot("asserts")),
            "assertions_needing_solver": int(tot("asserts_solver")),
            "forks": int(tot("forks")),
            "bounds": P["bounds"], "outside_bounds": P["outside"],
            "source_digest": {c: build_digest(c) for c in sorted({m[0] for m in meta.values()})},
            "entries": {e: {"status": r["status"], "paths": int(r["stat"].get("paths", 0)),
                            "queries": int(r["stat"].get("queries", 0)),
                            "solver_s": round(r["stat"].get("solver_s", 0), 3),
                            "covers": {str(k): v for k, v in sorted(r["cover"].items())}}
                        for e, r in results.items()},
            "build_s": round(tb, 1), "parts_not_run": skipped,
        },
        "assumptions": P.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    if problems:
        ev["coverage"]["problems"] = problems[:20]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(set(knowns)):
        say(f"KNOWN-FINDING: property={pid} {k}")
    if viols:
        for v, p in zip(viols[:5], replays):
            say(f"VIOLATION property={pid} replay={p}")
            say(f"  {v['entry']}: {v['kind']} {v['message']} at {v['at']}; real code: {v['native']} ({v['how']})")
        return 1
    if problems:
        for p in problems[:20]:
            say("ERROR " + p)
        return 2
    say(f"OK property={pid} tier={tier} paths={int(tot('paths'))} queries={int(tot('queries'))} "
        f"solver_s={tot('solver_s'):.1f} validated={validated} wall_s={time.time() - t0:.1f}")
    return 0


def build_digest(crate):
    with open(os.path.join(BUILD, "state-" + crate + ".json")) as f:
        return json.load(f)["digest"][:16]


def replay(path):
    with open(path) as f:
        v = json.load(f)
    _, exe, _ = build(v["crate"])
    end, how = confirm(v["crate"], exe, v["entry"], v["inputs"], v["kind"])
    say(f"{v['entry']} inputs={v['inputs']}: {end or how}")
    return 1 if end else 0


def manifest():
    with open(os.path.join(ROOT, "properties.jsonl")) as f:
        ids = [json.loads(l)["id"] for l in f]
    m = {"version": 1, "setup_cmd": "python3 vf.py setup", "checks": [], "not_applicable": []}
    if getattr(props, "HOOKS", None):
        m["hooks"] = props.HOOKS
    for i in ids:
        if i in props.PROPS:
            P = props.PROPS[i]
            m["checks"].append({
                "property": i, "quick_cmd": f"python3 vf.py check {i}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 vf.py check {i}",
                "evidence_file": f"evidence/{i}.json",
                "technique": "symbolic execution of the compiled LLVM IR with an SMT solver (Z3), bounded; "
                             "counterexamples replayed natively",
                "level": "model_checking",
                "level_note": "Bounded: " + P["bounds"] + " Not covered: " + P["outside"] +
                              " Trusts: " + props.TRUST})
        else:
            m["not_applicable"].append({"property": i, "reason": props.NOT_APPLICABLE[i]})
    m["notes"] = props.NOTES
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


def main():
    a = sys.argv[1:]
    if not a:
        say(__doc__)
        return 2
    try:
        if a[0] == "setup":
            build_engine()
            for c in props.CRATES:
                t = time.time()
                try:
                    build(c)
                    say(f"built {c} in {time.time() - t:.1f}s")
                except CheckError as x:
                    say(f"{c}: {x} (the checks using it will report it)")
            return 0
        if a[0] == "check":
            return check(a[1])
        if a[0] == "replay":
            return replay(a[1])
        if a[0] == "manifest":
            manifest()
            return 0
        if a[0] == "entry":
            build_engine()
            crate = a[1]
            lls, exe, _ = build(crate)
            rs = run_engine(lls, a[2:], os.path.join(BUILD, "out", "dev"), int(os.environ.get("SECS", "120")))
            for e, r in rs.items():
                for x in r["inc"][:5]:
                    say(f"    inc {x}")
                for v in r["viol"][:5]:
                    say(f"    viol {v[0]} {v[1]} at {v[2]} in {v[3]}: native {confirm(crate, exe, e, v[3], v[0])}")
                bad = 0
                for s in r["sample"][:24]:
                    gt, end = native(exe, e, s[0])
                    if gt != (s[1].strip() if len(s) > 1 else "") and not r["viol"]:
                        say(f"    SAMPLE MISMATCH {s} vs {gt} {end}")
                say(f"    covers {r['cover']} samples {len(r['sample'])}")
            return 0
    except CheckError as e:
        say(f"ERROR {e}")
        return 2
    return 2


if __name__ == "__main__":
    sys.exit(main())
