#!/usr/bin/env python3
"""Decide one property: python3 check.py <property id> [quick|thorough]

The deciding step is Kani (CBMC) accepting every obligation of the property's contract
harnesses against the code in /repo's working tree.  See DESIGN.md.
"""
import json, os, re, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
BUDGET = 840 if TIER == "quick" else 7200
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CRATE = os.path.join(VERIF, "kani", PROP.lower())
WORK = os.path.join(VERIF, "work", PROP.lower())
REPLAY = os.path.join(VERIF, "replays", PROP)
HOOK = "--cfg mockall_verif"
# A failed check of one of these classes says nothing about the property.
UNDECIDED = {"unwind", "unsupported_construct", "sanity_check", "recursion", "reachability_check"}

env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="0", CARGO_INCREMENTAL="0")
for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER",
          "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
    env.pop(k, None)


def left():
    return BUDGET - (time.time() - T0)


def say(*a):
    print("[%s %5.0fs]" % (PROP, time.time() - T0), *a, flush=True)


def sh(cmd, timeout, cwd=CRATE, log=None, extra=None):
    """Run, return (rc, output); rc None on timeout."""
    e = dict(env, **(extra or {}))
    import signal
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(5, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = None
    if log:
        with open(log, "w") as f:
            f.write(out)
    return rc, out


def read(p):
    with open(p) as f:
        return f.read()


META = json.loads(read(os.path.join(CRATE, "property.json")))
TRUSTED = ["Kani 0.68 (Rust to goto translation), CBMC 6.11, its SAT back end; rustc for macro expansion and MIR",
           "stub: alloc::fmt::format returns an empty String (panic messages are not modelled)",
           "stub: Mutex::lock is try_lock; blocking in a sequential proof is reported as a self-deadlock",
           "stub: thread::panicking reads a ghost flag",
           "a Rust panic ends the path (no unwinding is modelled by the verifier; the native replay unwinds)",
           "dependency fragile: /verif/deps/fragile is fragile 2.x with the thread id read from a ghost variable under cfg(kani)"]
ASSUME = ["sequential execution, except where the property is about threads",
          "unsafe code of std and of the dependencies (downcast, fragile) is executed as compiled, its memory-safety obligations are switched off",
          "call counts and bounds below usize::MAX-2 (the documentation treats usize::MAX as infinity)"]


# A property has one harness crate, and possibly a second one, `<id>g`, for generic methods:
# that one is verified against a mechanically redirected copy of the sources (extract.py).  `<id>n`: a second build configuration (C16).
CRATES = [c for c in (PROP.lower(), PROP.lower() + "g", PROP.lower() + "n") if os.path.exists(os.path.join(VERIF, "kani", c, "Cargo.toml"))]


def harnesses():
    """[(name, unwind, crate)] declared in the harness sources."""
    out = []
    for c in CRATES:
        src = os.path.join(VERIF, "kani", c, "src")
        for fn in sorted(os.listdir(src)):
            if fn.endswith(".rs"):
                for m in re.finditer(r"^\s*((?:t_)?(?:ok|pan|kf|nat)_\w+) \((\d+)\) \{", read(os.path.join(src, fn)), re.M):
                    out.append((m.group(1), int(m.group(2)), c))
    assert len({o[0] for o in out}) == len(out), "duplicate harness names"
    return out


_dir = {}


def kani_dir(crate):
    """Where the crate is verified: in place, or (generic methods) a redirected scratch copy."""
    if not crate.endswith("g"):
        return os.path.join(VERIF, "kani", crate)
    if crate not in _dir:
        import extract
        x = os.path.join(WORK, "redirected")
        n = extract.redirect(os.path.join(x, "repo"))
        say("redirected %d HashMap paths of the generated code" % n)
        shutil.copytree(os.path.join(VERIF, "kani", "common"), os.path.join(x, "kani", "common"))
        shutil.copytree(os.path.join(VERIF, "kani", crate), os.path.join(x, "kani", crate))
        ct = os.path.join(x, "kani", crate, "Cargo.toml")
        t = read(ct).replace('"/repo/', '"%s/repo/' % x).replace('"../../deps/', '"%s/deps/' % VERIF)
        with open(ct, "w") as f:
            f.write(t)
        _dir[crate] = os.path.join(x, "kani", crate)
    return _dir[crate]


def kind(name):
    n = name[2:] if name.startswith("t_") else name
    return n.split("_")[0]


def kani(crate, names, hook, tag, timeout, unwind=None, hto=None):
    """Run Kani on the named harnesses.  Returns (dict name->result or None, log path)."""
    js = os.path.join(WORK, "kani_%s_%s.json" % (crate, tag))
    log = os.path.join(WORK, "kani_%s_%s.log" % (crate, tag))
    if os.path.exists(js):
        os.remove(js)
    cmd = ["cargo", "kani", "--lib", "-Z", "stubbing", "-Z", "restrict-vtable", "-Z", "unstable-options",
           "-j", str(JOBS), "--output-format=terse", "--export-json", js,
           "--solver", META.get("solver", "minisat"), "--no-assertion-reach-checks",
           "--target-dir", os.path.join(WORK, "kani-target-" + crate), "--exact",
           "--harness-timeout", "%ds" % int(hto or timeout)]
    if not META.get("memory_checks"):
        cmd.append("--no-memory-safety-checks")
    for n in names:
        cmd += ["--harness", n]
    if unwind:
        cmd += ["--unwind", str(unwind)]
    if not META.get("sat_preprocessor"):
        cmd += ["--cbmc-args", "--no-sat-preprocessor"]
    rc, out = sh(cmd, timeout, cwd=kani_dir(crate), log=log, extra={"RUSTFLAGS": HOOK} if hook else {})
    if not os.path.exists(js):
        return None, log
    d = json.loads(read(js))
    res = {}
    solver = {}
    for c in d.get("cbmc", []):
        st = c.get("cbmc_stats", {}) or {}
        solver[c["harness_id"]] = (st.get("runtime_decision_procedure_s") or 0)
    for r in d["verification_results"]["results"]:
        r["solver_s"] = solver.get(r["harness_id"], 0)
        res[r["harness_id"]] = r
    return res, log


def classify(name, r):
    """-> (verdict, obligations, discharged, failed[list of str], note)"""
    if r is None:
        return "undecided", 0, 0, [], "no result from the verifier (time, memory or compile limit)"
    checks = r["checks"]
    real = [c for c in checks if c["category"] != "cover"]
    covers = {c["description"]: c["status"] for c in checks if c["category"] == "cover"}
    bad = [c for c in real if c["status"] not in ("Success", "Unreachable")]
    undet = [c for c in bad if c["status"] != "Failure" or c["category"] in UNDECIDED
             or "not currently supported by Kani" in c["description"]]
    fails = [c for c in bad if c not in undet]
    limit = [c for c in undet if c["status"] == "Failure"]

    def obligation(c):
        """The text of an obligation written in a harness, or None."""
        m = re.match(r'(?:concat!\s*\(\s*"OBL:",\s*")?(?:OBL:)?(.*?)(?:"\s*\))?$', c["description"].strip('"'))
        return m.group(1) if "OBL:" in c["description"] else None

    def show(c):
        d = c["description"].strip('"')
        if obligation(c):
            return obligation(c)
        loc = c.get("location") or {}
        return "no panic or error: `%s` in %s" % (d, c.get("function") or "?")
    if not checks:
        return "undecided", 0, 0, [], "the verifier reported no checks (%s)" % r["status"]
    if kind(name) in ("ok", "kf"):
        n = len(real)
        if fails:
            # With an undecided check around, a reported failure is still a path that fails,
            # unless the path needs the unsupported construct itself.
            return "failed", n, n - len(bad), [show(c) for c in fails], ""
        if bad:
            return "undecided", n, 0, [], "; ".join(sorted({c["description"] for c in limit})) or "undetermined checks"
        if covers.get("END") != "Satisfied":
            return "undecided", n, 0, [], "vacuous: the end of the harness is not reachable"
        return "proved", n, n, [], ""
    # must-panic harness: the code after the call is unreachable, the call itself is reachable
    obl = [c for c in real if obligation(c)]
    obad = [c for c in obl if c in fails]
    n = len(obl)
    if obad:
        return "failed", n, n - len(obad), [show(c) for c in obad], ""
    if limit or any(c in undet for c in obl):
        return "undecided", n, 0, [], "; ".join(sorted({c["description"] for c in limit})) or "undetermined checks"
    other = [c for c in fails if c["category"] != "assertion" or "overflow" in c["description"]]
    if other:
        return "failed", n, 0, ["panics deliberately, not by accident: " + show(other[0])], ""
    pre = [s for d, s in covers.items() if d != "END"]
    if not obl:
        return "undecided", n, 0, [], "the obligation of the harness is not among the verifier's checks"
    if not pre or any(s != "Satisfied" for s in pre) or not fails:
        return "undecided", n, 0, [], "vacuous: the call under contract is not reached"
    return "proved", n, n, [], ""


_native = {}


def native(crate, hook):
    """Build the native (replay) binary; returns path or None."""
    if (crate, hook) in _native:
        return _native[crate, hook][0]
    td = os.path.join(WORK, "native-target" + ("-hook" if hook else "") + crate)
    rc, out = sh(["cargo", "build", "--offline", "--target-dir", td] + META.get("native_args", []), min(300, left()),
                 cwd=os.path.join(VERIF, "kani", crate),
                 log=os.path.join(WORK, "native_build_%s.log" % crate), extra={"RUSTFLAGS": HOOK} if hook else {})
    p = os.path.join(td, "debug", crate)
    _native[crate, hook] = (p if rc == 0 and os.path.exists(p) else None, out)
    return _native[crate, hook][0]


def replay(crate, name, iters=200000, secs=20, values=None):
    """Run one harness natively on concrete values.  -> violation line or None"""
    for hook in (False, True):
        p = native(crate, hook)
        if not p:
            continue
        e = {"VH_VALUES": values} if values is not None else {}
        rc, out = sh([p, str(iters), str(SEED), str(secs), name], secs + 30, cwd=WORK, extra=e)
        for l in out.splitlines():
            if l.startswith("VIOL " + name + " "):
                return l + ("" if not hook else "   (history preset through the verification hook)")
        if rc is not None and rc < 0 and ("START " + name) in out:
            return "VIOL %s :: the process aborts (panic while panicking, or a crash)" % name
    return None


def concrete_values(crate, name, hook):
    """Ask Kani for a counterexample; returns the primitive inputs as hex, in order."""
    cmd = ["cargo", "kani", "--lib", "-Z", "stubbing", "-Z", "restrict-vtable", "-Z", "unstable-options", "-Z", "concrete-playback",
           "--concrete-playback=print", "--solver", META.get("solver", "minisat"), "--no-assertion-reach-checks",
           "--target-dir", os.path.join(WORK, "kani-target-" + crate), "--exact", "--harness", name]
    if not META.get("memory_checks"):
        cmd.append("--no-memory-safety-checks")
    rc, out = sh(cmd, min(240, left() - 60), cwd=kani_dir(crate), extra={"RUSTFLAGS": HOOK} if hook else {})
    res = []
    for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out or "", re.S):
        vals = re.findall(r"vec!\[([\d, ]*)\]", m.group(1))
        res.append(",".join("".join("%02x" % int(b) for b in v.split(",") if b.strip()) for v in vals))
    return res


def native_runs(c, p, pend, part, nstat, violations):
    """Run the harnesses `pend` of crate `c` on concrete values (one process, restarted after a crash)."""
    while pend and left() > 40:
        log = os.path.join(WORK, "native_run_%s_%d.log" % (c, part))
        rc, out = sh([p, "400" if TIER == "quick" else "200000", str(SEED), str(0.25 if TIER == "quick" else 5)] + pend,
                     min(left() - 20, 120 if TIER == "quick" else 1500), cwd=WORK, log=log)
        for l in out.splitlines():
            m = re.match(r"DONE (\w+) ok=(\d+) discarded=(\d+)", l)
            if m:
                nstat[m.group(1)] = int(m.group(2))
            m = re.match(r"VIOL (\w+) .*:: (.*)", l)
            if m:
                violations.append((m.group(1), [m.group(2)], l, log, []))
        started = re.findall(r"^START (\w+)", out, re.M)
        if rc is not None and rc < 0 and started and "VIOL " + started[-1] not in out:
            violations.append((started[-1], ["the call does not abort the process"],
                               "VIOL %s :: the process aborts (panic while panicking, or a crash)" % started[-1], log, []))
            pend = pend[pend.index(started[-1]) + 1:]
            continue
        if rc is None and started and ("DONE " + started[-1]) not in out and left() > 50:
            # the budget of the whole run may have ended, not this harness: run it alone
            one = started[-1]
            rc2, out2 = sh([p, "400", str(SEED), "0.25", one], 45, cwd=WORK)
            if rc2 is not None:
                pend = pend[pend.index(one) + 1:]
                continue
            violations.append((one, ["the call returns or panics, it does not block forever"],
                               "VIOL %s :: the native run hangs" % one, log, []))
        break


def main():
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    shutil.rmtree(REPLAY, ignore_errors=True)
    known = json.loads(read(os.path.join(VERIF, "known-findings.json")))
    known = {(k["property"], k["harness"]): k for k in known["findings"] if k["status"] == "known"}
    hs = harnesses()
    assert set(META.get("thorough_proof", [])) <= {h[0] for h in hs}, "unknown name in thorough_proof"
    only = os.environ.get("VERIF_ONLY")
    if only:
        hs = [h for h in hs if re.search(only, h[0])]
    # not for the verifier: post-panic harnesses, and in the quick tier the expensive ones
    concrete = [h for h in hs if kind(h[0]) == "nat" or 
                (TIER == "quick" and (h[0].startswith("t_") or h[0] in META.get("thorough_proof", [])))]
    nat = [(h[0], h[2]) for h in concrete]
    hs = [h for h in hs if h not in concrete]
    names = [h[0] for h in hs]
    uw = {h[0]: h[1] for h in hs}
    crate = {h[0]: h[2] for h in hs}
    say("%d harnesses, tier %s" % (len(names), TIER))
    notes = []
    violations = []      # (name, [obligations], replay line or None, log, values)
    res, logs, verdicts, hooked = {}, {}, {}, {}
    # The verifier runs on all crates at once; the native binaries are built meanwhile.
    todo = {c: [n for n in names if crate[n] == c] for c in CRATES}
    hook0 = META.get("hook", True)
    share = left() * 0.75
    with ThreadPoolExecutor(8) as ex:
        for c in CRATES:
            if c.endswith("g") and todo[c]:
                kani_dir(c)
        fut = {c: ex.submit(kani, c, todo[c], hook0, "main", share, hto=max(60, int(share * 0.85))) for c in CRATES if todo[c]}
        nb = [ex.submit(native, c, False) for c in CRATES]
        done = {c: f.result() for c, f in fut.items()}
        for f in nb:
            f.result()
    for i, c in enumerate(CRATES):
        mine = todo[c]
        if not mine:
            continue
        share = left() * 0.65
        hook = hook0
        r, log = done[c]
        if r is None and hook and left() > 200:
            say("no result with the hook on; trying without it")
            hook = False
            r, log = kani(c, mine, hook, "nohook", min(share, left() * 0.6), hto=max(60, int(share * 0.5)))
            if r is not None:
                notes.append("hook unavailable: call histories bounded to 2 calls")
        hooked[c], logs[c] = hook, log
        if r is None:
            r = {}
            # Did the harness crate stop compiling as a Rust program?
            if native(c, False) is None:
                err = _native[c, False][1]
                errs = [l for l in err.splitlines() if l.startswith("error")]
                if META.get("public_api_only") and "could not compile `%s`" % c in err:
                    violations.append(("compilation_" + c, ["mock declarations of documented shapes expand to code that compiles: " + errs[0]],
                                       "rustc rejects the expansion: " + " | ".join(errs[:4]), os.path.join(WORK, "native_build_%s.log" % c), []))
                else:
                    say("cannot build the harness crate:\n" + "\n".join(err.splitlines()[-30:]))
                    sys.exit(2)
            else:
                notes.append("the verifier could not process crate " + c)
        res.update(r)
        for n in mine:
            verdicts[n] = classify(n, r.get(n))
            # retry loops that need more unwinding
            if verdicts[n][0] == "undecided" and "unwinding assertion" in verdicts[n][4] and left() > 200:
                r2, _ = kani(c, [n], hook, "retry_" + n, min(left() - 120, 200), unwind=uw[n] * 3 + 8)
                if r2 and n in r2:
                    res[n] = r2[n]
                    verdicts[n] = classify(n, r2[n])
    findings = []
    for n in names:
        v, no, nd, failed, note = verdicts[n]
        if v == "failed" and (PROP, n) in known:
            k = known[(PROP, n)]
            unlisted = [f for f in failed if f not in k["obligations"]]
            if not unlisted:
                findings.append(n)
                print("KNOWN-FINDING: property=%s %s" % (PROP, k["what"]), flush=True)
                continue
            failed = unlisted
        if v == "failed":
            say("FAILED", n, failed[:4])
            line = None
            c = crate[n]
            if left() > 60:
                line = replay(c, n, secs=min(20, left() / 4))
            vals = []
            if line is None and left() > 150 and not violations:
                vals = concrete_values(c, n, hooked[c])
                for x in vals:
                    line = line or replay(c, n, iters=1, secs=5, values=x)
            violations.append((n, failed, line, logs[c], vals))
        elif v == "undecided" and _native.get((crate[n], False), (1,))[0]:
            line = replay(crate[n], n, secs=min(15, max(5, left() / 20))) if left() > 40 else None
            say("UNDECIDED", n, note, "-> native run:", line or "no violation found")
            notes.append("bounded (undecided by the verifier: %s): %s, concrete runs only" % (note[:120], n))
            if line:
                violations.append((n, [line.split(":: ", 1)[-1]], line, logs[crate[n]], []))
    # Bounded: the same contracts on concrete values, with real locks, threads and unwinding.
    # This validates the stubs, and stands in for what happens after a panic (nat_ harnesses).
    nstat = {}
    for c in CRATES:
        todo = [n for n, cc in nat if cc == c] + [n for n in names if crate[n] == c and verdicts[n][0] != "failed"]
        if not todo or left() < 60:
            continue
        p = native(c, False)
        if not p:
            if META.get("public_api_only") and "could not compile `%s`" % c in _native[c, False][1]:
                errs = [l for l in _native[c, False][1].splitlines() if l.startswith("error")]
                violations.append(("compilation_" + c, ["mock declarations of documented shapes expand to code that compiles: " + errs[0]],
                                   "rustc rejects the expansion: " + " | ".join(errs[:4]), os.path.join(WORK, "native_build_%s.log" % c), []))
            else:
                notes.append("native build of %s failed: no concrete runs" % c)
            continue
        pend = [n for n in todo if (PROP, n) not in known]
        k = max(1, min(JOBS, len(pend)))
        with ThreadPoolExecutor(k) as ex:
            for f in [ex.submit(native_runs, c, p, pend[i::k], i, nstat, violations) for i in range(k)]:
                f.result()
    # auxiliary deductive passes (Verus)
    aux = []
    if META.get("verus"):
        sys.path.insert(0, VERIF)
        import verus_pass
        aux = verus_pass.run(PROP, META["verus"], WORK, min(left() - 20, 240), say)
        for a in aux:
            if a["verdict"] == "failed":
                line = None
                if a.get("replay"):
                    for nm in a["replay"]:
                        line = line or replay(crate[nm], nm, secs=min(30, max(5, left() / 4)))
                violations.append(("verus_" + a["name"], a["failed"], line, a["log"], []))
            elif a["verdict"] == "undecided":
                notes.append("verus %s undecided: %s" % (a["name"], a["note"]))

    proved = [n for n in names if verdicts[n][0] == "proved"]
    nob = sum(verdicts[n][1] for n in names) + sum(a["obligations"] for a in aux)
    ndis = sum(verdicts[n][2] for n in names) + sum(a["discharged"] for a in aux)
    bounded = META.get("bounded", {})
    ev = {
        "property": PROP, "tier": TIER, "seed": SEED, "level": META["level"],
        "coverage": {
            "obligations": nob, "discharged": ndis,
            "checker_cmd": "cargo kani --lib -Z stubbing -Z restrict-vtable --no-memory-safety-checks --no-assertion-reach-checks --solver %s (crate kani/%s, path dependency on /repo/mockall)%s"
                           % (META.get("solver", "minisat"), PROP.lower(), "; verus" if aux else ""),
            "trusted_base": TRUSTED + META.get("trusted_base", []),
            "functions_under_contract": META["functions"],
            "harnesses": {n: {"verdict": verdicts[n][0], "obligations": verdicts[n][1],
                              "discharged": verdicts[n][2],
                              "verifier_s": round((res.get(n) or {}).get("duration_ms", 0) / 1000, 1),
                              "solver_s": round((res.get(n) or {}).get("solver_s", 0) or 0, 2),
                              "scope": ("bounded: " + bounded[n]) if n in bounded else
                                       ("bounded: " + bounded["*"]) if "*" in bounded else "complete over the harness's symbolic inputs",
                              } for n in names},
            "verus": [{k: a[k] for k in ("name", "verdict", "obligations", "discharged", "wall_s", "scope")} for a in aux],
            "bounded_native_runs": {"note": "same contracts on concrete inputs (real locks, threads, unwinding); bounded, not counted as proved",
                                    "concrete_only": [n for n, _ in nat], "executions": sum(nstat.values()), "per_harness": nstat},
            "harnesses_proved": len(proved), "harnesses_total": len(names),
            "known_findings": findings,
            "explanation": META.get("explanation", ""),
            "notes": notes, "hook": hooked,
        },
        "assumptions": ASSUME + META.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", PROP + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    say("%d/%d harnesses proved, %d/%d obligations discharged, %d known findings" % (len(proved), len(names), ndis, nob, len(findings)))
    for x in notes:
        say("note:", x)
    for d in os.listdir(WORK):
        if d.startswith(("kani-target", "native-target", "redirected")):
            shutil.rmtree(os.path.join(WORK, d), ignore_errors=True)
    if violations:
        os.makedirs(REPLAY, exist_ok=True)
        # a confirmed one first
        violations.sort(key=lambda v: v[2] is None or "verification hook" in v[2])
        for v in violations:
            path = os.path.join(REPLAY, re.sub(r"\W+", "_", v[0]) + ".txt")
            with open(path, "w") as f:
                f.write("property: %s\nharness:  %s (in %s/src/lib.rs)\n" % (PROP, v[0], CRATE))
                f.write("failed obligations:\n" + "".join("  - %s\n" % o for o in v[1]))
                f.write("native replay on the real code: %s\n" % (v[2] or "none found"))
                if len(v) > 4 and v[4]:
                    f.write("verifier counterexample (primitive inputs, hex, in order of use): %s\n" % v[4])
                f.write("replay: cd %s && cargo run --offline -- 200000 %d 60 %s\n" % (os.path.join(VERIF, "kani", crate.get(v[0], CRATES[0])), SEED, v[0]))
                f.write("\n--- verifier output (tail) ---\n")
                if v[3] and os.path.exists(v[3]):
                    f.write(read(v[3])[-20000:])
        for v in violations:
            path = os.path.join(REPLAY, re.sub(r"\W+", "_", v[0]) + ".txt")
            # a state preset through the hook is not an input
            real = v[2] and "verification hook" not in v[2]
            print("VIOLATION property=%s replay=%s%s" % (PROP, path, "" if real else " no-failing-input-found"), flush=True)
        sys.exit(1)
    sys.exit(0)


main()
