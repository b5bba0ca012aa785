#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current source.

Kani harnesses (harness/src/cNN.rs: contracts of the real functions, discharged by CBMC) and
Verus units (verus/: functions extracted from /repo on every run). A failed obligation is
replayed natively against the real crate; see DESIGN.md for the outcome rules.
"""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "spec"))
sys.path.insert(0, os.path.join(VERIF, "verus"))
import props  # noqa: E402

PROP = sys.argv[1]
TIER = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
LIMIT = 840 if TIER == "quick" else 3400
HARN = os.path.join(VERIF, "harness")
WORK = os.path.join(VERIF, "work", PROP)
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)
MOD = PROP.lower()


def left():
    return LIMIT - (time.time() - T0)


def sh(cmd, timeout, cwd=HARN, out=None):
    """Runs cmd in its own process group, killed as a whole on timeout."""
    f = open(out, "w") if out else subprocess.PIPE
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=f, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, o or ""
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        return None, o or ""


def harnesses(mod, crate="harness"):
    """(name, unwind, bound) of each harness of a module, from its text."""
    path = os.path.join(VERIF, crate, "src", mod + ".rs")
    if not os.path.exists(path):
        return []
    src = open(path).read()
    return [(f"{mod}::{m[3]}", int(m[1]), m[2])
            for m in re.finditer(r'^\s*\[(\d+)(?:, "([^"]*)")?\] fn (\w+)\(\)', src, re.M)]


native_ok = {}


def native(crate="harness"):
    """Builds the native runner; False if it does not compile."""
    if crate not in native_ok:
        rc, o = sh(["cargo", "build", "--offline", "--bin", "replay"], max(60, min(300, left())),
                   cwd=os.path.join(VERIF, crate))
        native_ok[crate] = rc == 0
        if rc != 0:
            print(o[-3000:])
    return native_ok[crate]


def run_native(args, timeout, crate="harness"):
    rc, o = sh([os.path.join(VERIF, crate, "target", "debug", "replay")] + args, timeout)
    if rc is None:
        return 1, "BROKEN the parse does not terminate"
    if rc not in (0, 1, 3):
        return 1, f"BROKEN the process died (status {rc}): {o[-300:]}"
    return rc, o


def last_line(o):
    ls = [l for l in o.strip().splitlines() if l.startswith(("BROKEN", "HELD", "DISCARDED"))]
    return ls[-1] if ls else o[-200:]


def playback(h):
    """Concrete counterexamples Kani gives for a harness: list of lists of byte lists."""
    rc, o = sh(["cargo", "kani", "--lib", "--harness", h, "--exact", "-Z", "stubbing", "-Z", "concrete-playback",
                "--concrete-playback=print"], min(240, max(30, left() - 60)))
    res = []
    for blk in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", o, re.S):
        res.append([[int(x) for x in v.split(",") if x.strip()]
                    for v in re.findall(r"vec!\[([^\]]*)\]", blk)])
    return res, o


def write_vals(path, vals):
    with open(path, "w") as f:
        for v in vals:
            f.write(",".join(map(str, v)) + "\n")


def save_replay(tag, data):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{PROP}-{tag}.json")
    json.dump(data, open(p, "w"), indent=1)
    return p


violations = []


def violation(tag, data, found):
    p = save_replay(re.sub(r"\W+", "_", tag), data)
    line = f"VIOLATION property={PROP} replay={p}"
    if not found:
        line += " no-failing-input-found"
    violations.append(line)
    print(f"  broken: {data.get('obligation')} [{tag}]")


def search(h, secs, crate="harness"):
    """Bounded native search over a harness: (found, message, values, exhaustive)."""
    out = os.path.join(WORK, f"vals_{h.replace(':', '_')}.txt")
    if os.path.exists(out):
        os.remove(out)
    rc, o = run_native(["search", h, str(secs), str(SEED), out], secs + 30, crate)
    if rc == 1:
        vals = open(out).read().splitlines() if os.path.exists(out) else []
        return True, last_line(o), vals, False
    return False, last_line(o), [], "exhaustive=1" in o


def main():
    info = props.BY_ID[PROP]
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    mods = [MOD] + ([MOD + "_deep"] if TIER == "thorough" else [])
    hs = [h for m in mods for h in harnesses(m)]
    bound = {h[0]: h[2] for h in hs}
    undecided, failed, records = [], {}, []
    obligations = discharged = 0
    solver_s = 0.0
    cmd = []

    # 1. Kani
    if hs:
        kj = os.path.join(WORK, "kani.json")
        cmd = ["cargo", "kani", "--lib", "-Z", "unstable-options", "-Z", "stubbing", "--no-assertion-reach-checks"]
        for m in mods:
            cmd += ["--harness", m + "::"]
        cmd += ["-j", "6", "--output-format", "terse", "--export-json", kj,
                "--harness-timeout", f"{info.get('harness_timeout', 400 if TIER == 'quick' else 1500)}s"]
        log = os.path.join(WORK, "kani.log")
        rc, _ = sh(cmd, left() - 120, out=log)
        res = {}
        if os.path.exists(kj):
            try:
                d = json.load(open(kj))
                res = {r["harness_id"]: r for r in d["verification_results"]["results"]}
                for c in d.get("cbmc", []):
                    solver_s += c.get("cbmc_stats", {}).get("runtime_decision_procedure_s") or 0
            except Exception as e:  # truncated by a timeout
                print("kani result not readable:", e)
        if not res:
            txt = open(log).read()
            print(txt[-1500:])
            if re.search(r"^error(\[E\d+\])?:", txt, re.M) and not native():
                print("the harness crate does not compile against /repo")
                return 2
        for name, _, b in hs:
            r = res.get(name)
            if r is None or not r.get("checks"):
                undecided.append((name, "no answer from the verifier (timeout or tool failure)"))
                records.append({"harness": name, "status": "undecided", "bound": b})
                continue
            ok = bad = 0
            why, model = [], []
            for c in r["checks"]:
                st, desc, cat = c["status"].lower(), c["description"], c.get("category", "")
                if cat == "cover":
                    if st not in ("satisfied", "success"):
                        model.append(f"cover not reachable: {desc}")
                    continue
                if st == "unreachable":
                    continue
                if st == "success":
                    ok += 1
                    continue
                bad += 1
                loc = c.get("location") or {}
                where = f"{loc.get('file')}:{loc.get('line')}"
                if st != "failure" or cat in ("unwind", "unsupported_construct", "reachability_check") \
                        or "unwinding" in desc or desc.startswith("model:") \
                        or "not currently supported" in desc:
                    model.append(f"{st}: {desc} ({where})")
                else:
                    why.append({"obligation": desc, "function": c.get("function"), "at": where})
            obligations += ok + bad
            discharged += ok
            rec = {"harness": name, "obligations": ok + bad, "discharged": ok,
                   "seconds": r.get("duration_ms", 0) / 1000, "bound": b,
                   "status": "failed" if why else "undecided" if (model or not ok) else
                   ("proved" if b is None else "bounded")}
            records.append(rec)
            if why:
                failed[name] = why
            elif model or not ok:
                undecided.append((name, "; ".join(model[:4]) or "no obligations generated"))

    # 2. Verus
    verus_fail = []
    verus_rec = []
    for unit in info.get("verus", []):
        import units
        v = units.run(unit, WORK, sh, max(20, min(200, left() - 100)))
        verus_rec.append({k: v[k] for k in v if k != "output"})
        obligations += v["verified"] + v["errors"]
        discharged += v["verified"]
        solver_s += v.get("solver_s", 0)
        if v["status"] == "failed":
            verus_fail.append(v)
        elif v["status"] != "proved":
            undecided.append(("verus:" + unit, v.get("reason", "")))

    # 3. Failed obligations: replay the counterexample on the real code
    replayed, texts = [], {}
    secs = {r["harness"]: r.get("seconds", 0) for r in records}
    # cheapest first: one replayed counterexample is enough
    for n, (name, why) in enumerate(sorted(failed.items(), key=lambda f: secs[f[0]])):
        if n >= 8 or replayed or left() < 90 or not native():
            break
        data = {"property": PROP, "harness": name, "obligation": why[0]["obligation"], "failed_checks": why[:10]}
        # The verifier's counterexample first, then a bounded search of the same harness
        pbs, texts[name] = playback(name) if n < 2 and secs[name] < 90 else ([], "")
        for i, vals in enumerate(pbs):
            f = os.path.join(WORK, f"cex{i}.txt")
            write_vals(f, vals)
            rc, o = run_native(["run", name, f], 30)
            if rc == 1:
                replayed.append(dict(data, values=vals, native=last_line(o)))
                break
        else:
            ok, msg, vals, _ = search(name, 20 if TIER == "quick" else 120)
            if ok:
                replayed.append(dict(data, values=vals, native=msg))
    if failed and not replayed:
        name = next(iter(failed))
        replayed = [{"property": PROP, "harness": name, "obligation": failed[name][0]["obligation"],
                     "failed_checks": failed[name][:10], "verifier_output": texts.get(name, "")[-6000:]}]
    for data in replayed:
        data["all_failed"] = {k: v[0]["obligation"] for k, v in failed.items()}
        data["replay_cmd"] = (f"harness/target/debug/replay run {data['harness']} FILE, FILE holding one line "
                              "of comma separated bytes per entry of values")
        violation(data["harness"], data, "values" in data)

    # 4. Undecided obligations and Verus failures: bounded native search, never an alarm by itself
    todo = [u for u in undecided if not u[0].startswith("verus:")]
    explored = []
    if (todo or verus_fail) and not violations:
        if not native():
            return 2
        names = [u[0] for u in todo]
        for v in verus_fail + [dict(unit=u[0][6:]) for u in undecided if u[0].startswith("verus:")]:
            for h in info.get("verus_search", {}).get(v["unit"]) or [h for h, _, _ in harnesses(MOD)]:
                if h not in names:
                    names.append(h)
        per = max(3, min(20, (left() - 60) * 6 / max(1, len(names))))
        with ThreadPoolExecutor(6) as pool:
            found = list(pool.map(lambda h: search(h, per), names))
        for h, (ok, msg, vals, exh) in zip(names, found):
            explored.append({"harness": h, "result": msg})
            if ok:
                violation(h, {"property": PROP, "harness": h, "obligation": msg, "values": vals,
                              "found_by": "native search (verifier undecided)"}, True)
    # The larger bounds of the thorough tier, and what CBMC cannot take, are searched natively
    if not violations and native():
        hs = [h for h, _, _ in harnesses(MOD + "_deep") + harnesses(MOD + "_nat")]
        with ThreadPoolExecutor(6) as pool:
            found = list(pool.map(lambda h: search(h, 5 if TIER == "quick" else 60), hs))
        for h, (ok, msg, vals, exh) in zip(hs, found):
            explored.append({"harness": h, "result": msg})
            if ok:
                violation(h, {"property": PROP, "harness": h, "obligation": msg, "values": vals,
                              "found_by": "native search"}, True)
    # Crates the verifier cannot build (asynchronous readers) are searched natively
    for crate, mod in info.get("native_crates", []):
        if violations:
            break
        if not native(crate):
            return 2
        for h, _, _ in harnesses(mod, crate):
            ok, msg, vals, exh = search(h, 4 if TIER == "quick" else 60, crate)
            explored.append({"harness": h, "result": msg})
            if ok:
                violation(h, {"property": PROP, "harness": h, "obligation": msg, "values": vals,
                              "found_by": "native search", "crate": crate}, True)
                break
    for v in verus_fail:
        if not violations:
            violation("verus_" + v["unit"], {
                "property": PROP, "obligation": v["reason"], "unit": v["unit"],
                "verifier_output": v["output"][-6000:]}, False)

    # 5. Concrete histories of known and repaired defects
    listed = {}
    kf = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"known: property=(\S+) case=(\S+) (.*)", l)
            if m and m[1] == PROP:
                listed[m[2]] = m[3].strip()
    cases = []
    if info.get("cases"):
        if not native():
            return 2
        rc, o = run_native(["cases", PROP], 20)
        for c in o.split():
            rc, o = run_native(["case", c], 30)
            cases.append({"case": c, "result": last_line(o), "known": c in listed})
            if rc == 1:
                if c in listed:
                    print(f"KNOWN-FINDING: property={PROP} {listed[c]}")
                else:
                    violation("case_" + c, {"property": PROP, "obligation": "repaired defect " + c,
                                            "case": c, "native": last_line(o),
                                            "replay_cmd": f"harness/target/debug/replay case {c}"}, True)

    proved = [r for r in records if r["status"] == "proved"]
    bounded = [r for r in records if r["status"] == "bounded"]
    unit_assumed = [f"{v['unit']}: {a}" for v in verus_rec for a in v.get("assumed", [])]
    ev = {
        "property": PROP, "tier": TIER, "seed": SEED, "level": info["level"],
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": " ".join(cmd) + "".join(f" ; verus <{u}>" for u in info.get("verus", [])),
            "trusted_base": info["trusted"],
            "functions_under_contract": info["functions"],
            "harnesses_proved": len(proved), "harnesses_bounded": len(bounded),
            "harnesses_failed": len(failed),
            "undecided": [{"what": u[0], "why": u[1]} for u in undecided],
            "bounds": {r["harness"]: r["bound"] for r in bounded},
            "per_harness": records, "verus_units": verus_rec,
            "native_search": explored, "histories": cases,
            "solver_seconds": round(solver_s, 3),
            "evaluations": len(cases) + len(explored),
            "explanation": "obligations are Kani/CBMC checks (named contract clauses plus overflow, "
                           "panic and memory checks) reachable from the harnesses, and Verus functions; "
                           "back ends: CBMC 6.11 with CaDiCaL, Verus with Z3",
        },
        "assumptions": info["assumptions"] + unit_assumed,
        "wall_s": round(time.time() - T0, 2),
        "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", PROP + ".json"), "w"), indent=1)
    shutil.rmtree(WORK, ignore_errors=True)
    for u in undecided:
        print(f"  undecided: {u[0]}: {u[1][:300]}")
    print(f"{PROP} {TIER}: {discharged}/{obligations} obligations discharged, {len(proved)} harnesses "
          f"proved, {len(bounded)} bounded, {len(verus_rec)} verus units, {len(undecided)} undecided, "
          f"{len(cases)} histories, {ev['wall_s']}s")
    for v in violations:
        print(v)
    return 1 if violations else 0


sys.exit(main())
