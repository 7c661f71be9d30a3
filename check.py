#!/usr/bin/env python3
"""check.py PROP           decide one property on /repo's current working tree
   check.py --replay FILE  re-run a recorded failing input against the real code

Deciding step: the Kani verifier (CBMC back end) discharging every obligation of
the property's contracts, generated afresh from /repo's current source.
Concurrently the same contracts run natively on enumerated and seeded inputs:
that turns a failed obligation into a concrete input on the real code, and is the
labelled bounded stand-in for functions out of the verifier's reach.
Exit 0: held. Exit 1 + VIOLATION line: broken. Exit 2: the check could not run."""
import json, os, re, shutil, subprocess, sys, time, threading

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, ".build")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
# A check gets 900 s in the quick tier; stay well below it.
DEADLINE = T0 + (int(os.environ.get("VERIF_BUDGET", "780")) if TIER == "quick" else 5400)
NPROC = min(8, os.cpu_count() or 4)
# Failed checks of these kinds mean "the verifier's bound or subset was exceeded",
# which is undecided, never a violation.
TOOL_LIMIT = {"unwind", "unsupported_construct", "recursion", "reachability_check", "cover"}

TRUSTED_BASE = [
    "Kani 0.68.0 / CBMC 6.11.0 / CaDiCaL: the verifier, its MIR translation and its models of compiler intrinsics",
    "the rustc used by Kani compiles the mounted sources to the same semantics as the toolchain that builds the library",
    "hl/src/spec.rs and hl/src/props/*.rs: the specifications say what the property statement says",
    "shims/anyhow replaces the anyhow crate in verifier builds only: error payloads (message text) are dropped, Ok/Err control flow is kept",
    "hl/src/lib.rs mounts /repo/src files unchanged by #[path]; cfg(verif) hooks in /repo are constructors/accessors of private fields",
]


def trusted(prop):
    return TRUSTED_BASE + (["shims/grammar/peg.py stands in for the parser generator peginator, which is not available offline; "
                            "it compiles /repo/hun_law_grammar/grammar.ebnf"] if prop == "P18" else [])


def log(*a):
    print("[check]", *a, flush=True)


def env(target, extra=""):
    e = dict(os.environ)
    e["RUSTFLAGS"] = (("--cfg bare " if bare == 2 else "--cfg verif ") + extra).strip()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, target + ("_bare" if bare == 2 else ""))
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("RUSTUP_TOOLCHAIN", None)
    return e


def run(cmd, cwd, e, timeout):
    """-> (rc or None on timeout, output)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(5, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out


# For a tree in which private parts were reorganised and a hook does not compile any more.
# 1: the obligations of these properties that reach private functions through a hook are left
# out; the others still decide the property. 2: no hook is used at all, what they give is had
# through the public interface (hl/src/bare.rs), and the stand-ins decide the property.
HAVE_BARE = {"P13", "P16", "P20"}
bare = 0


def tier_features(prop):
    return ",".join([prop.lower() + ("b" if bare and prop in HAVE_BARE else "")] + (["thorough"] if TIER == "thorough" else []))


# ------------------------------------------------------------------ native side
def native_bin(prop):
    return os.path.join(BUILD, "hl_native_" + prop)


def build_native(prop):
    rc, out = run(["cargo", "build", "--offline", "--quiet", "--features", tier_features(prop)],
                  os.path.join(VERIF, "hl/native"), env("native"), DEADLINE - time.time())
    global bare
    if rc not in (0, None) and bare < 2:
        log("does not compile with the hooks; trying with fewer or none")
        bare += 1 if prop in HAVE_BARE else 2
        rc2, out2 = build_native(prop)
        return rc2, out if rc2 else out2
    if rc == 0:
        tmp = native_bin(prop) + f".{os.getpid()}"
        shutil.copy(os.path.join(env("native")["CARGO_TARGET_DIR"], "debug/hl_native"), tmp)
        os.replace(tmp, native_bin(prop))
    return rc, out


def native(prop, *args, timeout=600):
    rc, out = run([native_bin(prop)] + [str(a) for a in args], VERIF, dict(os.environ, RUST_BACKTRACE="0", RUST_LIB_BACKTRACE="0"), timeout)
    return rc, out


def native_run(prop, seed, cap, ms, name=None):
    args = ["run", prop, seed, cap, ms] + ([name] if name else [])
    rc, out = native(prop, *args, timeout=ms / 1000 * 3 + 120)
    try:
        return {r["name"]: r for r in json.loads(out.strip().splitlines()[-1])}
    except Exception:
        # The process died (abort, stack overflow, hang): find out which obligation does it
        return {"_crash": f"rc={rc} output={out[-2000:]}"}


# -------------------------------------------------------------------- Kani side
def kani_cmd(features, harnesses, extra):
    c = ["cargo", "kani", "--features", features, "-Z", "function-contracts", "-Z", "stubbing",
         "-Z", "unstable-options", "--no-assertion-reach-checks", "--exact"]
    for h in harnesses:
        c += ["--harness", h]
    return c + extra


class Kani(threading.Thread):
    """All the Kani obligations of one property."""

    def __init__(self, prop, obs):
        super().__init__()
        self.prop, self.obs = prop, obs
        self.results, self.error, self.out, self.cmd = {}, None, "", ""

    def run(self):
        js = os.path.join(BUILD, f"kani_{self.prop}.json")
        if os.path.exists(js):
            os.remove(js)
        left = DEADLINE - time.time() - 60
        cmd = kani_cmd(tier_features(self.prop), [o["harness"] for o in self.obs],
                       ["-j", str(NPROC), "--output-format=terse", "--harness-timeout", f"{int(max(60, (left - 60) * (0.75 if len(self.obs) <= NPROC else 0.45)))}s",
                        "--export-json", js])
        self.cmd = " ".join(cmd)
        rc, self.out = run(cmd, os.path.join(VERIF, "hl/kani"), env("kani"), left)
        if not os.path.exists(js):
            self.error = "timeout" if rc is None else f"no verdict (rc={rc}): " + self.out[-3000:]
            return
        d = json.load(open(js))
        stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in d.get("cbmc", [])}
        for r in d["verification_results"]["results"]:
            self.results[r["harness_id"]] = dict(r, stats=stats.get(r["harness_id"], {}))


def judge(r):
    """One harness result -> (verdict, failed checks, covered). verdict: proved | failed | undecided"""
    if r is None:
        return "undecided", [], False
    cov = [c for c in r["checks"] if c["category"] == "cover"]
    covered = bool(cov) and all(c["status"] == "Satisfied" for c in cov)
    bad = [c for c in r["checks"] if c["status"] in ("Failure", "Failed") and c["category"] not in TOOL_LIMIT]
    if bad:
        return "failed", bad, covered
    if r["status"] == "Success" and covered:
        return "proved", [], True
    return "undecided", [], covered


def kani_playback(prop, harness):
    """Concrete counterexamples of a failing harness, as lists of draws."""
    cmd = kani_cmd(tier_features(prop), [harness], ["--output-format=terse", "-Z", "concrete-playback", "--concrete-playback=print"])
    rc, out = run(cmd, os.path.join(VERIF, "hl/kani"), env("kani"), min(300, DEADLINE - time.time() + 60))
    res = []
    for blk in re.findall(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", out, re.S):
        vals = []
        for v in re.findall(r"vec!\[([0-9, ]*)\]", blk):
            b = [int(x) for x in v.split(",") if x.strip()]
            vals.append(int.from_bytes(bytes(b), "little"))
        res.append(vals)
    return res, out


# ----------------------------------------------------------------------- driver
def known_findings(prop):
    res = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) obligation=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    except FileNotFoundError:
        pass
    return res


def main(prop):
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    rc, out = build_native(prop)
    if rc != 0:
        print(out[-6000:])
        log("the contracts do not compile against this tree: cannot decide")
        return 2
    obs = [o for o in json.loads(native(prop, "list")[1]) if o["prop"] == prop]
    for o in obs:
        if o["level"] == "deep":
            o["level"] = "proved" if o["harness"] else "standin"
            if not o["harness"]:
                o["bound"] = "enumerated and random values (the verifier runs it in the thorough tier)"
    if not obs:
        log("no obligations: vacuous")
        return 2
    for o in obs:
        o["harness"] = o["harness"].removeprefix("hl::")
        if bare == 2:
            # the verifier's obligations need the hooks
            o["harness"] = ""
            o["level"] = "standin"
            o["bound"] = "enumerated and random values"
    kobs = [o for o in obs if o["harness"]]
    log(f"{prop}: {len(obs)} obligations, {len(kobs)} for the verifier; tier {TIER}, seed {SEED}")
    kani = Kani(prop, kobs)
    if kobs:
        kani.start()
    ms = (20000 if TIER == "quick" else 300000)
    nat = native_run(prop, SEED, 200000 if TIER == "quick" else 3000000, ms)
    if "_crash" in nat:
        crash, nat = nat["_crash"], {}
        for o in obs:
            r = native_run(prop, SEED, 200000, ms, o["name"])
            if "_crash" in r:
                r = {o["name"]: {"name": o["name"], "evaluations": 0, "passed": 0, "distinct": 0, "exhausted": False, "samples": [],
                                 "failure": {"message": "the process died (abort, stack overflow or endless loop): " + r["_crash"], "draws": None}}}
            nat.update(r)
    if kobs:
        kani.join()
    if kani.error:
        log("verifier:", kani.error)

    violations, notes, rows = [], [], []
    if bare == 1:
        notes.append("the hooks to private functions do not compile on this tree: only the obligations over the public interface were evaluated")
    if bare == 2:
        notes.append("the hooks do not compile on this tree: nothing was proved, the stand-ins over the public interface decided the property")
    n_checks = n_ok = 0
    for o in obs:
        nr = nat.get(o["name"])
        nfail = nr["failure"] if nr else None
        row = {"obligation": o["name"], "functions": o["funcs"], "declared": o["level"]}
        if o["bound"]:
            row["bound"] = o["bound"]
        bad, ce_out = [], ""
        if o["harness"]:
            r = kani.results.get(o["harness"])
            verdict, bad, covered = judge(r)
            row["verifier"] = verdict
            row["harness"] = o["harness"]
            if r:
                real = [c for c in r["checks"] if c["category"] != "cover"]
                n_checks += len(real)
                n_ok += sum(c["status"] in ("Success", "Unreachable") for c in real)
                row.update(checks=len(real), time_s=round(r["duration_ms"] / 1000, 1),
                           solver_s=round(r["stats"].get("runtime_solver_s") or 0, 2),
                           vccs=r["stats"].get("vccs_generated"), reachable=covered)
            else:
                n_checks += 1
            if verdict == "undecided":
                lim = sorted({c["category"] for c in (r["checks"] if r else []) if c["status"] in ("Failure", "Undetermined") and c["category"] in TOOL_LIMIT})
                notes.append(f"{o['name']}: not discharged on this run ({'/'.join(lim) or 'timeout or tool error'}); the bounded stand-in decided it")
        if nr:
            row.update(standin_evaluations=nr["evaluations"], standin_distinct=nr["distinct"], standin_exhausted=nr["exhausted"])
        rows.append(row)
        if nfail or bad:
            rec = {"property": prop, "obligation": o["name"], "harness": o["harness"], "functions": o["funcs"],
                   "failed_checks": bad[:20], "found_by": [x for x, y in (("verifier", bad), ("native search", nfail)) if y]}
            if nfail:
                rec.update(message=nfail["message"], draws=nfail["draws"])
            else:
                # the verifier's own counterexample, replayed against the real code
                ces, ce_out = kani_playback(prop, o["harness"])
                rec["counterexamples"] = ces
                rec["verifier_output"] = ce_out[-8000:]
                for ce in ces:
                    prc, pout = native(prop, "playback", prop, o["name"], ",".join(map(str, ce)), timeout=60)
                    if prc == 1 and pout.startswith("FAIL"):
                        rec.update(message=pout[5:].strip(), draws=ce)
                        break
                if "draws" not in rec:
                    r2 = native_run(prop, SEED + 1, 2000000, 30000, o["name"]).get(o["name"])
                    if r2 and r2["failure"]:
                        rec.update(message=r2["failure"]["message"], draws=r2["failure"]["draws"])
                if "draws" not in rec and ces and "stub" not in o["bound"]:
                    notes.append(f"{o['name']}: the verifier's counterexample does not fail on the real code (spurious); the bounded stand-in decided it")
                    row["verifier"] = "undecided (spurious counterexample)"
                    continue
            violations.append(rec)

    known = known_findings(prop)
    rep = []
    for v in violations:
        k = [w for (ob, rx, w) in known if ob == v["obligation"] and rx.search(v.get("message", ""))]
        if k:
            print(f"KNOWN-FINDING: property={prop} {k[0]}")
        else:
            rep.append(v)

    proved = [r for r in rows if r["declared"] == "proved" and r.get("verifier") == "proved"]
    all_proved = all(r["declared"] == "proved" and r.get("verifier") == "proved" for r in rows)
    total_ev = sum(r.get("standin_evaluations", 0) for r in rows)
    total_di = sum(r.get("standin_distinct", 0) for r in rows)
    samples = []
    for o in obs:
        nr = nat.get(o["name"]) or {}
        samples += [{"obligation": o["name"], "draws": s} for s in (nr.get("samples") or [])[:2]]
    decl = {r["declared"] for r in rows}
    level = "proof" if all_proved else ("exploration" if "standin" in decl and len(decl) == 1 else "other")
    cov = {
        "obligations": n_checks, "discharged": n_ok,
        "checker_cmd": "cd hl/kani && RUSTFLAGS='--cfg verif' " + (kani.cmd or "(no verifier obligations)"),
        "trusted_base": trusted(prop),
        "functions_under_contract": [{k: r[k] for k in r} for r in rows],
        "contracts": len(rows), "contracts_proved": len(proved),
        "contracts_bounded": sum(r["declared"] == "bounded" and r.get("verifier") == "proved" for r in rows),
        "contracts_standin_only": sum(r["declared"] == "standin" for r in rows),
        "back_end": "Kani 0.68.0, CBMC 6.11.0, CaDiCaL",
        "solver_s": round(sum(r.get("solver_s", 0) for r in rows), 2),
        "evaluations": total_ev, "distinct_nontrivial": total_di,
        "rule": "stand-in: each contract on depth-first enumerated boundary values, then seeded random draws; a case is non-trivial if it meets the precondition and reaches the end of the contract; distinct by its draws",
        "samples": samples[:8],
        "explanation": f"{len(proved)} of {len(rows)} contracts proved for all inputs by the verifier; "
                       f"{sum(r['declared'] == 'bounded' for r in rows)} are verifier checks within the stated bound; "
                       f"{sum(r['declared'] == 'standin' for r in rows)} are bounded native stand-ins (not counted as proved).",
        "notes": notes,
    }
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": trusted(prop) + [f"{r['obligation']}: bounded to {r['bound']}" for r in rows if r.get("bound")],
          "wall_s": round(time.time() - T0, 1), "violations": len(rep)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in rows:
        log(f"{r['obligation']:28} {r['declared']:8} verifier={r.get('verifier', '-'):10} "
            f"t={r.get('time_s', '-')}s native={r.get('standin_evaluations', '-')}")
    for n in notes:
        log("note:", n)
    for v in rep:
        path = os.path.join(VERIF, "replays", f"{prop}-{v['obligation']}.json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print(f"failed obligation {v['obligation']} ({v['functions']}): {v.get('message') or [c['description'] for c in v['failed_checks']]}")
        tail = "" if v.get("message") else " no-failing-input-found"
        print(f"VIOLATION property={prop} replay={path}{tail}", flush=True)
    log(f"{prop}: {'VIOLATED' if rep else 'held'}; {n_ok}/{n_checks} verifier checks discharged, {len(proved)}/{len(rows)} contracts proved, {ev['wall_s']} s")
    return 1 if rep else 0


def setup():
    """Warm the dependency builds; every check also builds what it needs by itself."""
    os.makedirs(BUILD, exist_ok=True)
    rc, out = run(["cargo", "build", "--offline", "--quiet"], os.path.join(VERIF, "hl/native"), env("native"), 600)
    print(out[-3000:])
    rc2, out = run(["cargo", "kani", "--only-codegen"], os.path.join(VERIF, "hl/kani"), env("kani"), 600)
    print(out[-3000:])
    return 0 if rc == 0 and rc2 == 0 else 1


def replay(path):
    v = json.load(open(path))
    if v.get("draws") is None:
        print("no concrete input recorded; failed checks:", json.dumps(v["failed_checks"], indent=1))
        return 1
    rc, out = build_native(v["property"])
    if rc != 0:
        print(out)
        return 2
    rc, out = native(v["property"], "playback", v["property"], v["obligation"], ",".join(map(str, v["draws"])))
    print(out)
    return rc or 0


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        sys.exit(setup())
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
