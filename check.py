#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  --  decides one property on /repo's working tree."""
import json, os, shutil, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import runner as R
import props as P
import verus as V


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = P.PROPS[prop]
    t0 = time.time()
    thorough = tier == "thorough"
    deadline = t0 + (cfg.get("limit_thorough", 3000) if thorough else cfg.get("limit", 330))
    work = os.path.join(R.VERIF, "work", prop)
    os.makedirs(work, exist_ok=True)

    # --- native engine (bounded complement, also the source of failing inputs); built first
    secs = cfg.get("engine_secs", 25) * (12 if thorough else 1)
    binary, elog = R.build_engine()
    eng = san = None
    if binary and cfg.get("asan"):
        sbin, slog = R.build_engine(True)
        if sbin:
            san = R.EngineRun(sbin, cfg["asan"], seed, secs, 2, salt=3)
    if binary and cfg.get("engine"):
        eng = R.EngineRun(binary, cfg["engine"], seed, secs, cfg.get("engine_workers", 2))

    # --- Verus: contracts on mechanically extracted functions
    vres = V.run_units(cfg.get("verus", []), work, deadline) if cfg.get("verus") else []

    # --- Kani: contracts on the code in place
    kres, lost = {}, {}
    hs = {h["name"]: h for h in P.HARNESSES if prop in h["props"] and (thorough or not h.get("thorough"))}
    if hs:
        for feat in sorted({h.get("features", "") for h in hs.values()}):
            sub = {n: h for n, h in hs.items() if h.get("features", "") == feat}
            mods = {}
            for h in sub.values():
                for m in [h["file"]] + h.get("needs", []):
                    mods[m] = P.MODS[m]
            r, l = R.run_kani(os.path.join(work, "kani" + feat), sub, mods, cfg.get("jobs", 6), deadline,
                              1500 if thorough else cfg.get("harness_timeout", 240), feat, cfg.get("kani_args", ()))
            kres.update(r)
            lost.update(l)

    eres = eng.wait() if eng else []
    if san:
        eres += [dict(r, group=r["group"] + "@asan") for r in san.wait()]
    failed_ob = [dict(tool="kani/cbmc", obligation=n, detail=r["failed"][:8]) for n, r in kres.items() if r["status"] == "failed"]
    failed_ob += [dict(tool="verus/z3", obligation=u["name"], detail=u["errors"][:8]) for u in vres if u["status"] == "failed"]
    fails = [r["fail"] for r in eres if r["fail"]]
    if failed_ob and not fails and binary and cfg.get("engine"):
        # look harder for an input that shows the failed obligation on the real code
        more = R.EngineRun(binary, cfg["engine"], seed, min(60, 2 * secs), max(2, 8 // len(cfg["engine"])), salt=7).wait()
        eres += more
        fails = [r["fail"] for r in more if r["fail"]]

    # --- known findings
    kf = []
    for cmd, what in R.known(prop):
        if binary:
            rc, o = R.run([binary] + cmd, R.ENGINE, 60)
            if rc != 0:
                kf.append(what)
                print("KNOWN-FINDING: property=%s %s" % (prop, what))

    # --- verdict
    viol = bool(failed_ob or fails)
    undecided = [(n, r["why"]) for n, r in kres.items() if r["status"] == "undecided"]
    undecided += [(u["name"], u["why"]) for u in vres if u["status"] == "undecided"]
    bounded_h = [n for n in kres if hs[n].get("bounded")]
    proof_h = [n for n in kres if not hs[n].get("bounded")]
    obligations = sum(kres[n]["checks"] for n in proof_h) + sum(u["obligations"] for u in vres)
    discharged = sum(kres[n]["ok"] for n in proof_h if kres[n]["status"] == "proved") + sum(u["verified"] for u in vres)
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd="python3 check.py %s %s" % (prop, tier),
        trusted_base=cfg.get("trusted", []) + P.TRUSTED,
        functions_under_contract=sorted({f for n in kres if kres[n]["status"] == "proved" for f in hs[n].get("funcs", [])}
                                        | {f for u in vres if u["status"] == "verified" for f in u.get("funcs", [])}),
        kani_harnesses={n: dict(status=r["status"], kind="bounded: " + hs[n]["bounded"] if hs[n].get("bounded") else "proof over the full domain",
                                obligations=r["checks"], discharged=r["ok"], seconds=r.get("seconds"),
                                solver=r.get("solver"), solver_seconds=r.get("solver_seconds"), note=r["why"][:500],
                                states=hs[n].get("what", ""))
                        for n, r in kres.items()},
        verus_units={u["name"]: {k: u[k] for k in ("status", "obligations", "verified", "seconds", "why", "extraction") if k in u} for u in vres},
        solver_seconds=round(sum(r.get("solver_seconds") or 0 for r in kres.values()) + sum(u.get("seconds", 0) for u in vres), 1),
        undecided=[dict(obligation=n, reason=w[:500]) for n, w in undecided],
        bounded_harnesses=bounded_h,
        harness_files_lost=lost,
    )
    evals = sum(r["cases"] for r in eres)
    cov["bounded_native_run"] = dict(
        label="bounded, never counted as proved", groups=cfg.get("engine", []), evaluations=evals,
        per_group={g: sum(r["cases"] for r in eres if r["group"] == g) for g in sorted({r["group"] for r in eres})},
        rule="seeded generated cases run through the public interface of /repo's crate and compared with an independent expectation (engine/src)",
        seeds=sorted({r["seed"] for r in eres}),
        samples=["%s seed %d case 0" % (r["group"], r["seed"]) for r in eres[:3]])
    cov["evaluations"] = evals
    cov["explanation"] = cfg.get("explain", "")
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg["level"], coverage=cov,
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=0,
              known_findings=kf)
    if binary is None:
        ev["coverage"]["engine_build_error"] = elog[-2000:]
    replay = None
    if viol:
        ev["violations"] = len(failed_ob) + len(fails)
        replay = os.path.join(R.VERIF, "evidence", "replay-%s.json" % prop)
        rep = dict(property=prop, failed_obligations=failed_ob, failing_inputs=fails,
                   how_to_replay=["cd /verif/engine && cargo build --release --offline && target/release/laz-engine %s --case %s %s"
                                  % (f["group"], f["seed"], f["case"]) for f in fails],
                   note="" if fails else "no failing input was found; the failed obligations above carry the verifier's output")
    os.makedirs(os.path.join(R.VERIF, "evidence"), exist_ok=True)
    if replay:
        json.dump(rep, open(replay, "w"), indent=1)
    json.dump(ev, open(os.path.join(R.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for n, r in sorted(kres.items()):
        print("kani  %-9s %s (%s/%s obligations, %s s) %s" % (r["status"], n, r["ok"], r["checks"], r.get("seconds"), r["why"][:300]))
    for u in vres:
        print("verus %-9s %s (%s/%s) %s" % (u["status"], u["name"], u["verified"], u["obligations"], u["why"][:300]))
    for r in eres:
        print("native %s seed %d: %d cases %s" % (r["group"], r["seed"], r["cases"], r["fail"] or r.get("note", "")))
    shutil.rmtree(os.path.join(work, "tmp"), ignore_errors=True)
    if viol:
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if fails else " no-failing-input-found"))
        return 1
    if binary is None and not discharged:
        print("nothing could be built: " + elog[-1500:])
        return 2
    print("OK property=%s obligations=%d discharged=%d undecided=%d native_cases=%d wall=%.0fs"
          % (prop, obligations, discharged, len(undecided), evals, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
