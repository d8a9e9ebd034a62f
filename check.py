#!/usr/bin/env python3
"""check.py ID: decide one property from /repo's current source.

S layer: obligations of the contracts in /verif/harness, generated by running
the compiled code of /repo on symbolic reals (all paths) and discharged by
normal forms and z3; the same contracts are evaluated on the real code with
floats to replay counterexamples.
V layer (vlayer.py): the functions over batches of rows, extracted from
/repo/src and verified by Verus for any number of rows.
"""
import fcntl, glob, json, os, re, shutil, subprocess, sys, threading, time

import grid
import lsq
import vlayer

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
TARGET = os.path.join(BUILD, "target")
HARNESS = os.path.join(TARGET, "debug", "harness")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

S_TRUST = [
    "rustc and the standard library; nalgebra, simba and approx run as they are (their code is executed symbolically, not assumed)",
    "harness/src: the symbolic scalar, its normal forms (rational functions modulo quadratic relations) and the path explorer",
    "z3 (z3-new) only for pruning infeasible branches and for obligations counted under by_z3",
    "machine arithmetic treated as exact real arithmetic (square roots, division and comparison included)",
    "completeness of the stated parametrisations: unit quaternions for rotations, Householder vectors for QR, unit directions times a length",
]

ROUND_TRUST = [
    "the standard model of floating-point arithmetic: every +, -, *, /, sqrt returns the exact result times (1 + d), |d| <= unit roundoff; no overflow or underflow; rustc neither contracts nor reorders operations",
    "harness/src/round.rs: magnitudes and rounding counts of the standard model, carried along with the exact values; comparisons of rounded values may go either way",
    "rotations are unit quaternions up to the rounding of their entries; a unit quaternion's entries satisfy the exact relation",
]

PC, OC, EX = "IntrinsicParametersPerspective__", "IntrinsicParametersOrthographic__", "ExtrinsicParameters__"
BUNDLE = [f"{o}__{f}" for o in ("RayBundle", "SharedOriginRayBundle", "SharedDirectionRayBundle")
          for f in ("directions", "centers", "point_on_ray", "point_on_ray_at_distance")] + [
          "RayBundle__new_shared_zero_origin", "RayBundle__new_shared_plusz_direction"]
POSE = [EX + "ray_camera_to_world", "RayBundle__to_pose", "SharedOriginRayBundle__to_pose", "SharedDirectionRayBundle__to_pose"]
CAM = ["Camera__world_to_pixel", "Camera__pixel_to_world"]
RAYS = ["ray_intersection__best_intersection_of_rays", "ray_intersection__best_intersection_of_rays_lsq"]
VISIT = [f"{t}__{f}" for t in ("ExtrinsicParameters", "IntrinsicParametersPerspective") for f in ("visit_map", "visit_seq")]
DERIVED = {t: [f"{t}__{f}" for f in ("visit_map", "visit_seq")]
           for t in ("PerspectiveParams", "OrthographicParams", "IntrinsicParametersOrthographic", "Camera", "RayBundle",
                     "SharedOriginRayBundle", "SharedDirectionRayBundle")}
# functions whose row contract belongs to the property (None: all row by row)
V_FUNCTIONS = {
    "C01": [PC + "camera_to_pixel"],
    "C02": [PC + "pixel_to_camera"],
    "C03": [OC + "camera_to_pixel", OC + "pixel_to_camera"],
    "C04": [EX + "world_to_camera", EX + "camera_to_world"],
    "C07": BUNDLE,
    "C08": POSE,
    "C09": CAM,
    "C13": RAYS,
    "C14": RAYS,
    "C16": VISIT + sum(DERIVED.values(), []),
    "C17": None,
    "C18": ["roundtrip_utility"],
}
# goals on two to four rows, and the callees' contracts that make them hold for any number
V_LIFT = {
    "c01_rows_static": [PC + "camera_to_pixel"],
    "c01_rows_dyn": [PC + "camera_to_pixel"],
    "c02_rows": [PC + "pixel_to_camera", "RayBundle__new_shared_zero_origin"],
    "c03_rows": [OC + "camera_to_pixel", OC + "pixel_to_camera", "RayBundle__new_shared_plusz_direction"],
    "c04_rows": [EX + "world_to_camera", EX + "camera_to_world"],
    "c07_origin": BUNDLE, "c07_direction": BUNDLE, "c07_wrappers": BUNDLE,
    "c08_origin": POSE, "c08_direction": POSE, "c08_pose_origin": POSE, "c08_pose_direction": POSE,
    **{g: RAYS for g in ("c13_lsq_f64", "c13_lsq_f32", "c13_common_point_f64", "c13_common_point_f32", "c13_too_few",
                         "c14_redescribe_f64", "c14_redescribe_f32")},
    "c16_extrinsics": VISIT[:2],
    "c16_intrinsics": VISIT[2:] + sum((DERIVED[t] for t in ("PerspectiveParams", "OrthographicParams", "IntrinsicParametersOrthographic")), []),
    "c16_camera": VISIT + DERIVED["Camera"],
    "c01_batch": [PC + "camera_to_pixel"],
    "c02_batch": [PC + "pixel_to_camera"],
    "c03_batch": [OC + "camera_to_pixel", OC + "pixel_to_camera"],
    "c04_batch": [EX + "world_to_camera", EX + "camera_to_world"],
    "c07_batch": BUNDLE,
    "c08_batch": POSE,
    "c09_batch": CAM + POSE + [EX + "world_to_camera"],
    **{g: None for g in ("c17_small", "c17_none", "c17_many_f64", "c17_many_f32")},
    **{g: ["roundtrip_utility"] for g in ("c18_grid", "c18_detects", "c18_large", "c18_huge")},
    "c09_user": CAM + POSE + [EX + "world_to_camera"],
    "c09_user_dir": CAM + POSE + [EX + "world_to_camera"],
    "c09_persp": CAM + POSE + [EX + "world_to_camera", PC + "camera_to_pixel", PC + "pixel_to_camera", "RayBundle__new_shared_zero_origin"],
    "c09_ortho": CAM + POSE + [EX + "world_to_camera", OC + "camera_to_pixel", OC + "pixel_to_camera", "RayBundle__new_shared_plusz_direction"],
}

def say(*a):
    print(*a, flush=True)

def build_harness():
    """Rebuild cam-geom and the harness from /repo's working tree."""
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cwd = os.path.join(HERE, "harness")
        # File times cannot be trusted across copies of the tree: forget cargo's
        # fingerprints (rustc's incremental cache goes by content).
        for d in glob.glob(os.path.join(TARGET, "debug", ".fingerprint", "*")):
            if os.path.basename(d).startswith(("cam-geom-", "harness-")):
                shutil.rmtree(d, ignore_errors=True)
        for attempt in (1, 2):
            r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=cwd, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0 or attempt == 2:
                break
            # An interrupted build, or a copy of the tree made during one, can leave object
            # files and an incremental cache that do not fit together: once more without them.
            dbg = os.path.join(TARGET, "debug")
            shutil.rmtree(os.path.join(dbg, "incremental"), ignore_errors=True)
            for pat in ("deps/*cam_geom-*", "deps/harness-*", ".fingerprint/cam-geom-*", ".fingerprint/harness-*"):
                for d in glob.glob(os.path.join(dbg, *pat.split("/"))):
                    shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else os.remove(d)
            env["CARGO_INCREMENTAL"] = "0"
    if r.returncode != 0:
        say(r.stdout[-4000:])
        say("ERROR: the harness does not build against /repo")
        sys.exit(2)

def known():
    out = []
    p = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out

def sources():
    """The code under check without tests, comments and strings."""
    for f in sorted(glob.glob("/repo/src/**/*.rs", recursive=True)):
        s = re.split(r"#\[cfg\(test\)\]\s*mod ", open(f, errors="replace").read())[0]
        yield re.sub(r"//[^\n]*|\"(\\.|[^\"\\])*\"", "", re.sub(r"/\*.*?\*/", " ", s, flags=re.S))

def type_inspection():
    """Whether the code can tell f32 from f64 by other means than the machine constants."""
    return sorted({w for s in sources() for w in re.findall(r"\b(size_of\w*|align_of\w*|TypeId|type_id|type_name\w*)\b", s)})

def state_kept():
    """Whether something may outlive a call: a mutable static, a cell, a lock."""
    return sorted({w for s in sources() for w in re.findall(r"\b(thread_local|static\s+mut|(?:Ref|Unsafe|Once|Lazy)?Cell|Mutex|RwLock|Atomic\w+|\w*Once\w*Lock|Lazy\w*)\b", s)})

def dictionary():
    """Numbers written in the code under check: sizes and values for the sampled contracts."""
    ints, reals = set(), set()
    for s in sources():
        for i, d, e, t in re.findall(r"(?<![\w.])(\d[\d_]*)(\.\d[\d_]*)?([eE][-+]?\d+)?(_?(?:f32|f64|[iu]size|[iu]\d+))?(?!\w)", s):
            try:
                if d or e or "f" in t:
                    reals.add(float((i + d + e).replace("_", "")))
                else:
                    ints.add(int(i.replace("_", "")))
            except ValueError:
                pass
        for a, b in re.findall(r"\b(\d{1,4})(?:_?usize)?\s*<<\s*(\d{1,2})\b", s):
            ints.add(int(a) << int(b))
        for a, o, b in re.findall(r"(?<![\w.])(\d{1,5})(?:_?usize)?\s*([*+])\s*(\d{1,5})(?:_?usize)?(?![\w.])", s):
            ints.add(int(a) * int(b) if o == "*" else int(a) + int(b))
    ints = sorted(k for k in ints if 4 < k <= 20000)[:40]
    reals = sorted(x for x in reals if 1e-3 <= x <= 1e4)[:60]
    return " ".join(map(str, ints)) + ";" + " ".join(map(repr, reals))

def main():
    prop = sys.argv[1]
    t0 = time.time()
    vres = {}
    def vrun():
        if prop in V_FUNCTIONS:
            need = V_FUNCTIONS[prop]
            if need is not None:
                need = set(need).union(*[V_LIFT[g] or [] for g in V_LIFT if g.upper().startswith(prop)])
            vres["r"] = vlayer.run((lambda f: f["kind"] == "row") if need is None else lambda f: f["id"] in need, derived=prop == "C16")
    vt = threading.Thread(target=vrun)
    vt.start()
    build_harness()
    inspects, state = type_inspection(), state_kept()
    r = subprocess.run([HARNESS, "prop", prop], stdout=subprocess.PIPE, text=True,
                       env=dict(os.environ, VERIF_TIER=TIER, VERIF_SEED=str(SEED), VERIF_DICT=dictionary(), VERIF_TYPES="both" if inspects else "", VERIF_STATE="yes" if state else ""))
    try:
        goals = json.loads(r.stdout)
    except ValueError:
        say(r.stdout[-2000:])
        say(f"ERROR: no result from the harness (status {r.returncode})")
        sys.exit(2)
    vt.join()
    vfuns, vproblem = vres.get("r", ([], None if prop not in V_FUNCTIONS else "no result"))
    vproved = {f["id"] for f in vfuns if f["verdict"] == "proved"}
    def lifts(g):
        if g not in V_LIFT:
            return False
        if V_LIFT[g] is None:
            return bool(vfuns) and len(vproved) == len(vfuns)
        return set(V_LIFT[g]) <= vproved
    replay_dir = os.path.join(BUILD, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    alarms, problems, functions = [], [], []
    obl = dis = evals = checks = 0
    backends = {"normal form": 0, "z3": 0}
    solver = 0.0
    bounded, undecided = [], []
    for g in goals:
        if g.get("crash"):
            problems.append("a goal crashed")
            continue
        num, sym = g.get("num") or {}, g.get("sym")
        evals += num.get("evaluations", 0)
        checks += num.get("checks", 0)
        what = f"{g['id']}: {g['about']}"
        lifted = lifts(g["id"])
        if g.get("bounded") and not lifted:
            bounded.append(f"{what} [bounded: {g['bounded']}]")
        rp = os.path.join(replay_dir, f"{prop}-{g['id']}.json")
        if sym:
            obl += sym["discharged"] + len(sym["failures"])
            dis += sym["discharged"]
            backends["normal form"] += sym["by_normal_form"]
            backends["z3"] += sym["by_z3"]
            solver += sym["z3_secs"]
            if sym["unsupported"] or not (sym["complete"] or sym["failures"]):
                undecided.append(f"{what}: {sym['unsupported'] or 'path or time limit'}; sampled only")
            elif lifted or not g.get("bounded"):
                functions.append({"contract": g["id"], "about": g["about"] + (f" [{g['bounded']}; any number by the row contracts below]" if lifted else ""), "obligations": sym["discharged"] + len(sym["failures"]),
                                  "paths": sym["paths"], "labels": sorted(sym["labels"])})
            if not sym["discharged"] and not sym["failures"] and not sym["unsupported"]:
                problems.append(f"{what}: vacuous (no obligation was generated)")
        if not num.get("evaluations") and "counterexample" not in g and not (sym and sym["failures"]):
            problems.append(f"{what}: vacuous (no input meets the precondition)")
        if "counterexample" in g:
            c = g["counterexample"]
            json.dump({"property": prop, "goal": g["id"], "about": g["about"], "failed_obligation": c["label"],
                       "counterexample": c, "symbolic_failures": (sym or {}).get("failures", []),
                       "replay": f"{HARNESS} replay {rp}"}, open(rp, "w"), indent=1)
            alarms.append((g["id"], c["label"], c["detail"], rp, True))
        elif sym and sym["failures"]:
            f = sym["failures"][0]
            json.dump({"property": prop, "goal": g["id"], "about": g["about"], "failed_obligation": f["label"],
                       "verifier_output": sym["failures"], "note": "no failing input found on the real code"},
                      open(rp, "w"), indent=1)
            alarms.append((g["id"], f["label"], f["why"], rp, False))
    # V layer: row contracts, for any number of rows
    vcontracts = []
    for f in vfuns:
        mine = V_FUNCTIONS[prop] is None or f["id"] in V_FUNCTIONS[prop]
        rec = {"function": f"{f['file']}:{f['line']} {f['owner']}::{f['fn']}", "contract": f.get("contract", ("deserialization contract" if f["kind"] == "visitor" else "row contract, any number of rows")),
               "back_end": f.get("back_end", "verus"), "verdict": f["verdict"], "secs": f["secs"]}
        if f["verdict"] != "proved":
            rec["why"] = f["why"][:300]
        vcontracts.append(rec)
        if f["verdict"] == "undecided":
            undecided.append(f"{rec['contract']}: {f['owner']}::{f['fn']}: {f['why'][:300]}")
            continue
        obl += max(f["n"], 1)
        dis += f["n"] if f["verdict"] == "proved" else 0
        backends[rec["back_end"]] = backends.get(rec["back_end"], 0) + (f["n"] if f["verdict"] == "proved" else 0)
        solver += f["secs"]
        if f["verdict"] == "failed" and mine:
            rp = os.path.join(replay_dir, f"{prop}-{f['id']}.json")
            json.dump({"property": prop, "function": rec["function"], "failed_obligation": f"{rec['contract']}: {f['owner']}::{f['fn']}: {f['why']}",
                       "verifier_output": f["out"], "counterexample_of_the_extracted_function": f.get("witness"), "generated": f.get("generated", ""), "note": "no failing input found on the real code"}, open(rp, "w"), indent=1)
            alarms.append((f["id"], rec["contract"], f["why"], rp, False))
    if inspects:
        undecided.append(f"the code inspects the scalar type ({', '.join(inspects)}): paths depending on it are only sampled, for f32 and f64")
    if state:
        undecided.append(f"the code keeps state between calls ({', '.join(state)}): no contract is proved, pairs of calls are sampled")
    if vproblem:
        undecided.append("row contracts: " + vproblem)
    if not goals:
        problems.append("no contract for this property")

    # findings recorded in known-findings.jsonl suppress only their own obligation
    kf = [k for k in known() if k.get("property") == prop and k.get("status") == "known"]
    left = []
    for a in alarms:
        m = [k for k in kf if k.get("goal") == a[0] and k.get("obligation") == a[1]]
        if m:
            say(f"KNOWN-FINDING: property={prop} {m[0]['what']}")
        else:
            left.append(a)

    trust = [s for s in S_TRUST if prop != "C19" or not s.startswith("machine arithmetic")] + (ROUND_TRUST if prop == "C19" else []) + (vlayer.VISIT_TRUST if prop == "C16" else vlayer.TRUST if vfuns and prop != "C18" else []) + (lsq.TRUST if prop in ("C13", "C14") else []) + (grid.TRUST if prop == "C18" else [])
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": level(prop),
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": f"python3 check.py {prop}",
            "trusted_base": trust,
            "back_ends": backends, "solver_secs": round(solver, 2),
            "functions_under_contract": functions,
            "row_contracts": vcontracts,
            "bounded_not_proved": bounded,
            "undecided": undecided,
            "evaluations": evals, "distinct_nontrivial": evals,
            "numeric_checks": checks,
            "rule": "a case is one float input drawn for a contract (seeded); it counts when every precondition holds and at least one postcondition was evaluated on the real code",
            "samples": [g.get("id") for g in goals][:3],
        },
        "assumptions": trust, "violations": len(left), "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    for u in undecided:
        say("UNDECIDED", u)
    if left:
        left.sort(key=lambda a: not a[4])
        for a in left:
            say(f"failed obligation {a[0]}: {a[1]}: {a[2][:300]}")
        a = left[0]
        say(f"VIOLATION property={prop} replay={a[3]}" + ("" if a[4] else " no-failing-input-found"))
        sys.exit(1)
    if problems:
        for p in problems:
            say("ERROR:", p)
        sys.exit(2)
    say(f"{prop}: {dis}/{obl} obligations discharged ({backends}), {evals} float evaluations, {ev['wall_s']} s")

def level(prop):
    m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    for c in m["checks"]:
        if c["property"] == prop:
            return c["level"]
    return "proof"

if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        build_harness()
        say(vlayer.build()[1][-2000:])
        p, why = vlayer.expand()
        if p:
            os.remove(p)
        say(why or "")
    else:
        main()
