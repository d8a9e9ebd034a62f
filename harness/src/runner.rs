//! Runs goals: symbolically over all paths, and numerically on the real code.
use crate::eng::*;
use crate::goals_basic as g;
use crate::goals_ext as x;
use crate::goals_matrix as gm;
use crate::goals_round as gr;
use crate::scalar::*;
use crate::sym::{with, Sym};
use serde_json::{json, Value};
use std::any::Any;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub struct Goal {
    pub id: &'static str,
    pub prop: &'static str,
    /// functions of the crate whose contract this is
    pub about: &'static str,
    /// set when the goal does not cover all inputs
    pub bounded: Option<&'static str>,
    pub sym: Option<fn()>,
    pub num: Option<fn()>,
    pub num32: Option<fn()>,
    pub samples: usize,
}

macro_rules! goals {
    ($($prop:literal $m:ident::$f:ident $about:literal $(bounded $b:literal)?;)*) => {
        vec![$(Goal { id: stringify!($f), prop: $prop, about: $about, bounded: None$(.or(Some($b)))?,
            sym: Some(|| $m::$f::<Sym>()), num: Some(|| $m::$f::<f64>()), num32: Some(|| $m::$f::<f32>()), samples: 200 }),*]
    };
}

const ROWS3: &str = "rows: 2-4 rows with independent symbolic values";

pub fn all() -> Vec<Goal> {
    let mut v = goals! {
        "C01" g::c01_row "IntrinsicParametersPerspective::camera_to_pixel";
        "C01" g::c01_rows_static "IntrinsicParametersPerspective::camera_to_pixel" bounded "3 rows";
        "C01" g::c01_rows_dyn "IntrinsicParametersPerspective::camera_to_pixel" bounded "4 rows";
        "C02" g::c02_back "IntrinsicParametersPerspective::pixel_to_camera";
        "C02" g::c02_distance "IntrinsicParametersPerspective::pixel_to_camera, RayBundle::point_on_ray_at_distance";
        "C02" g::c02_converse "IntrinsicParametersPerspective::{camera_to_pixel,pixel_to_camera}";
        "C02" g::c02_rows "IntrinsicParametersPerspective::pixel_to_camera" bounded "3 rows";
        "C03" g::c03_project "IntrinsicParametersOrthographic::camera_to_pixel";
        "C03" g::c03_back "IntrinsicParametersOrthographic::pixel_to_camera";
        "C03" g::c03_converse "IntrinsicParametersOrthographic::{camera_to_pixel,pixel_to_camera}";
        "C03" g::c03_rows "IntrinsicParametersOrthographic::{camera_to_pixel,pixel_to_camera}" bounded "3 rows";
        "C04" g::c04_forward "ExtrinsicParameters::world_to_camera";
        "C04" g::c04_backward "ExtrinsicParameters::camera_to_world";
        "C04" g::c04_inverse "ExtrinsicParameters::{world_to_camera,camera_to_world}";
        "C04" g::c04_rigid "ExtrinsicParameters::{world_to_camera,camera_to_world}";
        "C04" g::c04_rows "ExtrinsicParameters::{world_to_camera,camera_to_world}" bounded "3 rows";
        "C05" g::c05_parts "ExtrinsicParameters::from_rotation_and_camcenter";
        "C05" g::c05_clone "ExtrinsicParameters::clone";
        "C05" g::c05_pose "ExtrinsicParameters::from_pose";
        "C05" g::c05_serde "ExtrinsicParameters::deserialize";
        "C05" g::c05_view "ExtrinsicParameters::from_view";
        "C06" g::c06_view "ExtrinsicParameters::from_view";
        "C06" g::c06_axes "ExtrinsicParameters::{forward,up,right,lookdir}";
        "C07" g::c07_origin "SharedOriginRayBundle as Bundle" bounded "3 rows";
        "C07" g::c07_direction "SharedDirectionRayBundle as Bundle" bounded "3 rows";
        "C07" g::c07_wrappers "RayBundle" bounded "3 rows";
        "C08" g::c08_origin "ExtrinsicParameters::ray_camera_to_world" bounded "3 rows";
        "C08" g::c08_direction "ExtrinsicParameters::ray_camera_to_world" bounded "3 rows";
        "C08" g::c08_pose_origin "SharedOriginRayBundle::to_pose" bounded "3 rows";
        "C08" g::c08_pose_direction "SharedDirectionRayBundle::to_pose" bounded "3 rows";
        "C08" g::c08_distance "ExtrinsicParameters::ray_camera_to_world";
        "C09" g::c09_user "Camera::{world_to_pixel,pixel_to_world}" bounded "2 rows";
        "C09" g::c09_user_dir "Camera::{world_to_pixel,pixel_to_world}" bounded "2 rows";
        "C09" g::c09_persp "Camera::{world_to_pixel,pixel_to_world}" bounded "2 rows";
        "C09" g::c09_ortho "Camera::{world_to_pixel,pixel_to_world}" bounded "2 rows";
        "C09" g::c09_accessors "Camera::{new,extrinsics,intrinsics}";
        "C09" g::c09_round_persp "Camera::{world_to_pixel,pixel_to_world}";
        "C09" g::c09_visible_persp "Camera::{world_to_pixel,pixel_to_world}";
        "C09" g::c09_round_ortho "Camera::{world_to_pixel,pixel_to_world}";
        "C10" g::c10_matrix "Camera::as_camera_matrix";
        "C11" gm::c11_ppp "Camera::from_perspective_matrix";
        "C11" gm::c11_ppn "Camera::from_perspective_matrix";
        "C11" gm::c11_pnp "Camera::from_perspective_matrix";
        "C11" gm::c11_pnn "Camera::from_perspective_matrix";
        "C11" gm::c11_npp "Camera::from_perspective_matrix";
        "C11" gm::c11_npn "Camera::from_perspective_matrix";
        "C11" gm::c11_nnp "Camera::from_perspective_matrix";
        "C11" gm::c11_nnn "Camera::from_perspective_matrix";
        "C12" g::c12_jacobian "JacobianPerspectiveCache::{new,linearize_at}";
        "C13" x::c13_pinv "nalgebra's SVD::pseudo_inverse, as called by my_pinv";
        "C14" x::c14_pinv "nalgebra's SVD::pseudo_inverse, as called by my_pinv";
        "C15" x::c15_params "PerspectiveParams::into, IntrinsicParametersPerspective::{fx,fy,skew,cx,cy,params,clone,camera_to_pixel}";
        "C15" x::c15_matrix "IntrinsicParametersPerspective::from_normalized_3x4_matrix";
        "C16" x::c16_extrinsics "ExtrinsicParameters::{serialize,deserialize}" bounded "field sequences: every order, one field missing, given twice or unknown at every position, every truncated sequence";
        "C16" x::c16_intrinsics "IntrinsicParametersPerspective, IntrinsicParametersOrthographic, PerspectiveParams, OrthographicParams: serialize, deserialize" bounded "field sequences as above";
        "C16" x::c16_camera "Camera: serialize, deserialize" bounded "field sequences as above";
        "C16" x::c16_bundles "RayBundle: serialize, deserialize" bounded "two rays";
        "C17" x::c17_small "every operation on points, pixels and rays" bounded "1-3 rows; static, dynamic, strided and row-major storage";
        "C17" x::c17_none "every operation on points, pixels and rays" bounded "no rows";
        "C19" gr::c19_persp_project "IntrinsicParametersPerspective::camera_to_pixel";
        "C19" gr::c19_persp_back "IntrinsicParametersPerspective::pixel_to_camera";
        "C19" gr::c19_ortho "IntrinsicParametersOrthographic::{camera_to_pixel,pixel_to_camera}";
        "C19" gr::c19_rigid "ExtrinsicParameters::{world_to_camera,camera_to_world}";
        "C19" gr::c19_views "ExtrinsicParameters::{from_rotation_and_camcenter,camcenter,translation,matrix,forward,up,right}";
        "C19" gr::c19_pose "ExtrinsicParameters::from_pose";
        "C19" gr::c19_rays "ExtrinsicParameters::ray_camera_to_world";
        "C19" gr::c19_pose_origin "SharedOriginRayBundle::to_pose";
        "C19" gr::c19_pose_direction "SharedDirectionRayBundle::to_pose";
        "C19" gr::c19_distance "RayBundle::point_on_ray_at_distance";
        "C19" gr::c19_camera_persp "Camera::world_to_pixel";
        "C19" gr::c19_camera_back "Camera::pixel_to_world";
        "C19" gr::c19_camera_ortho "Camera::{world_to_pixel,pixel_to_world}";
        "C19" gr::c19_jacobian "JacobianPerspectiveCache::{new,linearize_at}";
    };
    macro_rules! nums {
        ($($prop:literal $id:literal $f:expr, $n:literal $about:literal $b:literal;)*) => {
            $(v.push(Goal { id: $id, prop: $prop, about: $about, bounded: Some($b), sym: None, num: Some($f), num32: None, samples: $n });)*
        };
    }
    nums! {
        "C01" "c01_batch" x::c01_batch::<f64>, 60 "IntrinsicParametersPerspective::camera_to_pixel" "29 row counts up to 1025, each row against that row alone, f64";
        "C02" "c02_batch" x::c02_batch::<f64>, 60 "IntrinsicParametersPerspective::pixel_to_camera" "29 row counts up to 1025, each row against that row alone, f64";
        "C03" "c03_batch" x::c03_batch::<f64>, 60 "IntrinsicParametersOrthographic::{camera_to_pixel,pixel_to_camera}" "29 row counts up to 1025, each row against that row alone, f64";
        "C04" "c04_batch" x::c04_batch::<f64>, 60 "ExtrinsicParameters::{world_to_camera,camera_to_world}" "29 row counts up to 1025, each row against that row alone, f64";
        "C07" "c07_batch" x::c07_batch::<f64>, 60 "RayBundle::{directions,centers,point_on_ray,point_on_ray_at_distance}" "29 row counts up to 1025, each row against that row alone, f64";
        "C08" "c08_batch" x::c08_batch::<f64>, 60 "ExtrinsicParameters::ray_camera_to_world" "29 row counts up to 1025, each row against that row alone, f64";
        "C09" "c09_batch" x::c09_batch::<f64>, 60 "Camera::{world_to_pixel,pixel_to_world}" "13 row counts up to 257 against the two steps, f64";
        "C11" "c11_pos" gm::c11_pos::<f64>, 400 "Camera::from_perspective_matrix" "sampled matrices, f64";
        "C11" "c11_neg" gm::c11_neg::<f64>, 400 "Camera::from_perspective_matrix" "sampled matrices, f64";
        "C13" "c13_lsq_f64" x::c13_lsq::<f64>, 20000 "best_intersection_of_rays, my_pinv" "sampled lists of 2-257 rays, f64";
        "C13" "c13_lsq_f32" x::c13_lsq::<f32>, 5000 "best_intersection_of_rays, my_pinv" "sampled lists of 2-257 rays, f32";
        "C13" "c13_common_point_f64" x::c13_common_point::<f64>, 10000 "best_intersection_of_rays, my_pinv" "sampled lists of 2-257 rays, f64";
        "C13" "c13_common_point_f32" x::c13_common_point::<f32>, 3000 "best_intersection_of_rays, my_pinv" "sampled lists of 2-257 rays, f32";
        "C13" "c13_too_few" x::c13_too_few::<f64>, 50 "best_intersection_of_rays" "no or one ray";
        "C14" "c14_redescribe_f64" x::c14_redescribe::<f64>, 20000 "best_intersection_of_rays, my_pinv" "sampled lists of 2-257 rays, f64";
        "C14" "c14_redescribe_f32" x::c14_redescribe::<f32>, 5000 "best_intersection_of_rays, my_pinv" "sampled lists of 2-257 rays, f32";
        "C15" "c15_special_f64" x::c15_special::<f64>, 3 "IntrinsicParametersPerspective::from_normalized_3x4_matrix" "33 special values in each fixed entry and in pairs of them, f64";
        "C15" "c15_special_f32" x::c15_special::<f32>, 3 "IntrinsicParametersPerspective::from_normalized_3x4_matrix" "33 special values in each fixed entry and in pairs of them, f32";
        "C17" "c17_many_f64" x::c17_many::<f64>, 360 "every operation on points, pixels and rays" "row counts up to 1025, sampled entries with NaN and infinities, f64";
        "C17" "c17_many_f32" x::c17_many::<f32>, 180 "every operation on points, pixels and rays" "row counts up to 1025, sampled entries with NaN and infinities, f32";
        "C18" "c18_grid" x::c18_grid, 2 "intrinsic_test_utils::{roundtrip_intrinsics,generate_uv_raw}" "all grids up to 8x8, steps 1-4, borders 0-3";
        "C18" "c18_detects" x::c18_detects, 2 "intrinsic_test_utils::{roundtrip_intrinsics,generate_uv_raw}" "seven grids, every pixel and coordinate disturbed";
        "C18" "c18_large" x::c18_large, 200 "intrinsic_test_utils::{roundtrip_intrinsics,generate_uv_raw}" "sampled grids up to 300x200";
        "C18" "c18_huge" x::c18_huge, 14 "intrinsic_test_utils::{roundtrip_intrinsics,generate_uv_raw}" "sampled grids up to 400000 pixels, coordinates up to 2^33";
    }
    let _ = ROWS3;
    v.sort_by_key(|g| g.prop);
    v
}

pub enum Out {
    Done,
    Infeasible,
    Reject,
    Unsupported(String),
    Panic(String),
}
pub fn guarded(f: fn()) -> Out {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Out::Done,
        Err(e) => classify(e),
    }
}
pub fn classify(e: Box<dyn Any + Send>) -> Out {
    if e.is::<Infeasible>() {
        Out::Infeasible
    } else if e.is::<Reject>() {
        Out::Reject
    } else if let Some(u) = e.downcast_ref::<Unsupported>() {
        Out::Unsupported(u.0.clone())
    } else if let Some(s) = e.downcast_ref::<String>() {
        Out::Panic(s.clone())
    } else if let Some(s) = e.downcast_ref::<&str>() {
        Out::Panic(s.to_string())
    } else {
        Out::Panic("panic".into())
    }
}

pub struct SymRes {
    pub stats: Stats,
    pub unsupported: Option<String>,
    pub complete: bool,
    pub wall: f64,
}

/// Explore every path of a goal.
pub fn run_sym(f: fn(), max_paths: usize, max_secs: f64, z3_ms: u64, reverse: bool) -> SymRes {
    let t0 = Instant::now();
    with(|e| {
        *e = Eng::new();
        e.z3_timeout_ms = z3_ms;
        e.reverse = reverse;
    });
    let mut prefix: Vec<u8> = vec![];
    let mut stack: Vec<(u8, Vec<u8>)> = vec![];
    let mut unsupported = None;
    let mut complete = true;
    let mut failed_at: Option<Instant> = None;
    loop {
        with(|e| {
            e.reset_path();
            e.prefix = prefix.clone();
        });
        let out = guarded(f);
        with(|e| {
            e.stats.paths += 1;
            match out {
                Out::Done => {}
                Out::Infeasible | Out::Reject => e.stats.infeasible += 1,
                Out::Unsupported(s) => unsupported = Some(s),
                Out::Panic(s) => e.fail("no panic", format!("the code panics: {}", s), None),
            }
        });
        // merge the decisions taken on this run into the stack
        let rec = with(|e| std::mem::take(&mut e.record));
        for (k, r) in rec.into_iter().enumerate() {
            if k >= stack.len() {
                stack.push(r);
            }
        }
        // backtrack
        loop {
            match stack.pop() {
                None => break,
                Some((_, rest)) => {
                    if let Some((&n, tail)) = rest.split_first() {
                        stack.push((n, tail.to_vec()));
                        break;
                    }
                }
            }
        }
        if stack.is_empty() {
            break;
        }
        prefix = stack.iter().map(|x| x.0).collect();
        let (np, nf) = with(|e| (e.stats.paths, e.stats.failures.iter().filter(|f| f.status != "unproved").count()));
        if nf > 0 {
            // a failed obligation settles the goal: look a little further for
            // one with a model, then stop
            let t = *failed_at.get_or_insert_with(Instant::now);
            let models = with(|e| e.stats.failures.iter().filter(|f| f.model.is_some()).count());
            if models >= 3 || t.elapsed().as_secs_f64() > 20.0 {
                complete = false;
                break;
            }
        }
        if np >= max_paths || t0.elapsed().as_secs_f64() > max_secs {
            complete = false;
            break;
        }
        if unsupported.is_some() {
            complete = false;
            break;
        }
    }
    let stats = with(|e| std::mem::take(&mut e.stats));
    SymRes { stats, unsupported, complete, wall: t0.elapsed().as_secs_f64() }
}

pub struct NumFail {
    pub label: String,
    pub detail: String,
    pub vars: BTreeMap<String, f64>,
}
/// One numeric run. None: rejected by a precondition.
pub fn run_num(f: fn(), seed: u64, fixed: BTreeMap<String, f64>, wild: bool) -> Option<Result<usize, NumFail>> {
    nctx(|c| {
        *c = NumCtx { rng: seed, fixed, wild, ..Default::default() };
    });
    let out = guarded(f);
    let (fails, used, checks) = nctx(|c| (std::mem::take(&mut c.fails), c.used.clone(), c.checks));
    match out {
        Out::Done => {
            if let Some((l, d)) = fails.into_iter().next() {
                Some(Err(NumFail { label: l, detail: d, vars: used }))
            } else {
                Some(Ok(checks))
            }
        }
        Out::Panic(s) => Some(Err(NumFail { label: "no panic".into(), detail: s, vars: used })),
        _ => {
            // a precondition failed later on; failures before it still count only
            // if they were established before
            None
        }
    }
}

fn jmap(m: &BTreeMap<String, f64>) -> Value {
    Value::Object(m.iter().map(|(k, v)| (k.clone(), json!(v))).collect())
}

pub fn run_goal(goal: &Goal, seed: u64, thorough: bool) -> Value {
    let mut r = json!({ "id": goal.id, "about": goal.about, "bounded": goal.bounded });
    let mut cands: Vec<(BTreeMap<String, f64>, bool)> = vec![];
    let mut sym_ok = true;
    // with state that outlives a call the result of one call says nothing about the next:
    // nothing is proved, and pairs of calls are sampled
    let state = std::env::var("VERIF_STATE").map_or(false, |t| t == "yes");
    if let Some(f) = goal.sym.filter(|_| !state) {
        let mut s = run_sym(f, 400_000, if thorough { 1500.0 } else { 240.0 }, if thorough { 10000 } else { 3000 }, false);
        let obl: usize = s.stats.discharged.values().sum::<usize>();
        for x in &s.stats.failures {
            if let Some(m) = &x.model {
                cands.push((m.clone(), x.single));
            }
        }
        let (open, failures): (Vec<_>, Vec<_>) = std::mem::take(&mut s.stats.failures).into_iter().partition(|x| x.status == "unproved");
        s.stats.failures = failures;
        if let Some(x) = open.first() {
            s.unsupported.get_or_insert(format!("not proved, and not refuted at points of its path: {}", x.label));
        }
        if !s.stats.failures.is_empty() && cands.is_empty() && s.stats.failures.iter().all(|x| x.model.is_none()) {
            // no model on the paths met first: look at the last ones
            let t = run_sym(f, 400_000, 100.0, 3000, true);
            cands.extend(t.stats.failures.into_iter().filter_map(|x| x.model.map(|m| (m, x.single))));
        }
        sym_ok = s.stats.failures.is_empty() && s.complete && s.unsupported.is_none();
        r["sym"] = json!({
            "discharged": obl, "by_normal_form": s.stats.by_nf, "by_z3": s.stats.by_z3,
            "labels": s.stats.discharged,
            "paths": s.stats.paths, "infeasible_paths": s.stats.infeasible,
            "z3_calls": s.stats.z3_calls, "z3_secs": s.stats.z3_time, "secs": s.wall,
            "complete": s.complete, "unsupported": s.unsupported,
            "notes": s.stats.notes,
            "failures": s.stats.failures.iter().map(|x| json!({
                "label": x.label, "why": x.why, "path": x.path, "status": x.status,
                "model": x.model.as_ref().map(jmap) })).collect::<Vec<_>>(),
        });
    }
    let mut confirmed: Option<(NumFail, String)> = None;
    let mut evals = 0;
    let mut before: Option<BTreeMap<String, f64>> = None;
    let mut checks = 0;
    // rounding contracts are about both float types
    // and so is every contract when the code can tell them apart; the tolerance
    // for f32 is too narrow for a few
    let tight = goal.prop == "C11" || ["c02_converse", "c09_round_persp", "c09_visible_persp"].contains(&goal.id);
    let both = std::env::var("VERIF_TYPES").map_or(false, |t| t == "both");
    let both32 = goal.prop == "C19" || both && !tight;
    let runs = [(goal.num, "f64"), (if both32 || cands.iter().any(|c| c.1) { goal.num32 } else { None }, "f32")];
    for (f, ty) in runs.into_iter().filter_map(|(f, t)| f.map(|f| (f, t))) {
        let n = if !sym_ok || both || state { goal.samples * 20 } else if thorough { goal.samples * 5 } else { goal.samples };
        for (k, (c, single)) in cands.iter().enumerate() {
            if *single && ty == "f64" || !single && ty == "f32" && goal.prop != "C19" {
                continue;
            }
            // a model may leave variables open: fill them at random
            for j in 0..40u64 {
                if confirmed.is_some() {
                    break;
                }
                if let Some(x) = run_num(f, seed.wrapping_mul(7919) + 1000 * k as u64 + j, c.clone(), false) {
                    evals += 1;
                    match x {
                        Ok(k) => checks += k,
                        Err(e) => confirmed = Some((e, ty.to_string())),
                    }
                }
            }
        }
        if ty == "f32" && !both32 {
            // only the models of paths for single precision
            continue;
        }
        let mut done = 0;
        let mut tries = 0;
        while confirmed.is_none() && done < n && tries < n * 20 {
            tries += 1;
            let sd = seed.wrapping_mul(0x1000003) + tries as u64;
            if let Some(x) = run_num(f, sd, BTreeMap::new(), false) {
                done += 1;
                evals += 1;
                match x {
                    Ok(k) => checks += k,
                    Err(e) => confirmed = Some((e, ty.to_string())),
                }
                if state && confirmed.is_none() && done % 8 == 0 {
                    // the same input again, after one that differs in a single value
                    let first = nctx(|c| c.used.clone());
                    let names: Vec<&String> = first.keys().collect();
                    for j in 0..names.len().min(24) {
                        let name = names[(j + sd as usize) % names.len()];
                        let mut other = first.clone();
                        let old = first[name];
                        let new = match (j + done) % 3 {
                            0 if old != 0.0 => -old,
                            1 if old != 0.0 => 0.0,
                            _ => old + 1.0,
                        };
                        other.insert(name.clone(), new);
                        // (whichever of the two is remembered)
                        for (prior, now) in [(&first, &other), (&other, &first)] {
                            evals += 1;
                            match run_num(f, sd, now.clone(), false) {
                                Some(Err(e)) => {
                                    confirmed = Some((e, ty.to_string()));
                                    before = Some(prior.clone());
                                    break;
                                }
                                Some(Ok(k)) => checks += k,
                                None => {}
                            }
                        }
                        if confirmed.is_some() {
                            break;
                        }
                    }
                }
            }
        }
        if goal.sym.is_some() && done == 0 && confirmed.is_none() {
            r["num_vacuous"] = json!(true);
        }
    }
    r["num"] = json!({ "evaluations": evals, "checks": checks });
    if let Some((e, ty)) = confirmed {
        r["counterexample"] = json!({ "before": before.as_ref().map(jmap), "goal": goal.id, "type": ty, "label": e.label, "detail": e.detail, "vars": jmap(&e.vars) });
    }
    r
}

pub fn main() {
    // panics of the code under test are caught and judged
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    match cmd {
        "list" => {
            for g in all() {
                println!("{} {}", g.prop, g.id);
            }
        }
        "prop" => {
            let p = &args[2];
            let goals: Vec<Goal> = all().into_iter().filter(|g| g.prop == p.as_str()).collect();
            let mut out = vec![];
            for gl in goals {
                let h = std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn(move || run_goal(&gl, seed, thorough))
                    .unwrap();
                out.push(h);
            }
            let v: Vec<Value> = out.into_iter().map(|h| h.join().unwrap_or(json!({"crash": true}))).collect();
            println!("{}", serde_json::to_string_pretty(&v).unwrap());
        }
        "goal" => {
            for gl in all() {
                if gl.id == args[2] {
                    println!("{}", serde_json::to_string_pretty(&run_goal(&gl, seed, thorough)).unwrap());
                }
            }
        }
        "replay" => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let c = &v["counterexample"];
            let mut m = BTreeMap::new();
            if let Some(o) = c["vars"].as_object() {
                for (k, x) in o {
                    m.insert(k.clone(), x.as_f64().unwrap_or(f64::NAN));
                }
            }
            for gl in all() {
                if Some(gl.id) == c["goal"].as_str() {
                    let f = if c["type"] == "f32" { gl.num32 } else { gl.num };
                    if let Some(o) = c["before"].as_object() {
                        // the call before, in the same process
                        let b = o.iter().map(|(k, x)| (k.clone(), x.as_f64().unwrap_or(f64::NAN))).collect();
                        run_num(f.unwrap(), 1, b, false);
                    }
                    match run_num(f.unwrap(), 1, m.clone(), false) {
                        None => println!("rejected by a precondition"),
                        Some(Ok(n)) => println!("holds ({} checks)", n),
                        Some(Err(e)) => {
                            println!("FAILS {}: {}", e.label, e.detail);
                            std::process::exit(1);
                        }
                    }
                }
            }
        }
        _ => {
            eprintln!("usage: harness list | prop ID | goal NAME | replay FILE");
            std::process::exit(2);
        }
    }
}
