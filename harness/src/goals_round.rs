//! Rounding contracts: how far a result in f32 or f64 is from the exact one.
use crate::common::*;
use crate::goals_basic::{sd_bundle, so_bundle};
use crate::scalar::Scalar;
use cam_geom::ray_bundle_types::*;
use cam_geom::*;
use nalgebra::*;

/// rounding units allowed: for a formula without a rotation, with one, and with
/// a division by a depth that was itself computed (kappa below)
const PLAIN: f64 = 32.0;
const ROT: f64 = 1024.0;
const DEEP: f64 = 8192.0;
/// with a normalisation of a rotated vector
const AXIS: f64 = 4096.0;
const KAPPA: f64 = 4.0;

fn w3<S: Scalar>(n: &str) -> [S; 3] {
    [S::wide(&format!("{n}x")), S::wide(&format!("{n}y")), S::wide(&format!("{n}z"))]
}
fn w2<S: Scalar>(n: &str) -> [S; 2] {
    [S::wide(&format!("{n}u")), S::wide(&format!("{n}v"))]
}
fn wpp<S: Scalar>() -> PP<S> {
    PP { fx: S::wide("fx"), fy: S::wide("fy"), skew: S::wide("skew"), cx: S::wide("cx"), cy: S::wide("cy") }
}
fn wop<S: Scalar>() -> [S; 4] {
    [S::wide("sx"), S::wide("sy"), S::wide("cx"), S::wide("cy")]
}
fn wext<S: Scalar>() -> Ext<S> {
    let c = w3("C");
    let q = S::unit_quat("q");
    Ext { e: ExtrinsicParameters::from_rotation_and_camcenter(uq(q), p3(c)), r: rotm(q), c, q }
}
fn acc3<S: Scalar>(l: &str, a: [S; 3], b: [S; 3], t: [&[S]; 3], lim: f64) {
    for i in 0..3 {
        S::accurate(&format!("{l}[{i}]"), a[i], b[i], t[i], lim);
    }
}
fn cat<S: Scalar>(l: &[&[S]]) -> Vec<S> {
    l.concat()
}
fn times<S: Scalar>(k: &[S], t: &[S]) -> Vec<S> {
    let mut r = vec![];
    for &a in k {
        for &b in t {
            r.push(a * b);
        }
    }
    r
}

pub fn c19_persp_project<S: Scalar>() {
    S::rounding();
    let pp = wpp::<S>();
    let p = w3::<S>("p");
    S::assume_nz(p[2]);
    let o = r2(&pp.model().camera_to_pixel(&pt::<CameraFrame, S>(p)).data, 0);
    let e = pp.project(p);
    S::accurate("u", o[0], e[0], &[pp.fx * p[0] / p[2], pp.skew * p[1] / p[2], pp.cx], PLAIN);
    S::accurate("v", o[1], e[1], &[pp.fy * p[1] / p[2], pp.cy], PLAIN);
}
/// the direction (x/z, y/z) of the ray of pixel q, and the terms of its formula
fn back<S: Scalar>(pp: &PP<S>, q: [S; 2]) -> ([S; 2], [Vec<S>; 2]) {
    let y = (q[1] - pp.cy) / pp.fy;
    let x = (q[0] - pp.skew * y - pp.cx) / pp.fx;
    let ty = vec![q[1] / pp.fy, pp.cy / pp.fy];
    let mut tx = vec![q[0] / pp.fx, pp.cx / pp.fx];
    tx.extend(ty.iter().map(|&t| pp.skew * t / pp.fx));
    ([x, y], [tx, ty])
}
pub fn c19_persp_back<S: Scalar>() {
    S::rounding();
    let pp = wpp::<S>();
    S::assume_nz(pp.fx);
    S::assume_nz(pp.fy);
    let q = w2::<S>("q");
    let d = r3(&pp.model().pixel_to_camera(&px(q)).directions(), 0);
    let (e, t) = back(&pp, q);
    S::accurate("x/z", d[0] / d[2], e[0], &t[0], PLAIN);
    S::accurate("y/z", d[1] / d[2], e[1], &t[1], PLAIN);
}
pub fn c19_ortho<S: Scalar>() {
    S::rounding();
    let o = wop::<S>();
    let p = w3::<S>("p");
    let u = r2(&omodel(o).camera_to_pixel(&pt::<CameraFrame, S>(p)).data, 0);
    let q = w2::<S>("q");
    S::assume_nz(o[0]);
    S::assume_nz(o[1]);
    let c = r3(&omodel(o).pixel_to_camera(&px(q)).centers(), 0);
    for i in 0..2 {
        S::accurate("pixel", u[i], o[i] * p[i] + o[i + 2], &[o[i] * p[i], o[i + 2]], PLAIN);
        S::accurate("ray centre", c[i], (q[i] - o[i + 2]) / o[i], &[q[i] / o[i], o[i + 2] / o[i]], PLAIN);
    }
}
pub fn c19_rigid<S: Scalar>() {
    S::rounding();
    let x = wext::<S>();
    let p = w3::<S>("p");
    let t = cat(&[&p, &x.c]);
    let o = r3(&x.e.world_to_camera(&pt::<WorldFrame, S>(p)).data, 0);
    acc3("world to camera", o, mv(x.r, sub3(p, x.c)), [&t, &t, &t], ROT);
    let o = r3(&x.e.camera_to_world(&pt::<CameraFrame, S>(p)).data, 0);
    acc3("camera to world", o, add3(mtv(x.r, p), x.c), [&t, &t, &t], ROT);
}
pub fn c19_views<S: Scalar>() {
    S::rounding();
    let x = wext::<S>();
    let one = [S::int(1)];
    let c = x.e.camcenter().coords;
    let t = x.e.translation();
    let et = mul3(-S::int(1), mv(x.r, x.c));
    acc3("centre", [c[0], c[1], c[2]], x.c, [&[x.c[0]], &[x.c[1]], &[x.c[2]]], PLAIN);
    acc3("translation", [t[0], t[1], t[2]], et, [&x.c, &x.c, &x.c], ROT);
    let m = x.e.matrix();
    for i in 0..3 {
        for j in 0..3 {
            S::accurate("matrix, rotation", m[(i, j)], x.r[i][j], &one, ROT);
        }
        S::accurate("matrix, translation", m[(i, 3)], et[i], &x.c, ROT);
    }
    S::depth(S::int(1), &one, 1.0);
    let (f, u, r) = (x.e.forward(), x.e.up(), x.e.right());
    for j in 0..3 {
        S::accurate("forward", f[j], x.r[2][j], &one, AXIS);
        S::accurate("up", u[j], -x.r[1][j], &one, AXIS);
        S::accurate("right", r[j], x.r[0][j], &one, AXIS);
    }
}
fn wiso<S: Scalar>() -> (Isometry3<S>, [[S; 3]; 3], [S; 3]) {
    let t = w3::<S>("t");
    let q = S::unit_quat("q");
    (Isometry3::from_parts(Translation3::new(t[0], t[1], t[2]), uq(q)), rotm(q), t)
}
pub fn c19_pose<S: Scalar>() {
    S::rounding();
    let (iso, r, t) = wiso::<S>();
    let p = w3::<S>("p");
    let x = ExtrinsicParameters::from_pose(&iso);
    let c = x.camcenter().coords;
    acc3("centre", [c[0], c[1], c[2]], mul3(-S::int(1), mtv(r, t)), [&t, &t, &t], 4.0 * ROT);
    let ts = cat(&[&p, &t]);
    let o = r3(&x.world_to_camera(&pt::<WorldFrame, S>(p)).data, 0);
    acc3("world to camera", o, add3(mv(r, p), t), [&ts, &ts, &ts], 4.0 * ROT);
    let o = r3(&x.camera_to_world(&pt::<CameraFrame, S>(p)).data, 0);
    acc3("camera to world", o, mtv(r, sub3(p, t)), [&ts, &ts, &ts], 4.0 * ROT);
}
pub fn c19_rays<S: Scalar>() {
    S::rounding();
    let x = wext::<S>();
    let d = w3::<S>("d");
    let b = RayBundle::<CameraFrame, _, S, _, _>::new_shared_zero_origin(row3(d[0], d[1], d[2]));
    let w = x.e.ray_camera_to_world(&b);
    let t = cat(&[&d, &x.c]);
    let one = [S::int(1)];
    acc3("shared origin: centre", r3(&w.centers(), 0), x.c, [&x.c, &x.c, &x.c], ROT);
    acc3("shared origin: direction", r3(&w.directions(), 0), mtv(x.r, d), [&d, &d, &d], ROT);
    let b = RayBundle::<CameraFrame, _, S, _, _>::new_shared_plusz_direction(row3(d[0], d[1], d[2]));
    let w = x.e.ray_camera_to_world(&b);
    acc3("shared direction: centre", r3(&w.centers(), 0), add3(mtv(x.r, d), x.c), [&t, &t, &t], ROT);
    acc3("shared direction: direction", r3(&w.directions(), 0), x.r[2], [&one, &one, &one], ROT);
}
pub fn c19_pose_origin<S: Scalar>() {
    S::rounding();
    let (iso, r, t) = wiso::<S>();
    let (c, d) = (w3::<S>("o"), w3::<S>("d"));
    let w: RayBundle<WorldFrame, SharedOriginRayBundle<S>, S, _, _> = so_bundle(c).to_pose(iso, &row3(d[0], d[1], d[2]));
    let ts = cat(&[&c, &t]);
    acc3("centre", r3(&w.centers(), 0), add3(mv(r, c), t), [&ts, &ts, &ts], ROT);
    acc3("direction", r3(&w.directions(), 0), mv(r, d), [&d, &d, &d], ROT);
}
pub fn c19_pose_direction<S: Scalar>() {
    S::rounding();
    let (iso, r, t) = wiso::<S>();
    let (c, d) = (w3::<S>("o"), w3::<S>("d"));
    let w: RayBundle<WorldFrame, SharedDirectionRayBundle<S>, S, _, _> = sd_bundle(d).to_pose(iso, &row3(c[0], c[1], c[2]));
    let ts = cat(&[&c, &t]);
    acc3("centre", r3(&w.centers(), 0), add3(mv(r, c), t), [&ts, &ts, &ts], ROT);
    acc3("direction", r3(&w.directions(), 0), mv(r, d), [&d, &d, &d], ROT);
}
pub fn c19_distance<S: Scalar>() {
    S::rounding();
    let (c, d) = (w3::<S>("o"), w3::<S>("d"));
    S::assume_nz(d[2]);
    let k = S::wide("dist");
    let n = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
    let go = |l: &str, p: Points<WorldFrame, S, U1, Owned<S, U1, U3>>| {
        let p = r3(&p.data, 0);
        for i in 0..3 {
            S::accurate(l, p[i], c[i] + k * d[i] / n, &[c[i], k * d[i] / n], PLAIN);
        }
    };
    go("shared origin", so_bundle(c).point_on_ray_at_distance(&row3(d[0], d[1], d[2]), k));
    go("shared direction", sd_bundle(d).point_on_ray_at_distance(&row3(c[0], c[1], c[2]), k));
}
pub fn c19_camera_persp<S: Scalar>() {
    S::rounding();
    let pp = wpp::<S>();
    let x = wext::<S>();
    let cam = Camera::new(pp.model(), ExtrinsicParameters::from_rotation_and_camcenter(uq(x.q), p3(x.c)));
    let p = w3::<S>("p");
    let e = mv(x.r, sub3(p, x.c));
    let t = cat(&[&p, &x.c]);
    S::depth(e[2], &t, KAPPA);
    // (fx x + skew y + cx z) / z and (fy y + cy z) / z
    let tz: Vec<S> = t.iter().map(|&t| t / e[2]).collect();
    let o = r2(&cam.world_to_pixel(&pt::<WorldFrame, S>(p)).data, 0);
    let s = pp.project(e);
    S::accurate("u", o[0], s[0], &cat(&[&times(&[pp.fx, pp.skew, pp.cx], &tz), &[pp.cx]]), DEEP);
    S::accurate("v", o[1], s[1], &cat(&[&times(&[pp.fy, pp.cy], &tz), &[pp.cy]]), DEEP);
}
pub fn c19_camera_back<S: Scalar>() {
    S::rounding();
    let pp = wpp::<S>();
    let x = wext::<S>();
    let cam = Camera::new(pp.model(), ExtrinsicParameters::from_rotation_and_camcenter(uq(x.q), p3(x.c)));
    S::assume_nz(pp.fx);
    S::assume_nz(pp.fy);
    let q = w2::<S>("q");
    let w = cam.pixel_to_world(&px(q));
    let (e, t) = back(&pp, q);
    let t = cat(&[&t[0], &t[1], &[S::int(1)]]);
    acc3("ray direction", r3(&w.directions(), 0), mtv(x.r, [e[0], e[1], S::int(1)]), [&t, &t, &t], ROT);
    acc3("ray centre", r3(&w.centers(), 0), x.c, [&x.c, &x.c, &x.c], ROT);
}
pub fn c19_camera_ortho<S: Scalar>() {
    S::rounding();
    let m = wop::<S>();
    let x = wext::<S>();
    let cam = Camera::new(omodel(m), ExtrinsicParameters::from_rotation_and_camcenter(uq(x.q), p3(x.c)));
    let p = w3::<S>("p");
    let e = mv(x.r, sub3(p, x.c));
    let t = cat(&[&p, &x.c]);
    let o = r2(&cam.world_to_pixel(&pt::<WorldFrame, S>(p)).data, 0);
    for i in 0..2 {
        S::accurate("pixel", o[i], m[i] * e[i] + m[i + 2], &cat(&[&times(&[m[i]], &t), &[m[i + 2]]]), ROT);
    }
    let q = w2::<S>("q");
    S::assume_nz(m[0]);
    S::assume_nz(m[1]);
    let w = cam.pixel_to_world(&px(q));
    let c = [(q[0] - m[2]) / m[0], (q[1] - m[3]) / m[1], S::int(0)];
    let t = cat(&[&[q[0] / m[0], m[2] / m[0], q[1] / m[1], m[3] / m[1]], &x.c]);
    acc3("ray centre", r3(&w.centers(), 0), add3(mtv(x.r, c), x.c), [&t, &t, &t], ROT);
    let one = [S::int(1)];
    acc3("ray direction", r3(&w.directions(), 0), x.r[2], [&one, &one, &one], ROT);
}
pub fn c19_jacobian<S: Scalar>() {
    S::rounding();
    let pp = wpp::<S>();
    S::assume_nz(pp.fx);
    S::assume_nz(pp.fy);
    let x = wext::<S>();
    let cam = Camera::new(pp.model(), ExtrinsicParameters::from_rotation_and_camcenter(uq(x.q), p3(x.c)));
    let p = w3::<S>("p");
    let e = mv(x.r, sub3(p, x.c));
    let t = cat(&[&p, &x.c]);
    S::depth(e[2], &t, KAPPA);
    let j = cam_geom::linearize::JacobianPerspectiveCache::new(&cam).linearize_at(&pt::<WorldFrame, S>(p));
    // quotient rule on the rows of the projection matrix
    let k = [[pp.fx, pp.skew, pp.cx], [S::int(0), pp.fy, pp.cy]];
    for a in 0..2 {
        for b in 0..3 {
            let n = dot(k[a], e);
            let dn = dot(k[a], [x.r[0][b], x.r[1][b], x.r[2][b]]);
            let ks: Vec<S> = if a == 0 { vec![pp.fx, pp.skew, pp.cx] } else { vec![pp.fy, pp.cy] };
            let mut ts: Vec<S> = times(&ks, &t).iter().map(|&y| y / e[2] / e[2]).collect();
            ts.extend(ks.iter().map(|&y| y / e[2]));
            S::accurate(&format!("d{a}{b}"), j[(a, b)], dn / e[2] - n * x.r[2][b] / (e[2] * e[2]), &ts, DEEP);
        }
    }
}
