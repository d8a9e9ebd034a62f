//! Contracts of projection, back-projection, rigid motion, bundles and composition.
use crate::common::*;
use crate::scalar::Scalar;
use cam_geom::ray_bundle_types::*;
use cam_geom::*;
use nalgebra::*;

// ---------------------------------------------------------------- C01
pub fn c01_row<S: Scalar>() {
    let pp = pparams::<S>();
    let m = pp.model();
    let p = vec3::<S>("p");
    S::assume_nz(p[2]);
    let out = m.camera_to_pixel(&pt::<CameraFrame, S>(p));
    eq2("projected pixel", r2(&out.data, 0), pp.project(p));
}
pub fn c01_rows_static<S: Scalar>() {
    let pp = pparams::<S>();
    let m = pp.model();
    let ps = [vec3::<S>("p0"), vec3("p1"), vec3("p2")];
    let mut d = SMatrix::<S, 3, 3>::zeros();
    for i in 0..3 {
        S::assume_nz(ps[i][2]);
        for j in 0..3 {
            d[(i, j)] = ps[i][j];
        }
    }
    let out = m.camera_to_pixel(&Points::<CameraFrame, _, _, _>::new(d));
    for i in 0..3 {
        eq2("projected pixel", r2(&out.data, i), pp.project(ps[i]));
    }
}
pub fn c01_rows_dyn<S: Scalar>() {
    let pp = pparams::<S>();
    let m = pp.model();
    let n = 4;
    let mut d = OMatrix::<S, Dyn, U3>::from_element(n, S::int(0));
    let mut ps = vec![];
    for i in 0..n {
        let p = vec3::<S>(&format!("p{i}"));
        S::assume_nz(p[2]);
        for j in 0..3 {
            d[(i, j)] = p[j];
        }
        ps.push(p);
    }
    let out = m.camera_to_pixel(&Points::<CameraFrame, _, _, _>::new(d));
    S::check("row count", out.data.nrows() == n);
    for i in 0..n {
        eq2("projected pixel", r2(&out.data, i), pp.project(ps[i]));
    }
}

// ---------------------------------------------------------------- C02
pub fn c02_back<S: Scalar>() {
    let pp = pparams::<S>().nonzero();
    let m = pp.model();
    let q = vec2::<S>("q");
    let b = m.pixel_to_camera(&px(q));
    let c = r3(&b.centers(), 0);
    eq3("ray starts at the origin", c, [S::int(0); 3]);
    let d = r3(&b.directions(), 0);
    S::check("ray points forward", d[2] > S::int(0));
    let t = S::var_nz("t");
    let out = m.camera_to_pixel(&pt::<CameraFrame, S>(mul3(t, d)));
    eq2("point of the ray projects to the pixel", r2(&out.data, 0), q);
    let s = b.to_single_ray();
    eq3("single ray centre", r3(&s.center, 0), [S::int(0); 3]);
    eq3("single ray direction", r3(&s.direction, 0), d);
    let on = b.point_on_ray();
    let out = m.camera_to_pixel(&on);
    eq2("point_on_ray projects to the pixel", r2(&out.data, 0), q);
}
pub fn c02_distance<S: Scalar>() {
    let pp = pparams::<S>().nonzero();
    let m = pp.model();
    let q = vec2::<S>("q");
    let b = m.pixel_to_camera(&px(q));
    let d = S::var_nz("dist");
    let on = b.point_on_ray_at_distance(d);
    let out = m.camera_to_pixel(&on);
    eq2("point at distance projects to the pixel", r2(&out.data, 0), q);
}
pub fn c02_converse<S: Scalar>() {
    let pp = pparams::<S>().nonzero();
    let m = pp.model();
    let p = vec3::<S>("p");
    S::assume_nz(p[2]);
    let q = m.camera_to_pixel(&pt::<CameraFrame, S>(p));
    let b = m.pixel_to_camera(&q);
    let d = r3(&b.directions(), 0);
    eq3("point is on the line of its pixel", cross(d, p), [S::int(0); 3]);
    eq3("ray starts at the origin", r3(&b.centers(), 0), [S::int(0); 3]);
}
pub fn c02_rows<S: Scalar>() {
    let pp = pparams::<S>().nonzero();
    let m = pp.model();
    let n = 3;
    let mut d = OMatrix::<S, Dyn, U2>::from_element(n, S::int(0));
    for i in 0..n {
        let q = vec2::<S>(&format!("q{i}"));
        d[(i, 0)] = q[0];
        d[(i, 1)] = q[1];
    }
    let b = m.pixel_to_camera(&Pixels::new(d.clone()));
    S::check("row count", b.data.nrows() == n);
    let t = S::var_nz("t");
    let on = b.point_on_ray();
    for i in 0..n {
        S::check("ray points forward", r3(&on.data, i)[2] > S::int(0));
        let p = mul3(t, r3(&on.data, i));
        let out = m.camera_to_pixel(&pt::<CameraFrame, S>(p));
        eq2("point of the ray projects to the pixel", r2(&out.data, 0), r2(&d, i));
    }
}

// ---------------------------------------------------------------- C03
pub fn c03_project<S: Scalar>() {
    let p = oparams::<S>();
    let m = omodel(p);
    let x = vec3::<S>("p");
    let out = m.camera_to_pixel(&pt::<CameraFrame, S>(x));
    eq2("projected pixel", r2(&out.data, 0), [p[0] * x[0] + p[2], p[1] * x[1] + p[3]]);
}
pub fn c03_back<S: Scalar>() {
    let p = oparams::<S>();
    S::assume_nz(p[0]);
    S::assume_nz(p[1]);
    let m = omodel(p);
    let q = vec2::<S>("q");
    let b = m.pixel_to_camera(&px(q));
    let c = r3(&b.centers(), 0);
    S::check_eq("ray starts on z = 0", c[2], S::int(0));
    let d = r3(&b.directions(), 0);
    S::check_eq("direction x", d[0], S::int(0));
    S::check_eq("direction y", d[1], S::int(0));
    S::check("direction +z", d[2] > S::int(0));
    let t = S::var("t");
    let out = m.camera_to_pixel(&pt::<CameraFrame, S>(add3(c, mul3(t, d))));
    eq2("point of the ray projects to the pixel", r2(&out.data, 0), q);
    let dist = S::var("dist");
    let on = b.point_on_ray_at_distance(dist);
    eq2("point at distance projects to the pixel", r2(&m.camera_to_pixel(&on).data, 0), q);
    let on = b.point_on_ray();
    eq2("point_on_ray projects to the pixel", r2(&m.camera_to_pixel(&on).data, 0), q);
    let s = b.to_single_ray();
    eq3("single ray centre", r3(&s.center, 0), c);
    eq3("single ray direction", r3(&s.direction, 0), d);
}
pub fn c03_converse<S: Scalar>() {
    let p = oparams::<S>();
    S::assume_nz(p[0]);
    S::assume_nz(p[1]);
    let m = omodel(p);
    let x = vec3::<S>("p");
    let b = m.pixel_to_camera(&m.camera_to_pixel(&pt::<CameraFrame, S>(x)));
    let c = r3(&b.centers(), 0);
    S::check_eq("x recovered", c[0], x[0]);
    S::check_eq("y recovered", c[1], x[1]);
}
pub fn c03_rows<S: Scalar>() {
    let p = oparams::<S>();
    S::assume_nz(p[0]);
    S::assume_nz(p[1]);
    let m = omodel(p);
    let n = 3;
    let mut d = OMatrix::<S, Dyn, U2>::from_element(n, S::int(0));
    for i in 0..n {
        let q = vec2::<S>(&format!("q{i}"));
        d[(i, 0)] = q[0];
        d[(i, 1)] = q[1];
    }
    let b = m.pixel_to_camera(&Pixels::new(d.clone()));
    S::check("row count", b.data.nrows() == n);
    let t = S::var("t");
    let on = b.point_on_ray_at_distance(t);
    let back = m.camera_to_pixel(&on);
    for i in 0..n {
        eq2("point at distance projects to the pixel", r2(&back.data, i), r2(&d, i));
        S::check_eq("ray starts on z = 0", b.data[(i, 2)], S::int(0));
    }
}

// ---------------------------------------------------------------- C04
pub fn c04_forward<S: Scalar>() {
    let x = ext::<S>();
    let p = vec3::<S>("p");
    let out = x.e.world_to_camera(&pt::<WorldFrame, S>(p));
    eq3("world_to_camera = R(p-C)", r3(&out.data, 0), mv(x.r, sub3(p, x.c)));
}
pub fn c04_backward<S: Scalar>() {
    let x = ext::<S>();
    let p = vec3::<S>("p");
    let out = x.e.camera_to_world(&pt::<CameraFrame, S>(p));
    eq3("camera_to_world = R'p+C", r3(&out.data, 0), add3(mtv(x.r, p), x.c));
}
pub fn c04_inverse<S: Scalar>() {
    let x = ext::<S>();
    let p = vec3::<S>("p");
    let w = x.e.camera_to_world(&x.e.world_to_camera(&pt::<WorldFrame, S>(p)));
    eq3("world -> camera -> world", r3(&w.data, 0), p);
    let c = x.e.world_to_camera(&x.e.camera_to_world(&pt::<CameraFrame, S>(p)));
    eq3("camera -> world -> camera", r3(&c.data, 0), p);
    let o = x.e.world_to_camera(&pt::<WorldFrame, S>(x.c));
    eq3("the centre maps to the origin", r3(&o.data, 0), [S::int(0); 3]);
}
pub fn c04_rigid<S: Scalar>() {
    let x = ext::<S>();
    let (a, b) = (vec3::<S>("a"), vec3::<S>("b"));
    let mut d = SMatrix::<S, 2, 3>::zeros();
    for j in 0..3 {
        d[(0, j)] = a[j];
        d[(1, j)] = b[j];
    }
    let out = x.e.world_to_camera(&Points::<WorldFrame, _, _, _>::new(d));
    let e = sub3(r3(&out.data, 0), r3(&out.data, 1));
    let f = sub3(a, b);
    S::check_eq("distance preserved", dot(e, e), dot(f, f));
    let out = x.e.camera_to_world(&Points::<CameraFrame, _, _, _>::new(d));
    let e = sub3(r3(&out.data, 0), r3(&out.data, 1));
    S::check_eq("distance preserved (inverse)", dot(e, e), dot(f, f));
    // handedness
    let r = x.e.rotation().matrix();
    let row = |i: usize| [r[(i, 0)], r[(i, 1)], r[(i, 2)]];
    S::check_eq("determinant +1", dot(row(0), cross(row(1), row(2))), S::int(1));
}
pub fn c04_rows<S: Scalar>() {
    let x = ext::<S>();
    let n = 3;
    let mut d = OMatrix::<S, Dyn, U3>::from_element(n, S::int(0));
    for i in 0..n {
        let p = vec3::<S>(&format!("p{i}"));
        for j in 0..3 {
            d[(i, j)] = p[j];
        }
    }
    let out = x.e.world_to_camera(&Points::<WorldFrame, _, _, _>::new(d.clone()));
    let back = x.e.camera_to_world(&out);
    S::check("row count", out.data.nrows() == n && back.data.nrows() == n);
    for i in 0..n {
        eq3("world_to_camera = R(p-C)", r3(&out.data, i), mv(x.r, sub3(r3(&d, i), x.c)));
        eq3("world -> camera -> world", r3(&back.data, i), r3(&d, i));
    }
}

// ---------------------------------------------------------------- C05
/// All the views of `e` agree with rotation `r` and centre `c`.
pub fn views<S: Scalar>(tag: &str, e: &ExtrinsicParameters<S>, r: [[S; 3]; 3], c: [S; 3]) {
    let t = mul3(-S::int(1), mv(r, c));
    eqv(&format!("{tag}: camcenter"), &e.camcenter().coords, c);
    eqv(&format!("{tag}: translation = -RC"), &e.translation().coords, t);
    for i in 0..3 {
        for j in 0..3 {
            S::check_eq(&format!("{tag}: rotation"), e.rotation().matrix()[(i, j)], r[i][j]);
            S::check_eq(&format!("{tag}: matrix rotation part"), e.matrix()[(i, j)], r[i][j]);
        }
        S::check_eq(&format!("{tag}: matrix translation part"), e.matrix()[(i, 3)], t[i]);
    }
    let pr = e.pose().rotation.to_rotation_matrix();
    for i in 0..3 {
        for j in 0..3 {
            S::check_eq(&format!("{tag}: pose rotation"), pr.matrix()[(i, j)], r[i][j]);
        }
    }
    eqv(&format!("{tag}: pose translation"), &e.pose().translation.vector, t);
    // the conversions use the same transform
    let p = vec3::<S>("vp");
    let out = e.world_to_camera(&pt::<WorldFrame, S>(p));
    eq3(&format!("{tag}: world_to_camera"), r3(&out.data, 0), mv(r, sub3(p, c)));
    let out = e.camera_to_world(&pt::<CameraFrame, S>(p));
    eq3(&format!("{tag}: camera_to_world"), r3(&out.data, 0), add3(mtv(r, p), c));
}
pub fn c05_parts<S: Scalar>() {
    let x = ext::<S>();
    views("rotation+centre", &x.e, x.r, x.c);
    let k = x.e.pose().rotation.quaternion().coords;
    for (a, b) in [(k[0], x.q[1]), (k[1], x.q[2]), (k[2], x.q[3]), (k[3], x.q[0])] {
        S::check_eq("quaternion kept", a, b);
    }
}
pub fn c05_clone<S: Scalar>() {
    let x = ext::<S>();
    let k = x.e.clone();
    S::check("clone equals the original", k == x.e);
    views("clone", &k, x.r, x.c);
}
pub fn c05_pose<S: Scalar>() {
    let t = vec3::<S>("t");
    let q = S::unit_quat("q");
    let r = rotm(q);
    let pose = Isometry3::from_parts(Translation3::new(t[0], t[1], t[2]), uq(q));
    let e = ExtrinsicParameters::from_pose(&pose);
    // C = -R' t
    let c = mul3(-S::int(1), mtv(r, t));
    views("from_pose", &e, r, c);
    eqv("pose reported back: translation", &e.pose().translation.vector, t);
    let k = e.pose().rotation.quaternion().coords;
    for (a, b) in [(k[0], q[1]), (k[1], q[2]), (k[2], q[3]), (k[3], q[0])] {
        S::check_eq("pose reported back: quaternion", a, b);
    }
}
pub fn c05_serde<S: Scalar>() {
    let x = ext::<S>();
    let s = serde_json::to_value(&x.e).expect("serialize");
    let e: ExtrinsicParameters<S> = serde_json::from_value(s).expect("deserialize");
    views("deserialized", &e, x.r, x.c);
}
/// from_view: see c06 for the parametrisation
pub fn c05_view<S: Scalar>() {
    let v = view::<S>(false);
    let e = &v.e;
    let rm = e.rotation().matrix();
    let mut r = [[S::int(0); 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = rm[(i, j)];
        }
    }
    views("from_view", e, r, v.c);
    for i in 0..3 {
        for j in 0..=i {
            S::check_eq("from_view: rotation orthonormal", dot(r[i], r[j]), S::int(if i == j { 1 } else { 0 }));
        }
    }
    S::check_eq("from_view: determinant +1", dot(r[0], cross(r[1], r[2])), S::int(1));
}

// ---------------------------------------------------------------- C06
pub struct View<S: Scalar> {
    pub e: ExtrinsicParameters<S>,
    pub c: [S; 3],
    /// unit forward, unit (up made orthogonal to forward), forward x up
    pub f: [S; 3],
    pub u: [S; 3],
    pub rt: [S; 3],
}
/// Every non-degenerate (centre, look-at, up) arises from an orthonormal frame
/// (f, u, f x u), a distance rho > 0 and a unit pair (b, a), a > 0 with
/// lookat = C + rho f and up = a u + b f (Gram-Schmidt).
pub fn view<S: Scalar>(hints: bool) -> View<S> {
    let c = vec3::<S>("C");
    let q = S::unit_quat("q");
    let r = rotm(q);
    // rows of r: right, down, forward of a camera with rotation r
    let f = r[2];
    let u = mul3(-S::int(1), r[1]);
    let rt = r[0];
    let rho = S::var_pos("rho");
    let [b, a] = S::unit2("up");
    S::assume_pos(a);
    if hints {
        for x in q {
            S::hint_sqrt(x);
        }
    }
    let lookat = add3(c, mul3(rho, f));
    let up = add3(mul3(a, u), mul3(b, f));
    let v = |x: [S; 3]| Vector3::new(x[0], x[1], x[2]);
    let e = ExtrinsicParameters::from_view(&v(c), &v(lookat), &Unit::new_unchecked(v(up)));
    View { e, c, f, u, rt }
}
pub fn c06_view<S: Scalar>() {
    let v = view::<S>(false);
    eqv("exact centre", &v.e.camcenter().coords, v.c);
    eqv("forward is the unit vector to the look-at point", &v.e.forward(), v.f);
    eqv("up is in the plane of forward and up, on its side", &v.e.up(), v.u);
    eqv("right = forward x up", &v.e.right(), v.rt);
}
pub fn c06_axes<S: Scalar>() {
    let x = ext::<S>();
    eqv("forward = camera +z in world", &x.e.forward(), x.r[2]);
    eqv("up = camera -y in world", &x.e.up(), mul3(-S::int(1), x.r[1]));
    eqv("right = camera +x in world", &x.e.right(), x.r[0]);
    let g = |u: Unit<Vector3<S>>| [u[0], u[1], u[2]];
    let (f, u, r) = (g(x.e.forward()), g(x.e.up()), g(x.e.right()));
    for (n, a, b, k) in [
        ("|f|=1", f, f, 1),
        ("|u|=1", u, u, 1),
        ("|r|=1", r, r, 1),
        ("f.u=0", f, u, 0),
        ("f.r=0", f, r, 0),
        ("u.r=0", u, r, 0),
    ] {
        S::check_eq(&format!("orthonormal axes {n}"), dot(a, b), S::int(k));
    }
    eq3("right = forward x up", r, cross(f, u));
}

// ---------------------------------------------------------------- C07
pub fn so_bundle<S: Scalar>(c: [S; 3]) -> SharedOriginRayBundle<S> {
    serde_json::from_value(serde_json::json!({ "center": c })).expect("bundle")
}
pub fn sd_bundle<S: Scalar>(d: [S; 3]) -> SharedDirectionRayBundle<S> {
    serde_json::from_value(serde_json::json!({ "direction": d })).expect("bundle")
}
fn rows<S: Scalar>(n: &str) -> ([[S; 3]; 3], SMatrix<S, 3, 3>) {
    let v = [0, 1, 2].map(|i| vec3::<S>(&format!("{n}{i}")));
    let mut m = SMatrix::<S, 3, 3>::zeros();
    for i in 0..3 {
        for j in 0..3 {
            m[(i, j)] = v[i][j];
        }
    }
    (v, m)
}
/// the point at distance d: |p - c| = |d|, p - c a multiple of dir with the sign of d
fn at_distance<S: Scalar>(l: &str, p: [S; 3], c: [S; 3], dir: [S; 3], d: S) {
    let e = sub3(p, c);
    let n = dot(dir, dir).sqrt();
    S::assume_nz(n);
    eq3(&format!("{l}: c + d*dir/|dir|"), e, mul3(d / n, dir));
}
pub fn c07_origin<S: Scalar>() {
    let c = vec3::<S>("c");
    let b = so_bundle::<S>(c);
    let (v, m) = rows::<S>("d");
    let ds = b.directions(&m);
    let cs = b.centers(&m);
    let on: Points<WorldFrame, S, _, _> = b.point_on_ray(&m);
    let t = S::var("t");
    for i in 0..3 {
        S::assume_nz(dot(v[i], v[i]));
    }
    let at: Points<WorldFrame, S, _, _> = b.point_on_ray_at_distance(&m, t);
    for i in 0..3 {
        eq3("directions", r3(&ds, i), v[i]);
        eq3("centers", r3(&cs, i), c);
        let e = sub3(r3(&on.data, i), c);
        eq3("point_on_ray is on the ray", cross(e, v[i]), [S::int(0); 3]);
        S::check("point_on_ray is on the forward ray", dot(e, v[i]) >= S::int(0));
        at_distance("point at distance", r3(&at.data, i), c, v[i], t);
    }
    let s: Ray<WorldFrame, S> = b.to_single_ray(&row3(v[0][0], v[0][1], v[0][2]));
    eq3("single ray centre", r3(&s.center, 0), c);
    eq3("single ray direction", r3(&s.direction, 0), v[0]);
}
pub fn c07_direction<S: Scalar>() {
    let d = vec3::<S>("d");
    S::assume_nz(dot(d, d));
    let b = sd_bundle::<S>(d);
    let (v, m) = rows::<S>("c");
    let ds = b.directions(&m);
    let cs = b.centers(&m);
    let on: Points<WorldFrame, S, _, _> = b.point_on_ray(&m);
    let t = S::var("t");
    let at: Points<WorldFrame, S, _, _> = b.point_on_ray_at_distance(&m, t);
    for i in 0..3 {
        eq3("directions", r3(&ds, i), d);
        eq3("centers", r3(&cs, i), v[i]);
        let e = sub3(r3(&on.data, i), v[i]);
        eq3("point_on_ray is on the ray", cross(e, d), [S::int(0); 3]);
        S::check("point_on_ray is on the forward ray", dot(e, d) >= S::int(0));
        at_distance("point at distance", r3(&at.data, i), v[i], d, t);
    }
    let s: Ray<WorldFrame, S> = b.to_single_ray(&row3(v[0][0], v[0][1], v[0][2]));
    eq3("single ray centre", r3(&s.center, 0), v[0]);
    eq3("single ray direction", r3(&s.direction, 0), d);
}
/// the RayBundle wrappers
pub fn c07_wrappers<S: Scalar>() {
    let (v, m) = rows::<S>("r");
    let t = S::var("t");
    let z = [S::int(0); 3];
    let pz = [S::int(0), S::int(0), S::int(1)];
    for i in 0..3 {
        S::assume_nz(dot(v[i], v[i]));
    }
    let b = RayBundle::<CameraFrame, _, S, _, _>::new_shared_zero_origin(m);
    let (ds, cs, on, at) = (b.directions(), b.centers(), b.point_on_ray(), b.point_on_ray_at_distance(t));
    for i in 0..3 {
        eq3("zero origin: data", r3(&b.data, i), v[i]);
        eq3("zero origin: directions", r3(&ds, i), v[i]);
        eq3("zero origin: centers", r3(&cs, i), z);
        eq3("zero origin: point_on_ray", cross(r3(&on.data, i), v[i]), z);
        at_distance("zero origin: at distance", r3(&at.data, i), z, v[i], t);
    }
    let b = RayBundle::<CameraFrame, _, S, _, _>::new_shared_plusz_direction(m);
    let (ds, cs, on, at) = (b.directions(), b.centers(), b.point_on_ray(), b.point_on_ray_at_distance(t));
    for i in 0..3 {
        eq3("+z: directions", cross(r3(&ds, i), pz), z);
        S::check("+z: direction sign", r3(&ds, i)[2] > S::int(0));
        eq3("+z: centers", r3(&cs, i), v[i]);
        eq3("+z: point_on_ray", cross(sub3(r3(&on.data, i), v[i]), pz), z);
        at_distance("+z: at distance", r3(&at.data, i), v[i], pz, t);
    }
    let b1 = RayBundle::<CameraFrame, _, S, _, _>::new_shared_plusz_direction(row3(v[0][0], v[0][1], v[0][2]));
    let s = b1.to_single_ray();
    eq3("+z: single centre", r3(&s.center, 0), v[0]);
    eq3("+z: single direction", r3(&s.direction, 0), r3(&b1.directions(), 0));
    let b1 = RayBundle::<CameraFrame, _, S, _, _>::new_shared_zero_origin(row3(v[0][0], v[0][1], v[0][2]));
    let s = b1.to_single_ray();
    eq3("zero origin: single centre", r3(&s.center, 0), z);
    eq3("zero origin: single direction", r3(&s.direction, 0), v[0]);
}

// ---------------------------------------------------------------- C08
pub fn c08_origin<S: Scalar>() {
    let x = ext::<S>();
    let (v, m) = rows::<S>("d");
    let b = RayBundle::<CameraFrame, _, S, _, _>::new_shared_zero_origin(m);
    let w: RayBundle<WorldFrame, SharedOriginRayBundle<S>, S, _, _> = x.e.ray_camera_to_world(&b);
    let (cs, ds) = (w.centers(), w.directions());
    for i in 0..3 {
        eq3("centre moved as a point", r3(&cs, i), x.c);
        eq3("direction moved as a vector", r3(&ds, i), mtv(x.r, v[i]));
    }
}
pub fn c08_direction<S: Scalar>() {
    let x = ext::<S>();
    let (v, m) = rows::<S>("c");
    let b = RayBundle::<CameraFrame, _, S, _, _>::new_shared_plusz_direction(m);
    let w: RayBundle<WorldFrame, SharedDirectionRayBundle<S>, S, _, _> = x.e.ray_camera_to_world(&b);
    let (cs, ds) = (w.centers(), w.directions());
    for i in 0..3 {
        eq3("centre moved as a point", r3(&cs, i), add3(mtv(x.r, v[i]), x.c));
        eq3("direction moved as a vector", r3(&ds, i), x.r[2]);
    }
}
fn iso<S: Scalar>() -> (Isometry3<S>, [[S; 3]; 3], [S; 3]) {
    let t = vec3::<S>("t");
    let q = S::unit_quat("q");
    (Isometry3::from_parts(Translation3::new(t[0], t[1], t[2]), uq(q)), rotm(q), t)
}
/// to_pose of an arbitrary bundle (any shared origin)
pub fn c08_pose_origin<S: Scalar>() {
    let (p, r, t) = iso::<S>();
    let c = vec3::<S>("c");
    let b = so_bundle::<S>(c);
    let (v, m) = rows::<S>("d");
    let w: RayBundle<WorldFrame, SharedOriginRayBundle<S>, S, _, _> = b.to_pose(p, &m);
    let (cs, ds) = (w.centers(), w.directions());
    for i in 0..3 {
        eq3("centre moved as a point", r3(&cs, i), add3(mv(r, c), t));
        eq3("direction moved as a vector", r3(&ds, i), mv(r, v[i]));
    }
}
pub fn c08_pose_direction<S: Scalar>() {
    let (p, r, t) = iso::<S>();
    let d = vec3::<S>("d");
    let b = sd_bundle::<S>(d);
    let (v, m) = rows::<S>("c");
    let w: RayBundle<WorldFrame, SharedDirectionRayBundle<S>, S, _, _> = b.to_pose(p, &m);
    let (cs, ds) = (w.centers(), w.directions());
    for i in 0..3 {
        eq3("centre moved as a point", r3(&cs, i), add3(mv(r, v[i]), t));
        eq3("direction moved as a vector", r3(&ds, i), mv(r, d));
    }
}
/// the stated consequence: distances along rays commute with the conversion
pub fn c08_distance<S: Scalar>() {
    let x = ext::<S>();
    let v = vec3::<S>("d");
    S::assume_nz(dot(v, v));
    let t = S::var("t");
    let b = RayBundle::<CameraFrame, _, S, _, _>::new_shared_zero_origin(row3(v[0], v[1], v[2]));
    let a = x.e.ray_camera_to_world(&b).point_on_ray_at_distance(t);
    let k = x.e.camera_to_world(&b.point_on_ray_at_distance(t));
    eq3("shared origin: distance commutes", r3(&a.data, 0), r3(&k.data, 0));
    let b = RayBundle::<CameraFrame, _, S, _, _>::new_shared_plusz_direction(row3(v[0], v[1], v[2]));
    let a = x.e.ray_camera_to_world(&b).point_on_ray_at_distance(t);
    let k = x.e.camera_to_world(&b.point_on_ray_at_distance(t));
    eq3("shared direction: distance commutes", r3(&a.data, 0), r3(&k.data, 0));
}

// ---------------------------------------------------------------- C09
/// A user-supplied model: nothing in the library may depend on what it computes.
#[derive(Clone, Debug)]
pub struct User<S: Scalar> {
    pub a: [S; 3],
}
impl<S: Scalar> IntrinsicParameters<S> for User<S> {
    type BundleType = SharedOriginRayBundle<S>;
    fn pixel_to_camera<IN, NPTS>(
        &self,
        p: &Pixels<S, NPTS, IN>,
    ) -> RayBundle<CameraFrame, Self::BundleType, S, NPTS, Owned<S, NPTS, U3>>
    where
        Self::BundleType: Bundle<S>,
        IN: Storage<S, NPTS, U2>,
        NPTS: Dim,
        DefaultAllocator: allocator::Allocator<U1, U2> + allocator::Allocator<NPTS, U2> + allocator::Allocator<NPTS, U3>,
    {
        let n = p.data.nrows();
        let mut d = OMatrix::<S, NPTS, U3>::zeros_generic(NPTS::from_usize(n), U3);
        for i in 0..n {
            let r = self.back([p.data[(i, 0)], p.data[(i, 1)]]);
            for j in 0..3 {
                d[(i, j)] = r[j];
            }
        }
        RayBundle::new_shared_zero_origin(d)
    }
    fn camera_to_pixel<IN, NPTS>(&self, c: &Points<CameraFrame, S, NPTS, IN>) -> Pixels<S, NPTS, Owned<S, NPTS, U2>>
    where
        IN: Storage<S, NPTS, U3>,
        NPTS: Dim,
        DefaultAllocator: allocator::Allocator<NPTS, U2>,
    {
        let n = c.data.nrows();
        let mut d = OMatrix::<S, NPTS, U2>::zeros_generic(NPTS::from_usize(n), U2);
        for i in 0..n {
            let r = self.fwd([c.data[(i, 0)], c.data[(i, 1)], c.data[(i, 2)]]);
            d[(i, 0)] = r[0];
            d[(i, 1)] = r[1];
        }
        Pixels::new(d)
    }
}
impl<S: Scalar> User<S> {
    pub fn new() -> Self {
        User { a: vec3("a") }
    }
    pub fn back(&self, p: [S; 2]) -> [S; 3] {
        [p[0] * p[1] + self.a[0], p[1] * self.a[1] - p[0], p[0] * p[0] + self.a[2]]
    }
    pub fn fwd(&self, p: [S; 3]) -> [S; 2] {
        [
            p[0] * p[2] + self.a[0] * p[1] - self.a[2],
            p[1] * p[1] + self.a[1] * p[0] + p[2],
        ]
    }
}
/// Same, with the other kind of bundle.
#[derive(Clone, Debug)]
pub struct UserD<S: Scalar>(pub User<S>);
impl<S: Scalar> IntrinsicParameters<S> for UserD<S> {
    type BundleType = SharedDirectionRayBundle<S>;
    fn pixel_to_camera<IN, NPTS>(
        &self,
        p: &Pixels<S, NPTS, IN>,
    ) -> RayBundle<CameraFrame, Self::BundleType, S, NPTS, Owned<S, NPTS, U3>>
    where
        Self::BundleType: Bundle<S>,
        IN: Storage<S, NPTS, U2>,
        NPTS: Dim,
        DefaultAllocator: allocator::Allocator<U1, U2> + allocator::Allocator<NPTS, U2> + allocator::Allocator<NPTS, U3>,
    {
        RayBundle::new_shared_plusz_direction(self.0.pixel_to_camera(p).data)
    }
    fn camera_to_pixel<IN, NPTS>(&self, c: &Points<CameraFrame, S, NPTS, IN>) -> Pixels<S, NPTS, Owned<S, NPTS, U2>>
    where
        IN: Storage<S, NPTS, U3>,
        NPTS: Dim,
        DefaultAllocator: allocator::Allocator<NPTS, U2>,
    {
        self.0.camera_to_pixel(c)
    }
}
fn compose<S: Scalar, I: IntrinsicParameters<S>>(i: I, fwd: &dyn Fn([S; 3]) -> [S; 2], depth_nz: bool)
where
    I::BundleType: Bundle<S>,
{
    let x = ext::<S>();
    let cam = Camera::new(i.clone(), x.e.clone());
    let ps = [vec3::<S>("p0"), vec3::<S>("p1")];
    let mut d = SMatrix::<S, 2, 3>::zeros();
    for i in 0..2 {
        if depth_nz {
            S::assume_nz(mv(x.r, sub3(ps[i], x.c))[2]);
        }
        for j in 0..3 {
            d[(i, j)] = ps[i][j];
        }
    }
    let out = cam.world_to_pixel(&Points::<WorldFrame, _, _, _>::new(d));
    for i in 0..2 {
        eq2("world_to_pixel = intrinsics after extrinsics", r2(&out.data, i), fwd(mv(x.r, sub3(ps[i], x.c))));
    }
    let qs = [vec2::<S>("q0"), vec2::<S>("q1")];
    let mut d = SMatrix::<S, 2, 2>::zeros();
    for i in 0..2 {
        d[(i, 0)] = qs[i][0];
        d[(i, 1)] = qs[i][1];
    }
    let px = Pixels::new(d);
    let w = cam.pixel_to_world(&px);
    let b = i.pixel_to_camera(&px);
    let (wc, wd, bc, bd) = (w.centers(), w.directions(), b.centers(), b.directions());
    for i in 0..2 {
        eq3("pixel_to_world centre", r3(&wc, i), add3(mtv(x.r, r3(&bc, i)), x.c));
        eq3("pixel_to_world direction", r3(&wd, i), mtv(x.r, r3(&bd, i)));
    }
}
pub fn c09_user<S: Scalar>() {
    let u = User::<S>::new();
    let v = u.clone();
    compose(u, &move |p| v.fwd(p), false);
}
pub fn c09_user_dir<S: Scalar>() {
    let u = User::<S>::new();
    let v = u.clone();
    compose(UserD(u), &move |p| v.fwd(p), false);
}
pub fn c09_persp<S: Scalar>() {
    let pp = pparams::<S>().nonzero();
    compose(pp.model(), &move |p| pp.project(p), true);
}
pub fn c09_ortho<S: Scalar>() {
    let o = oparams::<S>();
    S::assume_nz(o[0]);
    S::assume_nz(o[1]);
    compose(omodel(o), &move |p| [o[0] * p[0] + o[2], o[1] * p[1] + o[3]], false);
}
pub fn c09_accessors<S: Scalar>() {
    let x = ext::<S>();
    let pp = pparams::<S>();
    let cam = Camera::new(pp.model(), x.e.clone());
    S::check("extrinsics kept", cam.extrinsics() == &x.e);
    S::check("intrinsics kept", cam.intrinsics() == &pp.model());
    views("camera", cam.extrinsics(), x.r, x.c);
}
pub fn c09_round_persp<S: Scalar>() {
    let x = ext::<S>();
    let pp = pparams::<S>().nonzero();
    let cam = Camera::new(pp.model(), x.e.clone());
    let q = vec2::<S>("q");
    let w = cam.pixel_to_world(&px(q));
    let (c, d) = (r3(&w.centers(), 0), r3(&w.directions(), 0));
    let t = S::var_nz("t");
    let out = cam.world_to_pixel(&pt::<WorldFrame, S>(add3(c, mul3(t, d))));
    eq2("pixel recovered from its world ray", r2(&out.data, 0), q);
}
pub fn c09_visible_persp<S: Scalar>() {
    let x = ext::<S>();
    let pp = pparams::<S>().nonzero();
    let cam = Camera::new(pp.model(), x.e.clone());
    // the world point with camera coordinates k
    let k = vec3::<S>("k");
    S::assume_nz(k[2]);
    let p = add3(mtv(x.r, k), x.c);
    let w = cam.pixel_to_world(&cam.world_to_pixel(&pt::<WorldFrame, S>(p)));
    let (c, d) = (r3(&w.centers(), 0), r3(&w.directions(), 0));
    eq3("world point lies on the ray of its projection", cross(sub3(p, c), d), [S::int(0); 3]);
}
pub fn c09_round_ortho<S: Scalar>() {
    let x = ext::<S>();
    let o = oparams::<S>();
    S::assume_nz(o[0]);
    S::assume_nz(o[1]);
    let cam = Camera::new(omodel(o), x.e.clone());
    let q = vec2::<S>("q");
    let w = cam.pixel_to_world(&px(q));
    let (c, d) = (r3(&w.centers(), 0), r3(&w.directions(), 0));
    let t = S::var("t");
    let out = cam.world_to_pixel(&pt::<WorldFrame, S>(add3(c, mul3(t, d))));
    eq2("pixel recovered from its world ray", r2(&out.data, 0), q);
    let p = vec3::<S>("p");
    let w = cam.pixel_to_world(&cam.world_to_pixel(&pt::<WorldFrame, S>(p)));
    let (c, d) = (r3(&w.centers(), 0), r3(&w.directions(), 0));
    eq3("world point lies on the ray of its projection", cross(sub3(p, c), d), [S::int(0); 3]);
}

// ---------------------------------------------------------------- C10
pub fn c10_matrix<S: Scalar>() {
    let x = ext::<S>();
    let pp = pparams::<S>().nonzero();
    let cam = Camera::new(pp.model(), x.e.clone());
    let m = cam.as_camera_matrix();
    let k = vec3::<S>("k");
    S::assume_nz(k[2]);
    let p = add3(mtv(x.r, k), x.c);
    let h = [0, 1, 2].map(|i| m[(i, 0)] * p[0] + m[(i, 1)] * p[1] + m[(i, 2)] * p[2] + m[(i, 3)]);
    let out = cam.world_to_pixel(&pt::<WorldFrame, S>(p));
    for i in 0..3 {
        for j in 0..4 {
            S::check("matrix is finite", m[(i, j)].is_finite());
        }
    }
    S::check("third coordinate is nonzero off the principal plane", h[2] != S::int(0));
    let q = r2(&out.data, 0);
    S::check_eq("u agrees", h[0] / h[2], q[0]);
    S::check_eq("v agrees", h[1] / h[2], q[1]);
}

// ---------------------------------------------------------------- C12
pub fn c12_jacobian<S: Scalar>() {
    let x = ext::<S>();
    let pp = pparams::<S>().nonzero();
    let cam = Camera::new(pp.model(), x.e.clone());
    let k = vec3::<S>("k");
    S::assume_nz(k[2]);
    let p = add3(mtv(x.r, k), x.c);
    let jc = linearize::JacobianPerspectiveCache::new(&cam);
    let j = jc.linearize_at(&pt::<WorldFrame, S>(p));
    for a in 0..2 {
        for b in 0..3 {
            S::check("Jacobian is finite", j[(a, b)].is_finite());
        }
    }
    // u(p+h) - u(p) = J h * depth(p) / depth(p+h), exactly, for every h
    let h = vec3::<S>("h");
    let hc = mv(x.r, h);
    let d2 = k[2] + hc[2];
    S::assume_nz(d2);
    let q = r2(&cam.world_to_pixel(&pt::<WorldFrame, S>(p)).data, 0);
    let q2 = r2(&cam.world_to_pixel(&pt::<WorldFrame, S>(add3(p, h))).data, 0);
    for a in 0..2 {
        let jh = j[(a, 0)] * h[0] + j[(a, 1)] * h[1] + j[(a, 2)] * h[2];
        S::check_eq(["du", "dv"][a], (q2[a] - q[a]) * d2, jh * k[2]);
    }
}
