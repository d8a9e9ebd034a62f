//! Contracts of ray intersection, parameter storage, serialization, batches and
//! the round-trip utility. Goals taking `N: Num` run on concrete floats only.
use crate::common::*;
use crate::goals_basic::{views, view};
use crate::scalar::{dict, nctx, Scalar};
use cam_geom::intrinsic_test_utils::roundtrip_intrinsics;
use cam_geom::ray_bundle_types::*;
use cam_geom::*;
use nalgebra::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ------------------------------------------------------------ C13, C14
pub trait Num: Scalar {
    const EPS: f64;
    /// tolerance of intersection results
    const TOL: f64;
    fn f(self) -> f64;
    fn of(x: f64) -> Self;
}
impl Num for f64 {
    const EPS: f64 = f64::EPSILON;
    const TOL: f64 = 1e-5;
    fn f(self) -> f64 {
        self
    }
    fn of(x: f64) -> f64 {
        x
    }
}
impl Num for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const TOL: f64 = 2e-2;
    fn f(self) -> f64 {
        self as f64
    }
    fn of(x: f64) -> f32 {
        x as f32
    }
}
fn num(n: &str) -> f64 {
    nctx(|c| c.val(n))
}
/// a recorded choice among k
fn pick(n: &str, k: usize) -> usize {
    nctx(|c| {
        let v = match c.fixed.get(n) {
            Some(v) => *v,
            None => (c.next() % k as u64) as f64,
        };
        c.used.insert(n.to_string(), v);
        v as usize % k
    })
}
#[derive(Clone, Copy, Debug)]
struct Ry {
    c: [f64; 3],
    d: [f64; 3],
}
fn norm(d: [f64; 3]) -> f64 {
    dot(d, d).sqrt()
}
fn unit(d: [f64; 3]) -> [f64; 3] {
    let m = norm(d);
    d.map(|x| x / m)
}
const SIZES: [usize; 24] = [2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 33, 64, 65, 100, 129, 257];
fn vals(n: &str) -> [f64; 3] {
    [num(&format!("{n}x")), num(&format!("{n}y")), num(&format!("{n}z"))]
}
/// One of the sizes, or now and then one suggested by a number in the code.
fn size(l: &[usize], max: usize, large: usize) -> usize {
    let d: Vec<usize> = dict().0.iter().copied().filter(|k| *k <= max).collect();
    let k = l[pick("n", l.len())];
    if d.is_empty() || pick("n from the code", 3) > 0 {
        return k;
    }
    let q = d[pick("n in the code", d.len())];
    // the large ones more rarely
    if q > 300 && pick("n large", large) > 0 { k } else { q }
}
fn gen_rays() -> Vec<Ry> {
    let n = size(&SIZES, 6000, 40);
    let kind = pick("kind", 17);
    // directions of three mutually perpendicular lines, exactly
    const TRIADS: [[[f64; 3]; 3]; 4] = [
        [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
        [[1.0, 1.0, 0.0], [1.0, -1.0, 0.0], [0.0, 0.0, 1.0]],
        [[1.0, 2.0, 2.0], [2.0, 1.0, -2.0], [2.0, -2.0, 1.0]],
        [[0.0, 3.0, 4.0], [0.0, -4.0, 3.0], [5.0, 0.0, 0.0]],
    ];
    let triad = TRIADS[pick("triad", 4)];
    let mut v = vec![];
    for i in 0..n {
        let mut c = vals(&format!("c{i}_"));
        let mut d = vals(&format!("d{i}_"));
        // on a small grid: exact ties between sums of coordinates
        if (6..10).contains(&kind) || kind >= 10 && pick("on a grid", 3) == 0 {
            const G: [f64; 5] = [-1.0, 1.0, 0.0, 2.0, -2.0];
            let m = if kind == 6 { 2 } else { [3, 5][pick("grid", 2)] };
            for k in 0..3 {
                c[k] = G[pick(&format!("gc{i}{k}"), 5)];
                d[k] = G[pick(&format!("gd{i}{k}"), m)];
            }
        }
        if dot(d, d) == 0.0 {
            d = [0.0, 0.0, 1.0];
        }
        if kind == 8 || kind == 9 {
            d = mul3([1.0, -1.0, 2.0, 0.5][pick(&format!("l{i}"), 4)], triad[if kind == 8 { i % 3 } else { pick(&format!("t{i}"), 3) }]);
            v.push(Ry { c, d });
            continue;
        }
        // lengths from 1e-3 to 1e3, and many at or close to one
        const LEN: [f64; 20] = [
            1e-3, 1e-2, 0.1, 1.0, 10.0, 100.0, 1e3, 0.5, 2.0, 1.0, 1.0 + 1e-3, 1.0 - 1e-3, 1.005, 0.995, 1.02, 0.98, 1.1, 0.9, 1.0001, 0.9999,
        ];
        d = mul3(LEN[pick(&format!("l{i}"), LEN.len())], unit(d));
        let mut r = Ry { c, d };
        // coincidences with the ray before or the first one
        if i > 0 {
            let o: Ry = if pick(&format!("w{i}"), 4) == 0 { v[0] } else { v[i - 1] };
            match pick(&format!("s{i}"), if kind == 5 { 6 } else { 24 }) {
                0 => r.c = o.c,
                1 => r.d = o.d,
                2 => r.d = mul3(-1.0, o.d),
                3 => r.c = add3(o.c, o.d),
                _ => {}
            }
        }
        v.push(r);
    }
    match kind {
        // a narrow fan: small but not numerically vanishing angles
        0 => {
            let w = [0.003, 0.01, 0.03, 0.1][pick("fan", 4)];
            let b = unit(v[0].d);
            for r in v.iter_mut().skip(1) {
                let k = norm(r.d);
                r.d = mul3(k, unit(add3(b, mul3(w, unit(r.d)))));
            }
        }
        // several parallel rays and one across
        1 if n > 2 => {
            for i in 1..n - 1 {
                v[i].d = mul3(if i % 2 == 0 { 2.0 } else { -0.5 }, v[0].d);
            }
        }
        // coincident duplicates
        2 if n > 3 => v[n - 1] = v[0],
        // far away from the origin
        3 => {
            const FAR: [f64; 6] = [25.0, 25.0, 1e3, 1e5, 1e7, 1e9];
            let o = mul3(FAR[pick("howfar", FAR.len())], vals("far"));
            for r in v.iter_mut() {
                r.c = add3(r.c, o);
            }
        }
        // all in one plane
        10 => {
            let k = pick("plane", 4);
            let h = num("height");
            for r in v.iter_mut() {
                if k < 3 {
                    (r.c[k], r.d[k]) = (h, 0.0);
                } else {
                    (r.c[2], r.d[2]) = (r.c[0] + h, r.d[0]);
                }
            }
        }
        // one origin, now and then the zero of the coordinates
        11 => {
            let c = if pick("zero", 2) == 0 { [0.0; 3] } else { v[0].c };
            v.iter_mut().for_each(|r| r.c = c);
        }
        // origins at right angles to the directions, or along them
        12 => v.iter_mut().for_each(|r| {
            let u = unit(r.d);
            r.c = add3(r.c, mul3(-dot(r.c, u), u));
        }),
        13 => v.iter_mut().enumerate().for_each(|(i, r)| r.c = mul3([0.0, 1.0, -1.0, 3.0][pick(&format!("al{i}"), 4)], r.d)),
        // lengths of very different magnitudes
        14 => v.iter_mut().enumerate().for_each(|(i, r)| {
            r.d = mul3([1e-8, 1e-5, 1e-4, 1e4, 1e5, 1e8][pick(&format!("ex{i}"), 6)], unit(r.d));
        }),
        // origins on a line
        15 => {
            let (a, b) = (v[0].c, vals("rail"));
            for (i, r) in v.iter_mut().enumerate() {
                r.c = add3(a, mul3(i as f64, b));
            }
        }
        // all looking to one side of a coordinate plane
        16 => {
            let (k, s) = (pick("side", 3), [1.0, -1.0][pick("which", 2)]);
            v.iter_mut().for_each(|r| r.d[k] = s * r.d[k].abs());
        }
        _ => {}
    }
    for r in v.iter_mut() {
        if dot(r.d, r.d) == 0.0 {
            r.d = [1.0, 0.0, 0.0];
        }
    }
    v
}
/// M = sum (I - d d^T), b = sum (I - d d^T) c
fn normal_eq(v: &[Ry]) -> ([[f64; 3]; 3], [f64; 3]) {
    let mut m = [[0.0; 3]; 3];
    let mut b = [0.0; 3];
    for r in v {
        let u = unit(r.d);
        for i in 0..3 {
            for j in 0..3 {
                let p = (if i == j { 1.0 } else { 0.0 }) - u[i] * u[j];
                m[i][j] += p;
                b[i] += p * r.c[j];
            }
        }
    }
    (m, b)
}
fn min_eig(m: [[f64; 3]; 3]) -> f64 {
    let m = Matrix3::from_fn(|i, j| m[i][j]);
    m.symmetric_eigenvalues().min()
}
fn solve(m: [[f64; 3]; 3], b: [f64; 3]) -> [f64; 3] {
    let m = Matrix3::from_fn(|i, j| m[i][j]);
    let x = m.full_piv_lu().solve(&Vector3::from(b)).unwrap_or(Vector3::repeat(f64::NAN));
    [x[0], x[1], x[2]]
}
fn intersect<N: Num>(v: &[Ry]) -> Result<[f64; 3], Error> {
    let rays: Vec<Ray<WorldFrame, N>> = v
        .iter()
        .map(|r| {
            let k = |a: [f64; 3]| SMatrix::<N, 1, 3>::new(N::of(a[0]), N::of(a[1]), N::of(a[2]));
            Ray::new(k(r.c), k(r.d))
        })
        .collect();
    let p = best_intersection_of_rays(&rays)?;
    Ok([p.data[(0, 0)].f(), p.data[(0, 1)].f(), p.data[(0, 2)].f()])
}
/// rounds the rays to what the scalar type can hold
fn round<N: Num>(v: &[Ry]) -> Vec<Ry> {
    v.iter()
        .map(|r| Ry { c: r.c.map(|x| N::of(x).f()), d: r.d.map(|x| N::of(x).f()) })
        .collect()
}
fn min_gap<N: Num>() -> f64 {
    if N::EPS < 1e-10 {
        2e-6
    } else {
        0.05
    }
}
fn spread(v: &[Ry]) -> f64 {
    v.iter().map(|r| norm(r.c)).fold(1.0, f64::max)
}
fn close<N: Num>(label: &str, a: [f64; 3], b: [f64; 3], scale: f64, gap: f64) {
    // the input rounding (one part in 2^52 or 2^23) is amplified by 1/gap; the
    // implementation's own singular-value tolerance of 1e-7 is allowed for
    let tol = N::TOL * scale * (1.0f64).max(1e-4 / gap);
    for i in 0..3 {
        nctx(|c| {
            c.checks += 1;
            if !((a[i] - b[i]).abs() <= tol) {
                c.fails.push((label.to_string(), format!("{a:?} vs {b:?} (tolerance {tol:e})")));
            }
        });
    }
}
pub fn c13_lsq<N: Num>() {
    let v = round::<N>(&gen_rays());
    let (m, b) = normal_eq(&v);
    let gap = min_eig(m);
    f64::assume(gap > min_gap::<N>());
    match intersect::<N>(&v) {
        Ok(x) => close::<N>("the point minimises the summed squared distances", x, solve(m, b), spread(&v), gap),
        Err(e) => nctx(|c| c.fails.push(("two or more rays give a point".into(), format!("{e}")))),
    }
}
pub fn c13_common_point<N: Num>() {
    let mut v = gen_rays();
    let p = vals("p");
    for (i, r) in v.iter_mut().enumerate() {
        let t = num(&format!("t{i}"));
        r.c = add3(p, mul3(t, unit(r.d)));
    }
    let v = round::<N>(&v);
    let gap = min_eig(normal_eq(&v).0);
    f64::assume(gap > min_gap::<N>());
    let (sc, k) = (spread(&v), v.len());
    match intersect::<N>(&v) {
        Ok(x) => {
            // rounding of the inputs moves the optimum by at most this much
            let in_err = N::EPS * sc * k as f64 / gap;
            close::<N>("lines through a common point meet there", x, p, sc + in_err / N::TOL, gap)
        }
        Err(e) => nctx(|c| c.fails.push(("two or more rays give a point".into(), format!("{e}")))),
    }
}
/// what `my_pinv` relies on: from a factorization U diag(s) V^T, nalgebra's pseudo-inverse is
/// the inverse when every singular value is over the tolerance
pub fn c13_pinv<S: Scalar>() {
    let (u, v) = (rotm(S::unit_quat("u")), rotm(S::unit_quat("v")));
    let eps = S::var("eps");
    S::assume(eps >= S::zero());
    let s = [0, 1, 2].map(|i| {
        let x = S::var_p(&format!("s{i}"));
        S::assume(x > eps);
        x
    });
    for (su, sv) in [(1, 1), (1, -1), (-1, 1), (-1, -1)] {
        let um = Matrix3::from_fn(|i, j| S::int(su) * u[i][j]);
        let vt = Matrix3::from_fn(|i, j| S::int(sv) * v[j][i]);
        let a = Matrix3::from_fn(|i, j| (0..3).fold(S::zero(), |t, k| t + um[(i, k)] * s[k] * vt[(k, j)]));
        let svd = linalg::SVD { u: Some(um), v_t: Some(vt), singular_values: Vector3::new(s[0], s[1], s[2]) };
        match svd.pseudo_inverse(eps) {
            Ok(p) => {
                let (l, r) = (p * a, a * p);
                for i in 0..3 {
                    for j in 0..3 {
                        let id = S::int((i == j) as i64);
                        S::check_eq("left inverse", l[(i, j)], id);
                        S::check_eq("right inverse", r[(i, j)], id);
                    }
                }
            }
            Err(e) => S::check(&format!("succeeds ({e})"), false),
        }
    }
}
pub use self::c13_pinv as c14_pinv;
pub fn c13_too_few<N: Num>() {
    for n in 0..2 {
        let v: Vec<Ry> = (0..n).map(|_| Ry { c: vals("c"), d: vals("d") }).collect();
        let r = intersect::<N>(&v);
        N::check("fewer than two rays: dedicated error", matches!(r, Err(Error::MinimumTwoRaysNeeded)));
    }
    let r = Ry { c: [1.0, 0.0, 0.0], d: [0.0, 1.0, 0.0] };
    let s = Ry { c: [0.0, 1.0, 0.0], d: [1.0, 0.0, 0.0] };
    N::check("two rays are enough", intersect::<N>(&[r, s]).is_ok());
}
pub fn c14_redescribe<N: Num>() {
    let v = gen_rays();
    let n = v.len();
    let (m, _) = normal_eq(&v);
    let gap = min_eig(m);
    f64::assume(gap > min_gap::<N>());
    let mut w = v.clone();
    let mut expect: Box<dyn Fn([f64; 3]) -> [f64; 3]> = Box::new(|x| x);
    let what = match pick("how", 8) {
        0 => {
            let k = pick("rot", n);
            w.rotate_left(k);
            "rotated order"
        }
        1 => {
            for i in (1..n).rev() {
                let j = pick(&format!("sw{i}"), i + 1);
                w.swap(i, j);
            }
            "shuffled order"
        }
        2 => {
            for (i, r) in w.iter_mut().enumerate() {
                let s = [0.01, 0.5, 1.0, 3.0, 250.0][pick(&format!("sc{i}"), 5)];
                r.d = mul3(s, r.d);
            }
            "rescaled directions"
        }
        3 => {
            for (i, r) in w.iter_mut().enumerate() {
                if pick(&format!("rev{i}"), 2) == 1 {
                    r.d = mul3(-1.0, r.d);
                }
            }
            "reversed directions"
        }
        4 => {
            for (i, r) in w.iter_mut().enumerate() {
                let t = num(&format!("sl{i}"));
                r.c = add3(r.c, mul3(t, unit(r.d)));
            }
            "origins moved along their lines"
        }
        5 => {
            let k = 2 + pick("rep", 3);
            let cyclic = pick("intl", 2) == 0;
            w = (0..n * k).map(|i| if cyclic { v[i % n] } else { v[i / k] }).collect();
            "every ray repeated"
        }
        6 => {
            let t = vals("tr");
            for r in w.iter_mut() {
                r.c = add3(r.c, t);
            }
            expect = Box::new(move |x| add3(x, t));
            "common translation"
        }
        _ => {
            let q = <f64 as Scalar>::unit_quat("q");
            let r = rotm(q);
            for a in w.iter_mut() {
                a.c = mv(r, a.c);
                a.d = mv(r, a.d);
            }
            expect = Box::new(move |x| mv(r, x));
            "common rotation"
        }
    };
    let sc = spread(&v).max(spread(&w));
    match (intersect::<N>(&round::<N>(&v)), intersect::<N>(&round::<N>(&w))) {
        (Ok(a), Ok(b)) => {
            let in_err = 4.0 * N::EPS * sc * w.len() as f64 / gap;
            close::<N>(&format!("unchanged: {what}"), b, expect(a), sc + in_err / N::TOL, gap)
        }
        _ => N::check("two or more rays give a point", false),
    }
}

// ------------------------------------------------------------ C15
fn same_params<S: Scalar>(l: &str, m: &IntrinsicParametersPerspective<S>, p: [S; 5]) {
    let q = m.params();
    for (n, a, b, c) in [
        ("fx", m.fx(), q.fx, p[0]),
        ("fy", m.fy(), q.fy, p[1]),
        ("skew", m.skew(), q.skew, p[2]),
        ("cx", m.cx(), q.cx, p[3]),
        ("cy", m.cy(), q.cy, p[4]),
    ] {
        S::check_eq(&format!("{l}: {n}() is kept"), a, c);
        S::check_eq(&format!("{l}: params().{n} is kept"), b, c);
    }
}
fn projects<S: Scalar>(l: &str, m: &IntrinsicParametersPerspective<S>, pp: PP<S>) {
    let p = vec3::<S>("p");
    S::assume_nz(p[2]);
    let out = m.camera_to_pixel(&pt::<CameraFrame, S>(p));
    eq2(&format!("{l}: projects by its parameters"), r2(&out.data, 0), pp.project(p));
}
pub fn c15_params<S: Scalar>() {
    let pp = pparams::<S>();
    let m = pp.model();
    same_params("from parameters", &m, [pp.fx, pp.fy, pp.skew, pp.cx, pp.cy]);
    projects("from parameters", &m, pp);
    let k = m.clone();
    S::check("a clone is equal", k == m);
    same_params("clone", &k, [pp.fx, pp.fy, pp.skew, pp.cx, pp.cy]);
    projects("clone", &k, pp);
}
pub fn c15_matrix<S: Scalar>() {
    let pp = pparams::<S>();
    let f = [(0, 3), (1, 0), (1, 3), (2, 0), (2, 1), (2, 2), (2, 3)];
    let mut m = SMatrix::<S, 3, 4>::zeros();
    m[(0, 0)] = pp.fx;
    m[(1, 1)] = pp.fy;
    m[(0, 1)] = pp.skew;
    m[(0, 2)] = pp.cx;
    m[(1, 2)] = pp.cy;
    for (i, j) in f {
        m[(i, j)] = S::var(&format!("m{i}{j}"));
    }
    if S::NUMERIC && pick("valid", 2) == 0 {
        for (i, j) in f {
            m[(i, j)] = S::int((i == 2 && j == 2) as i64);
        }
    }
    let r = IntrinsicParametersPerspective::from_normalized_3x4_matrix(m);
    let mut ok = true;
    // whatever order they are looked at in
    for (i, j) in f {
        let w = S::int((i == 2 && j == 2) as i64);
        let e = S::default_epsilon();
        let x = m[(i, j)];
        let d = x - w;
        let d = if d < S::int(0) { -d } else { d };
        let a = if x < S::int(0) { -x } else { x };
        let big = if a > w { a } else { w };
        if !(d <= e || d <= big * S::default_max_relative()) {
            ok = false;
            break;
        }
    }
    match r {
        Ok(k) => {
            S::check("only normalised matrices are accepted", ok);
            same_params("from matrix", &k, [pp.fx, pp.fy, pp.skew, pp.cx, pp.cy]);
            projects("from matrix", &k, pp);
        }
        Err(e) => {
            S::check("every normalised matrix is accepted", !ok);
            S::check("invalid-input error", matches!(e, Error::InvalidInput));
        }
    }
}
/// special values in every fixed position, and pairs of positions
pub fn c15_special<N: Num>() {
    let f = [(0usize, 3usize), (1, 0), (1, 3), (2, 0), (2, 1), (2, 2), (2, 3)];
    let e = N::EPS;
    let mut xs: Vec<f64> = vec![
        0.0, -0.0, e, -e, e / 2.0, 1.5 * e, -1.5 * e, 2.0 * e, -2.0 * e, 1e-3, -1e-3, 0.5, 1.0, -1.0, 1.1, 0.9, 2.0, 1e30, -1e30,
        1e-30, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1.0 + e, 1.0 + 2.0 * e, 1.0 + 4.0 * e, 1.0 - e / 2.0, 1.0 - e,
        1.0 - 2.0 * e, 1.0 + 1e-4, 1.0 - 1e-4,
    ];
    xs.push(N::of(f64::MAX).f());
    xs.push(N::of(1e-44).f());
    let good = |x: f64, w: f64| -> bool {
        // the documented default relative comparison of the approx crate
        let (x, w) = (N::of(x), N::of(w));
        if x == w {
            return true;
        }
        if !x.f().is_finite() {
            return false;
        }
        let d = if x > w { x - w } else { w - x };
        let big = if x.f().abs() > w.f().abs() { x.f().abs() } else { w.f().abs() };
        d.f() <= e || d.f() <= big * e
    };
    let p = [num("fx"), num("fy"), num("skew"), num("cx"), num("cy")].map(N::of);
    let run = |set: &[(usize, f64)]| {
        let mut m = SMatrix::<N, 3, 4>::zeros();
        m[(0, 0)] = p[0];
        m[(1, 1)] = p[1];
        m[(0, 1)] = p[2];
        m[(0, 2)] = p[3];
        m[(1, 2)] = p[4];
        m[(2, 2)] = N::of(1.0);
        for &(k, x) in set {
            m[f[k]] = N::of(x);
        }
        let mut ok = true;
        for (i, j) in f {
            ok = ok && good(m[(i, j)].f(), if i == 2 && j == 2 { 1.0 } else { 0.0 });
        }
        let r = IntrinsicParametersPerspective::from_normalized_3x4_matrix(m);
        let tag = || format!("entries {:?}", set.iter().map(|s| (f[s.0], s.1)).collect::<Vec<_>>());
        match r {
            Ok(k) => {
                N::check(&format!("only normalised matrices are accepted: {}", tag()), ok);
                let q = [k.fx(), k.fy(), k.skew(), k.cx(), k.cy()];
                N::check("parameters are kept exactly", (0..5).all(|i| q[i] == p[i]));
                let q = k.params();
                let q = [q.fx, q.fy, q.skew, q.cx, q.cy];
                N::check("params() are kept exactly", (0..5).all(|i| q[i] == p[i]));
            }
            Err(e) => {
                N::check(&format!("every normalised matrix is accepted: {}", tag()), !ok);
                N::check("invalid-input error", matches!(e, Error::InvalidInput));
            }
        }
    };
    run(&[]);
    for k in 0..7 {
        for &x in &xs {
            run(&[(k, x)]);
            for l in 0..7 {
                if l != k {
                    for y in [f64::NAN, f64::INFINITY, 1.0, e, -1.0, x, -x] {
                        run(&[(k, x), (l, y)]);
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------ C16
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

fn back<T: DeserializeOwned>(l: &str, v: &Value) -> Option<T> {
    match serde_json::from_value::<T>(v.clone()) {
        Ok(t) => Some(t),
        Err(e) => {
            f64::check(&format!("{l}: valid input is accepted ({e}): {v}"), false);
            None
        }
    }
}
/// every form of the same value: as written, text, fields in all orders, sequence
fn forms<T: Serialize>(x: &T) -> Vec<Value> {
    wrote(x);
    let v = serde_json::to_value(x).expect("serializes");
    all_forms(&v)
}
thread_local! {
    /// the text last written by the type under test, which tells the order its fields are written in
    static WRITTEN: std::cell::RefCell<String> = Default::default();
}
fn wrote<T: Serialize>(x: &T) {
    let t = serde_json::to_string(x).expect("serializes");
    WRITTEN.with(|w| *w.borrow_mut() = t)
}
/// the fields of an object in the order they are written, which is that of the sequence form
fn keys(o: &serde_json::Map<String, Value>) -> Vec<String> {
    let mut k: Vec<String> = o.keys().cloned().collect();
    WRITTEN.with(|w| {
        let w = w.borrow();
        k.sort_by_key(|x| w.find(&format!("{x:?}:")).unwrap_or(usize::MAX))
    });
    k
}
fn to_seq(v: &Value, depth: usize) -> Value {
    match v {
        Value::Object(o) => {
            let w: Vec<Value> = keys(o).iter().map(|k| to_seq(&o[k], depth + 1)).collect();
            Value::Array(w)
        }
        _ => v.clone(),
    }
}
fn all_forms(v: &Value) -> Vec<Value> {
    let mut out = vec![v.clone()];
    if v.is_object() {
        out.push(to_seq(v, 0));
        // only the outer layer as a sequence
        let o = v.as_object().unwrap();
        out.push(Value::Array(keys(o).iter().map(|k| o[k].clone()).collect()));
    }
    out
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r
}
/// JSON text of an object with the given (key, value) entries in this order
fn obj(e: &[(String, String)]) -> String {
    let v: Vec<String> = e.iter().map(|(k, v)| format!("{}:{}", serde_json::to_string(k).unwrap(), v)).collect();
    format!("{{{}}}", v.join(","))
}
/// all texts of valid objects with reordered fields (inner objects too)
fn orders(v: &Value) -> Vec<String> {
    match v {
        Value::Object(o) => {
            let ks: Vec<String> = o.keys().cloned().collect();
            let inner: Vec<Vec<String>> = ks.iter().map(|k| orders(&o[k])).collect();
            let mut out = vec![];
            for (pi, p) in perms(ks.len()).into_iter().enumerate() {
                let deep = inner.iter().map(|x| x.len()).max().unwrap_or(1);
                let deep = if pi == 0 { deep } else { deep.min(3) };
                for d in 0..deep {
                    let e: Vec<(String, String)> =
                        p.iter().map(|&i| (ks[i].clone(), inner[i][d % inner[i].len()].clone())).collect();
                    out.push(obj(&e));
                }
            }
            out
        }
        _ => vec![v.to_string()],
    }
}
/// all malformed texts of an object: a field missing, duplicated (adjacent or
/// not, with equal or different values), unknown, or a sequence cut short;
/// recursively in the nested objects. `strict` names the objects (by their set
/// of keys) that refuse unknown fields.
fn malformed(v: &Value, strict: &dyn Fn(&[String]) -> bool) -> Vec<(String, String)> {
    let Value::Object(o) = v else { return vec![] };
    let ks = keys(o);
    let txt: Vec<(String, String)> = ks.iter().map(|k| (k.clone(), o[k].to_string())).collect();
    let mut out = vec![];
    let n = ks.len();
    for i in 0..n {
        let mut e = txt.clone();
        let x = e.remove(i);
        out.push((format!("{} missing", x.0), obj(&e)));
        for j in 0..=n {
            let mut e = txt.clone();
            e.insert(j, x.clone());
            out.push((format!("{} given twice", x.0), obj(&e)));
        }
        // a different value the second time
        let alt = alter(&o[&ks[i]]).to_string();
        let mut e = txt.clone();
        e.push((ks[i].clone(), alt));
        out.push((format!("{} given twice with different values", ks[i]), obj(&e)));
        let e = vec![x.clone(), x.clone()];
        if n > 1 {
            out.push((format!("only {} and twice", x.0), obj(&e)));
        }
        // one replaced by an unknown name
        for bad in [format!("{}x", x.0), "cache".to_string(), String::new()] {
            let mut e = txt.clone();
            e[i].0 = bad.clone();
            out.push((format!("{} called {:?}", x.0, bad), obj(&e)));
        }
        // wrong type
        let mut e = txt.clone();
        e[i].1 = "\"text\"".into();
        out.push((format!("{} is text", x.0), obj(&e)));
        let mut e = txt.clone();
        if e[i].1 == "null" {
            continue;
        }
        e[i].1 = "null".into();
        out.push((format!("{} is null", x.0), obj(&e)));
    }
    if strict(&ks) {
        for j in 0..=n {
            for (b, val) in [("cache", "null"), ("cache_p", "null"), ("extra", "1"), ("", "[]")] {
                let mut e = txt.clone();
                e.insert(j, (b.to_string(), val.to_string()));
                out.push((format!("unknown field {b:?}"), obj(&e)));
            }
        }
    }
    out.push(("empty object".into(), "{}".into()));
    for k in 0..n {
        let w: Vec<String> = txt.iter().take(k).map(|x| x.1.clone()).collect();
        out.push((format!("sequence of {k}"), format!("[{}]", w.join(","))));
    }
    for i in 0..n {
        for (d, t) in malformed(&o[&ks[i]], strict) {
            let mut e = txt.clone();
            e[i].1 = t;
            out.push((format!("{}: {}", ks[i], d), obj(&e)));
        }
    }
    out
}
fn alter(v: &Value) -> Value {
    match v {
        Value::Number(n) => n.as_u64().map(|x| json!(x)).unwrap_or_else(|| json!(n.as_f64().unwrap_or(0.0) + 1.0)),
        Value::Array(a) => Value::Array(a.iter().map(alter).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), alter(v))).collect()),
        x => x.clone(),
    }
}
fn refuses<T: DeserializeOwned>(l: &str, v: &Value, strict: &dyn Fn(&[String]) -> bool) {
    for (d, t) in malformed(v, strict) {
        let r = catch_unwind(AssertUnwindSafe(|| serde_json::from_str::<T>(&t).is_err()));
        match r {
            Ok(e) => f64::check(&format!("{l}: malformed input is refused ({d})"), e),
            Err(_) => f64::check(&format!("{l}: malformed input does not panic ({d})"), false),
        }
    }
}
/// the objects read by hand-written visitors, which refuse unknown fields
fn hand_written(k: &[String]) -> bool {
    k == ["params"] || extrinsics_only(k)
}
fn extrinsics_only(k: &[String]) -> bool {
    k.len() == 2 && ["rquat", "camcenter"].iter().all(|x| k.iter().any(|y| y == x))
}
/// round trip through every accepted form; `obs` lists observables
fn round_trip<S: Scalar, T: Serialize + DeserializeOwned + PartialEq>(l: &str, x: &T, obs: &dyn Fn(&T) -> Vec<S>) {
    let a = obs(x);
    let mut n = 0;
    let cmp = |how: &str, y: &T, exact: bool| {
        if exact {
            S::check(&format!("{l}: equal after a round trip ({how})"), *y == *x);
        }
        let b = obs(y);
        S::check(&format!("{l}: same observables ({how})"), a.len() == b.len());
        for (p, q) in a.iter().zip(b.iter()) {
            S::check_eq(&format!("{l}: observables ({how})"), *p, *q);
        }
    };
    for (i, v) in forms(x).into_iter().enumerate() {
        n += 1;
        if let Some(y) = back::<T>(l, &v) {
            cmp(["as written", "all sequences", "outer sequence"][i], &y, true);
        }
        if let Ok(y) = serde_json::from_str::<T>(&v.to_string()) {
            cmp("text", &y, !S::NUMERIC);
        } else {
            S::check(&format!("{l}: valid text is accepted: {v}"), false);
        }
    }
    for t in orders(&serde_json::to_value(x).expect("serializes")) {
        n += 1;
        match serde_json::from_str::<T>(&t) {
            Ok(y) => cmp("fields reordered", &y, !S::NUMERIC),
            Err(e) => S::check(&format!("{l}: field order does not matter ({e}): {t}"), false),
        }
    }
    S::check(&format!("{l}: forms were tried"), n > 1);
    for f in crate::fmt::all() {
        let how = format!("{f:?}");
        match crate::fmt::write(x, f.human).and_then(|n| crate::fmt::read::<T>(&n, f).map(|y| (n, y))) {
            Ok((n, y)) => {
                cmp(&how, &y, true);
                // unknown fields are for the hand-written visitors to refuse
                let strict = matches!(&n, crate::fmt::Node::Struct(v) if hand_written(&v.iter().map(|y| y.0.to_string()).collect::<Vec<_>>()) && l != "orthographic");
                for (d, t) in crate::fmt::malformed(&n, f, strict) {
                    S::check(&format!("{l}: malformed input is refused ({how}, {d})"), crate::fmt::read::<T>(&t, f).is_err());
                }
            }
            Err(e) => S::check(&format!("{l}: valid input is accepted ({how}: {e})"), false),
        }
    }
}
fn obs_e<S: Scalar>(e: &ExtrinsicParameters<S>) -> Vec<S> {
    let mut v: Vec<S> = vec![];
    v.extend(e.rotation().matrix().iter().cloned());
    v.extend(e.translation().coords.iter().cloned());
    v.extend(e.matrix().iter().cloned());
    v.extend(e.camcenter().coords.iter().cloned());
    v.extend(e.pose().rotation.coords.iter().cloned());
    v.extend(e.pose().translation.vector.iter().cloned());
    let p = [S::r(1, 2), -S::int(3), S::int(7)];
    v.extend(e.world_to_camera(&pt::<WorldFrame, S>(p)).data.iter().cloned());
    v.extend(e.camera_to_world(&pt::<CameraFrame, S>(p)).data.iter().cloned());
    v
}
fn obs_i<S: Scalar, I: IntrinsicParameters<S>>(i: &I) -> Vec<S>
where
    I::BundleType: Bundle<S>,
{
    let mut v: Vec<S> = vec![];
    let p = [S::r(1, 2), -S::int(3), S::int(7)];
    v.extend(i.camera_to_pixel(&pt::<CameraFrame, S>(p)).data.iter().cloned());
    let b = i.pixel_to_camera(&px([S::int(5), S::int(-2)]));
    v.extend(b.directions().iter().cloned());
    v.extend(b.centers().iter().cloned());
    v
}
fn obs_p<S: Scalar>(i: &IntrinsicParametersPerspective<S>) -> Vec<S> {
    let mut v = obs_i(i);
    v.extend([i.fx(), i.fy(), i.skew(), i.cx(), i.cy()]);
    v
}
fn obs_c<S: Scalar, I: IntrinsicParameters<S>>(c: &Camera<S, I>) -> Vec<S>
where
    I::BundleType: Bundle<S>,
{
    let mut v = obs_e(c.extrinsics());
    v.extend(obs_i(c.intrinsics()));
    let b = c.pixel_to_world(&px([S::int(5), S::int(-2)]));
    v.extend(b.directions().iter().cloned());
    v.extend(b.centers().iter().cloned());
    v
}
fn obs_b<S: Scalar, B: Bundle<S>>(b: &RayBundle<WorldFrame, B, S, U2, Owned<S, U2, U3>>) -> Vec<S> {
    let mut v: Vec<S> = vec![];
    v.extend(b.data.iter().cloned());
    v.extend(b.directions().iter().cloned());
    v.extend(b.centers().iter().cloned());
    v.extend(b.point_on_ray().data.iter().cloned());
    v
}
pub fn c16_extrinsics<S: Scalar>() {
    let x = ext::<S>();
    round_trip("extrinsics", &x.e, &obs_e);
    refuses::<ExtrinsicParameters<S>>("extrinsics", &serde_json::to_value(&x.e).unwrap(), &hand_written);
    for v in forms(&x.e) {
        if let Some(e) = back::<ExtrinsicParameters<S>>("extrinsics", &v) {
            views("deserialized", &e, x.r, x.c);
        }
    }
}
pub fn c16_intrinsics<S: Scalar>() {
    let pp = pparams::<S>().nonzero();
    let m = pp.model();
    round_trip("perspective", &m, &obs_p);
    refuses::<IntrinsicParametersPerspective<S>>("perspective", &serde_json::to_value(&m).unwrap(), &hand_written);
    let o = oparams::<S>();
    S::assume_nz(o[0]);
    S::assume_nz(o[1]);
    let om = omodel(o);
    round_trip("orthographic", &om, &|i: &IntrinsicParametersOrthographic<S>| obs_i(i));
    refuses::<IntrinsicParametersOrthographic<S>>("orthographic", &serde_json::to_value(&om).unwrap(), &extrinsics_only);
    let p = m.params().clone();
    round_trip("perspective parameters", &p, &|p: &PerspectiveParams<S>| vec![p.fx, p.fy, p.skew, p.cx, p.cy]);
    let p = OrthographicParams { sx: o[0], sy: o[1], cx: o[2], cy: o[3] };
    round_trip("orthographic parameters", &p, &|p: &OrthographicParams<S>| vec![p.sx, p.sy, p.cx, p.cy]);
}
pub fn c16_camera<S: Scalar>() {
    let pp = pparams::<S>().nonzero();
    let x = ext::<S>();
    let cam = Camera::new(pp.model(), x.e.clone());
    round_trip("perspective camera", &cam, &|c: &Camera<S, IntrinsicParametersPerspective<S>>| obs_c(c));
    refuses::<Camera<S, IntrinsicParametersPerspective<S>>>(
        "perspective camera",
        &serde_json::to_value(&cam).unwrap(),
        &hand_written,
    );
    let o = oparams::<S>();
    S::assume_nz(o[0]);
    S::assume_nz(o[1]);
    let cam = Camera::new(omodel(o), x.e.clone());
    round_trip("orthographic camera", &cam, &|c: &Camera<S, IntrinsicParametersOrthographic<S>>| obs_c(c));
    refuses::<Camera<S, IntrinsicParametersOrthographic<S>>>(
        "orthographic camera",
        &serde_json::to_value(&cam).unwrap(),
        &extrinsics_only,
    );
}
pub fn c16_bundles<S: Scalar>() {
    let x = ext::<S>();
    let mut d = SMatrix::<S, 2, 3>::zeros();
    for i in 0..2 {
        for j in 0..3 {
            d[(i, j)] = S::var(&format!("d{i}{j}"));
        }
    }
    // bundles with an arbitrary shared origin or direction come from a pose
    let b = RayBundle::<CameraFrame, SharedOriginRayBundle<S>, _, _, _>::new_shared_zero_origin(d);
    let b = x.e.ray_camera_to_world(&b);
    let l = "shared-origin rays";
    round_trip(l, &b, &|b: &RayBundle<WorldFrame, SharedOriginRayBundle<S>, S, U2, Owned<S, U2, U3>>| obs_b(b));
    refuses::<RayBundle<WorldFrame, SharedOriginRayBundle<S>, S, U2, Owned<S, U2, U3>>>(
        l,
        &serde_json::to_value(&b).unwrap(),
        &hand_written,
    );
    let b = RayBundle::<CameraFrame, SharedDirectionRayBundle<S>, _, _, _>::new_shared_plusz_direction(d);
    let b = x.e.ray_camera_to_world(&b);
    let l = "shared-direction rays";
    round_trip(l, &b, &|b: &RayBundle<WorldFrame, SharedDirectionRayBundle<S>, S, U2, Owned<S, U2, U3>>| obs_b(b));
    refuses::<RayBundle<WorldFrame, SharedDirectionRayBundle<S>, S, U2, Owned<S, U2, U3>>>(
        l,
        &serde_json::to_value(&b).unwrap(),
        &hand_written,
    );
}

// ------------------------------------------------------------ C17
struct Ops<S: Scalar> {
    e: ExtrinsicParameters<S>,
    p: Camera<S, IntrinsicParametersPerspective<S>>,
    o: Camera<S, IntrinsicParametersOrthographic<S>>,
    dist: S,
}
impl<S: Scalar> Ops<S> {
    fn new() -> Self {
        let x = ext::<S>();
        let pp = pparams::<S>().nonzero();
        let o = oparams::<S>();
        S::assume_nz(o[0]);
        S::assume_nz(o[1]);
        Ops { p: Camera::new(pp.model(), x.e.clone()), o: Camera::new(omodel(o), x.e.clone()), e: x.e, dist: S::var("dist") }
    }
}
type Rows<S> = Vec<Vec<S>>;
fn rows<S: Scalar, N: Dim, C: Dim, T: RawStorage<S, N, C>>(m: &Matrix<S, N, C, T>) -> Rows<S> {
    (0..m.nrows()).map(|i| (0..m.ncols()).map(|j| m[(i, j)]).collect()).collect()
}
fn ctr<S: Scalar, B: Bundle<S>, N: Dim>(b: &RayBundle<WorldFrame, B, S, N, Owned<S, N, U3>>, shared: &[S]) -> Rows<S>
where
    DefaultAllocator: allocator::Allocator<N, U3>,
{
    // the shared part is appended to every row so that it is compared too
    rows(&b.data).into_iter().map(|mut r| {
        r.extend_from_slice(shared);
        r
    }).collect()
}
/// the shared origin or direction, recovered through the public API: a ray's
/// point minus its own data
fn shared<S: Scalar, B: Bundle<S>, C: CoordinateSystem, N: Dim>(b: &RayBundle<C, B, S, N, Owned<S, N, U3>>) -> Rows<S>
where
    DefaultAllocator: allocator::Allocator<N, U3>,
{
    rows(&b.point_on_ray().data)
}
/// every operation on points or rays (three columns)
fn ops3<S: Scalar, N: Dim, T: Storage<S, N, U3> + Clone>(o: &Ops<S>, d: &Matrix<S, N, U3, T>, skip_dist: bool) -> Vec<(&'static str, Rows<S>)>
where
    DefaultAllocator: allocator::Allocator<N, U3> + allocator::Allocator<N, U2>,
{
    let w = Points::<WorldFrame, S, N, T>::new(d.clone());
    let c = Points::<CameraFrame, S, N, T>::new(d.clone());
    let bo = RayBundle::<CameraFrame, SharedOriginRayBundle<S>, S, N, T>::new_shared_zero_origin(d.clone());
    let bd = RayBundle::<CameraFrame, SharedDirectionRayBundle<S>, S, N, T>::new_shared_plusz_direction(d.clone());
    let wo = o.e.ray_camera_to_world(&bo);
    let wd = o.e.ray_camera_to_world(&bd);
    let mut v = vec![
        ("world_to_camera", rows(&o.e.world_to_camera(&w).data)),
        ("camera_to_world", rows(&o.e.camera_to_world(&c).data)),
        ("perspective camera_to_pixel", rows(&o.p.intrinsics().camera_to_pixel(&c).data)),
        ("orthographic camera_to_pixel", rows(&o.o.intrinsics().camera_to_pixel(&c).data)),
        ("perspective world_to_pixel", rows(&o.p.world_to_pixel(&w).data)),
        ("orthographic world_to_pixel", rows(&o.o.world_to_pixel(&w).data)),
        ("ray_camera_to_world (shared origin)", ctr(&wo, &[])),
        ("ray_camera_to_world (shared direction)", ctr(&wd, &[])),
        ("point_on_ray (shared origin)", rows(&bo.point_on_ray().data)),
        ("point_on_ray (shared direction)", rows(&bd.point_on_ray().data)),
        ("point_on_ray after ray_camera_to_world (shared origin)", shared(&wo)),
        ("point_on_ray after ray_camera_to_world (shared direction)", shared(&wd)),
        ("point_on_ray_at_distance (shared direction)", rows(&bd.point_on_ray_at_distance(o.dist).data)),
        ("point_on_ray_at_distance after ray_camera_to_world (shared direction)", rows(&wd.point_on_ray_at_distance(o.dist).data)),
    ];
    if !skip_dist {
        v.push(("point_on_ray_at_distance (shared origin)", rows(&bo.point_on_ray_at_distance(o.dist).data)));
        v.push(("point_on_ray_at_distance after ray_camera_to_world (shared origin)", rows(&wo.point_on_ray_at_distance(o.dist).data)));
    }
    v
}
fn ops2<S: Scalar, N: Dim, T: Storage<S, N, U2> + Clone>(o: &Ops<S>, d: &Matrix<S, N, U2, T>) -> Vec<(&'static str, Rows<S>)>
where
    DefaultAllocator: allocator::Allocator<N, U3> + allocator::Allocator<N, U2>,
{
    let q = Pixels::<S, N, T>::new(d.clone());
    let a = o.p.intrinsics().pixel_to_camera(&q);
    let b = o.o.intrinsics().pixel_to_camera(&q);
    let c = o.p.pixel_to_world(&q);
    let e = o.o.pixel_to_world(&q);
    vec![
        ("perspective pixel_to_camera", rows(&a.data)),
        ("perspective pixel_to_camera, points", shared(&a)),
        ("orthographic pixel_to_camera", rows(&b.data)),
        ("orthographic pixel_to_camera, points", shared(&b)),
        ("perspective pixel_to_world", rows(&c.data)),
        ("perspective pixel_to_world, points", shared(&c)),
        ("orthographic pixel_to_world", rows(&e.data)),
        ("orthographic pixel_to_world, points", shared(&e)),
    ]
}
/// directions() and centers() need a static size
fn ops_static<S: Scalar, N: DimName, T: Storage<S, N, U3> + Clone>(o: &Ops<S>, d: &Matrix<S, N, U3, T>) -> Vec<(&'static str, Rows<S>)>
where
    DefaultAllocator: allocator::Allocator<N, U3>,
{
    let bo = RayBundle::<CameraFrame, SharedOriginRayBundle<S>, S, N, T>::new_shared_zero_origin(d.clone());
    let bd = RayBundle::<CameraFrame, SharedDirectionRayBundle<S>, S, N, T>::new_shared_plusz_direction(d.clone());
    let wo = o.e.ray_camera_to_world(&bo);
    let wd = o.e.ray_camera_to_world(&bd);
    vec![
        ("directions (shared origin)", rows(&bo.directions())),
        ("centers (shared origin)", rows(&bo.centers())),
        ("directions (shared direction)", rows(&bd.directions())),
        ("centers (shared direction)", rows(&bd.centers())),
        ("directions in world (shared origin)", rows(&wo.directions())),
        ("centers in world (shared origin)", rows(&wo.centers())),
        ("directions in world (shared direction)", rows(&wd.directions())),
        ("centers in world (shared direction)", rows(&wd.centers())),
    ]
}
fn same<S: Scalar>(l: &str, what: &str, a: &Rows<S>, b: &Rows<S>) {
    S::check(&format!("{what}: one output row per input row ({l})"), a.len() == b.len());
    for (x, y) in a.iter().zip(b.iter()) {
        for (p, q) in x.iter().zip(y.iter()) {
            // undefined, infinite and NaN alike
            let sp = S::show(*p);
            if (S::NUMERIC || sp == "undefined") && sp == S::show(*q) {
                S::check(what, true);
                continue;
            }
            S::check_eq(&format!("{what}: each row as for that row alone ({l})"), *p, *q);
        }
    }
}
fn compare<S: Scalar>(l: &str, a: Vec<(&'static str, Rows<S>)>, b: &[(&'static str, Rows<S>)]) {
    let only = ONLY.with(|o| o.get());
    for (x, y) in a.iter().zip(b.iter()) {
        if only.is_empty() || only.iter().any(|p| if let Some(p) = p.strip_prefix('=') { x.0 == p } else { x.0.starts_with(p) }) {
            same(l, x.0, &x.1, &y.1);
        }
    }
}
thread_local! {
    /// the operations to compare (by name or prefix); empty: all of them
    static ONLY: std::cell::Cell<&'static [&'static str]> = const { std::cell::Cell::new(&[]) };
}
fn many_only<N: Num>(only: &'static [&'static str]) {
    ONLY.with(|o| o.set(only));
    c17_many::<N>();
}
macro_rules! batch {
    ($($f:ident $only:expr;)*) => { $(pub fn $f<N: Num>() { many_only::<N>(&$only) })* };
}
batch! {
    c01_batch ["perspective camera_to_pixel"];
    c02_batch ["perspective pixel_to_camera"];
    c03_batch ["orthographic camera_to_pixel", "orthographic pixel_to_camera"];
    c04_batch ["=world_to_camera", "=camera_to_world"];
    c07_batch ["=directions (shared origin)", "=directions (shared direction)", "=centers (shared origin)", "=centers (shared direction)",
        "point_on_ray (", "point_on_ray_at_distance ("];
    c08_batch ["ray_camera_to_world"];
}
/// Camera's operations on many rows against the two steps on the same rows
pub fn c09_batch<N: Num>() {
    let n = size(&[0usize, 1, 2, 5, 8, 9, 16, 33, 64, 65, 100, 128, 257], 20000, 2);
    let o = Ops::<N>::new();
    let m = OMatrix::<N, Dyn, U3>::from_fn(n, |i, j| N::var(&format!("d{i}_{j}")));
    let k = OMatrix::<N, Dyn, U2>::from_fn(n, |i, j| N::var(&format!("e{i}_{j}")));
    let w = Points::<WorldFrame, N, Dyn, _>::new(m);
    let q = Pixels::<N, Dyn, _>::new(k);
    let c = o.e.world_to_camera(&w);
    same("many", "perspective world_to_pixel as its two steps", &rows(&o.p.world_to_pixel(&w).data), &rows(&o.p.intrinsics().camera_to_pixel(&c).data));
    same("many", "orthographic world_to_pixel as its two steps", &rows(&o.o.world_to_pixel(&w).data), &rows(&o.o.intrinsics().camera_to_pixel(&c).data));
    let (a, b) = (o.p.pixel_to_world(&q), o.e.ray_camera_to_world(&o.p.intrinsics().pixel_to_camera(&q)));
    same("many", "perspective pixel_to_world as its two steps", &rows(&a.data), &rows(&b.data));
    same("many", "perspective pixel_to_world as its two steps, points", &shared(&a), &shared(&b));
    let (a, b) = (o.o.pixel_to_world(&q), o.e.ray_camera_to_world(&o.o.intrinsics().pixel_to_camera(&q)));
    same("many", "orthographic pixel_to_world as its two steps", &rows(&a.data), &rows(&b.data));
    same("many", "orthographic pixel_to_world as its two steps, points", &shared(&a), &shared(&b));
}
fn singles<S: Scalar>(f: &dyn Fn(usize) -> Vec<(&'static str, Rows<S>)>, n: usize) -> Vec<(&'static str, Rows<S>)> {
    let mut out: Vec<(&'static str, Rows<S>)> = f(0).into_iter().map(|x| (x.0, vec![])).collect();
    for i in 0..n {
        for (k, x) in f(i).into_iter().enumerate() {
            S::check("a single row gives a single row", x.1.len() == 1);
            out[k].1.extend(x.1);
        }
    }
    out
}
macro_rules! statics {
    ($o:expr, $d:expr, $e:expr, $s3:expr, $s2:expr, $ss:expr, $skip:expr, $($n:literal)*) => { $(
        if $d.len() >= $n {
            let m = SMatrix::<S, $n, 3>::from_fn(|i, j| $d[i][j]);
            let k = SMatrix::<S, $n, 2>::from_fn(|i, j| $e[i][j]);
            let cut = |v: &[(&'static str, Rows<S>)]| v.iter().map(|x| (x.0, x.1[..$n].to_vec())).collect::<Vec<_>>();
            compare("static", ops3($o, &m, $skip), &cut($s3));
            compare("static", ops2($o, &k), &cut($s2));
            compare("static", ops_static($o, &m), &cut($ss));
            // a view of static size into a larger matrix
            let big = SMatrix::<S, { $n + 2 }, 5>::from_fn(|i, j| if i >= 1 && i <= $n && j >= 1 && j <= 3 { m[(i - 1, j - 1)] } else { S::int(77) });
            compare("static view", ops3($o, &big.fixed_view::<$n, 3>(1, 1), $skip), &cut($s3));
            compare("static view", ops_static($o, &big.fixed_view::<$n, 3>(1, 1)), &cut($ss));
            let big = SMatrix::<S, { $n + 2 }, 5>::from_fn(|i, j| if i >= 1 && i <= $n && j >= 2 && j <= 3 { k[(i - 1, j - 2)] } else { S::int(77) });
            compare("static view", ops2($o, &big.fixed_view::<$n, 2>(1, 2)), &cut($s2));
        }
    )* };
}
fn c17_core<S: Scalar>(d: Vec<[S; 3]>, e: Vec<[S; 2]>, skip: bool, statics: bool) {
    let n = d.len();
    let o = Ops::<S>::new();
    let s3 = singles(&|i| ops3(&o, &row3(d.get(i).map_or(S::int(1), |x| x[0]), d.get(i).map_or(S::int(1), |x| x[1]), d.get(i).map_or(S::int(1), |x| x[2])), skip), n);
    let s2 = singles(&|i| ops2(&o, &SMatrix::<S, 1, 2>::new(e.get(i).map_or(S::int(1), |x| x[0]), e.get(i).map_or(S::int(1), |x| x[1]))), n);
    // dynamic, owned
    let m = OMatrix::<S, Dyn, U3>::from_fn(n, |i, j| d[i][j]);
    let k = OMatrix::<S, Dyn, U2>::from_fn(n, |i, j| e[i][j]);
    compare("dynamic", ops3(&o, &m, skip), &s3);
    compare("dynamic", ops2(&o, &k), &s2);
    // views into larger matrices: contiguous rows of columns 1..4, and every second row
    let big = DMatrix::<S>::from_fn(n + 3, 6, |i, j| {
        if i >= 2 && i < n + 2 && j >= 1 && j < 4 {
            d[i - 2][j - 1]
        } else {
            S::int(55)
        }
    });
    compare("view", ops3(&o, &big.fixed_columns::<3>(1).rows(2, n), skip), &s3);
    let big = DMatrix::<S>::from_fn(2 * n + 2, 4, |i, j| {
        if i % 2 == 1 && i / 2 < n && j < 3 {
            d[i / 2][j]
        } else {
            S::int(55)
        }
    });
    if n > 0 {
        compare("strided view", ops3(&o, &big.fixed_columns::<3>(0).rows_with_step(1, n, 1), skip), &s3);
        // columns reached backwards through a transposed copy: row-major strides
        let t = OMatrix::<S, U3, Dyn>::from_fn(n, |j, i| d[i][j]);
        let v = MatrixView::<S, Dyn, U3, Dyn, U1>::from_slice_with_strides_generic(t.as_slice(), Dyn(n), U3, Dyn(3), U1);
        compare("row-major view", ops3(&o, &v, skip), &s3);
        let t = OMatrix::<S, U2, Dyn>::from_fn(n, |j, i| e[i][j]);
        let v = MatrixView::<S, Dyn, U2, Dyn, U1>::from_slice_with_strides_generic(t.as_slice(), Dyn(n), U2, Dyn(2), U1);
        compare("row-major view", ops2(&o, &v), &s2);
    }
    let big = DMatrix::<S>::from_fn(2 * n + 2, 4, |i, j| {
        if i % 2 == 1 && i / 2 < n && j >= 1 && j < 3 {
            e[i / 2][j - 1]
        } else {
            S::int(55)
        }
    });
    if n > 0 {
        compare("strided view", ops2(&o, &big.fixed_columns::<2>(1).rows_with_step(1, n, 1)), &s2);
    }
    if statics {
        let ss = singles(&|i| ops_static(&o, &row3(d.get(i).map_or(S::int(1), |x| x[0]), d.get(i).map_or(S::int(1), |x| x[1]), d.get(i).map_or(S::int(1), |x| x[2]))), n);
        statics!(&o, d, e, &s3, &s2, &ss, skip, 1 2 3 4 5 6 7 8 9);
    }
}
pub fn c17_small<S: Scalar>() {
    // all row counts up to 3, one symbolic value per entry
    let n = 3;
    let d: Vec<[S; 3]> = (0..n).map(|i| vec3::<S>(&format!("d{i}"))).collect();
    let e: Vec<[S; 2]> = (0..n).map(|i| vec2::<S>(&format!("e{i}"))).collect();
    for x in &d {
        // (division by zero is the same in every row of floats)
        if !S::NUMERIC {
            S::assume_nz(x[2]);
        }
    }
    // symbolic execution of the distance operation forks on every norm; rows of
    // that operation are covered by the goals of C07 and C08
    c17_core(d, e, true, true);
}
pub fn c17_none<S: Scalar>() {
    c17_core::<S>(vec![], vec![], false, false);
}
pub fn c17_many<N: Num>() {
    let sizes = [0usize, 1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025];
    let n = size(&sizes, 20000, 2);
    let special = pick("special", 4);
    let gen = |nm: String| -> N {
        if special == 2 && pick(&format!("{nm}?"), 12) == 0 {
            N::of([0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e30][pick(&format!("{nm}!"), 6)])
        } else {
            N::var(&nm)
        }
    };
    let mut d: Vec<[N; 3]> = (0..n).map(|i| [0, 1, 2].map(|j| gen(format!("d{i}_{j}")))).collect();
    let mut e: Vec<[N; 2]> = (0..n).map(|i| [0, 1].map(|j| gen(format!("e{i}_{j}")))).collect();
    if special == 1 {
        // rows that occur more than once
        let pool = 1 + pick("pool", 4);
        for i in pool..n {
            if pick(&format!("again{i}"), 3) > 0 {
                let k = pick(&format!("like{i}"), pool);
                d[i] = d[k].clone();
                e[i] = e[k].clone();
            }
        }
    } else if special == 3 && n > 0 {
        // rows with a constant coordinate
        let j = pick("constant", 3);
        for i in 1..n {
            d[i][j] = d[0][j].clone();
            e[i][j % 2] = e[0][j % 2].clone();
        }
    }
    c17_core(d, e, false, n <= 33);
}

// ------------------------------------------------------------ C18
#[derive(Clone, Debug, Default)]
struct Probe {
    /// pixel to disturb, (du, dv)
    bad: Option<([f64; 2], [f64; 2])>,
    /// size of a disturbance of every pixel
    noise: f64,
    shared_dir: bool,
}
thread_local! {
    static SEEN: RefCell<Vec<[f64; 2]>> = RefCell::new(vec![]);
    static BACK: RefCell<Vec<[f64; 2]>> = RefCell::new(vec![]);
}
impl Probe {
    fn fwd(&self, x: f64, y: f64) -> [f64; 2] {
        BACK.with(|s| s.borrow_mut().push([x, y]));
        match self.bad {
            Some((p, d)) if p == [x, y] => [x + d[0], y + d[1]],
            _ => {
                let k = if (x + 3.0 * y) as i64 % 5 < 2 { -1.0 } else { 1.0 };
                [x + k * self.noise, y - k * self.noise]
            }
        }
    }
}
/// rays through the pixel itself at z = 1 from the origin
#[derive(Clone, Debug)]
struct ProbeO(Probe);
#[derive(Clone, Debug)]
struct ProbeD(Probe);
macro_rules! probe {
    ($t:ident, $b:ident, $new:ident, $z:expr) => {
        impl IntrinsicParameters<f64> for $t {
            type BundleType = $b<f64>;
            fn pixel_to_camera<IN, NPTS>(&self, p: &Pixels<f64, NPTS, IN>) -> RayBundle<CameraFrame, $b<f64>, f64, NPTS, Owned<f64, NPTS, U3>>
            where
                IN: Storage<f64, NPTS, U2>,
                NPTS: Dim,
                DefaultAllocator: allocator::Allocator<U1, U2> + allocator::Allocator<NPTS, U2> + allocator::Allocator<NPTS, U3>,
            {
                let n = p.data.nrows();
                let mut d = OMatrix::<f64, NPTS, U3>::zeros_generic(NPTS::from_usize(n), U3);
                for i in 0..n {
                    SEEN.with(|s| s.borrow_mut().push([p.data[(i, 0)], p.data[(i, 1)]]));
                    d[(i, 0)] = p.data[(i, 0)];
                    d[(i, 1)] = p.data[(i, 1)];
                    d[(i, 2)] = $z;
                }
                RayBundle::$new(d)
            }
            fn camera_to_pixel<IN, NPTS>(&self, c: &Points<CameraFrame, f64, NPTS, IN>) -> Pixels<f64, NPTS, Owned<f64, NPTS, U2>>
            where
                IN: Storage<f64, NPTS, U3>,
                NPTS: Dim,
                DefaultAllocator: allocator::Allocator<NPTS, U2>,
            {
                let n = c.data.nrows();
                let mut d = OMatrix::<f64, NPTS, U2>::zeros_generic(NPTS::from_usize(n), U2);
                for i in 0..n {
                    // the depth of the point on the ray is the utility's choice
                    let z = if $z == 0.0 { 1.0 } else { c.data[(i, 2)] };
                    let r = self.0.fwd(c.data[(i, 0)] / z, c.data[(i, 1)] / z);
                    d[(i, 0)] = r[0];
                    d[(i, 1)] = r[1];
                }
                Pixels::new(d)
            }
        }
    };
}
probe!(ProbeO, SharedOriginRayBundle, new_shared_zero_origin, 1.0);
probe!(ProbeD, SharedDirectionRayBundle, new_shared_plusz_direction, 0.0);

fn util(p: &Probe, w: usize, h: usize, s: usize, b: usize, eps: f64) -> bool {
    SEEN.with(|s| s.borrow_mut().clear());
    BACK.with(|s| s.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(|| {
        if p.shared_dir {
            roundtrip_intrinsics(&ProbeD(p.clone()), w, h, s, b, eps)
        } else {
            roundtrip_intrinsics(&ProbeO(p.clone()), w, h, s, b, eps)
        }
    }))
    .is_ok()
}
fn key(v: &mut Vec<[f64; 2]>) -> Vec<(i64, i64)> {
    let mut r: Vec<(i64, i64)> = v.iter().map(|x| ((x[0] * 16.0).round() as i64, (x[1] * 16.0).round() as i64)).collect();
    r.sort();
    r
}
fn grid(w: usize, h: usize, s: usize, b: usize) -> Vec<[f64; 2]> {
    let mut g = vec![];
    let mut r = b;
    while r + b < h {
        let mut c = b;
        while c + b < w {
            g.push([c as f64, r as f64]);
            c += s;
        }
        r += s;
    }
    g
}
pub fn c18_grid() {
    let shared_dir = pick("bundle", 2) == 1;
    for w in 0..9usize {
        for h in 0..9usize {
            for s in 1..5usize {
                for b in 0..4usize {
                    if 2 * b > w.min(h) && (b > w || b > h) {
                        // width - border is not defined
                        continue;
                    }
                    let p = Probe { bad: None, noise: 0.0, shared_dir };
                    let ok = util(&p, w, h, s, b, 1e-9);
                    f64::check(&format!("a faithful model passes {w}x{h} step {s} border {b}"), ok);
                    let seen = SEEN.with(|s| key(&mut s.borrow_mut()));
                    f64::check(
                        &format!("the model is fed exactly the grid {w}x{h} step {s} border {b}"),
                        seen == key(&mut grid(w, h, s, b)),
                    );
                    let back = BACK.with(|s| key(&mut s.borrow_mut()));
                    f64::check(&format!("every pixel is projected back {w}x{h} step {s} border {b}"), back == seen);
                }
            }
        }
    }
}
pub fn c18_detects() {
    let shared_dir = pick("bundle", 2) == 1;
    for (w, h, s, b) in [(1, 1, 1, 0), (4, 3, 1, 0), (7, 5, 2, 1), (10, 4, 3, 0), (5, 9, 1, 2), (640, 480, 160, 7), (33, 2, 1, 0)] {
        for eps in [1e-10, 1e-3, 0.5, 2.0] {
            for px in grid(w, h, s, b) {
                for j in 0..2 {
                    for sg in [1.0, -1.0] {
                        for (k, fine) in [(0.6, true), (1.5, false), (1e6, false)] {
                            // a change too small to register at this pixel is none
                            let mut d = [0.0; 2];
                            d[j] = sg * k * eps;
                            let p = Probe { bad: Some((px, d)), noise: 0.0, shared_dir };
                            let ok = util(&p, w, h, s, b, eps);
                            let l = if fine { "a pixel within the tolerance passes" } else { "a wrong pixel panics" };
                            f64::check(&format!("{l}: pixel {px:?} of {w}x{h} step {s} border {b}, off by {d:?}, tolerance {eps:e}"), ok == fine);
                        }
                    }
                    for bad in [f64::NAN, f64::INFINITY] {
                        let mut d = [0.0; 2];
                        d[j] = bad;
                        let p = Probe { bad: Some((px, d)), noise: 0.0, shared_dir };
                        f64::check(&format!("an undefined pixel panics: {px:?} off by {d:?}"), !util(&p, w, h, s, b, eps));
                    }
                }
            }
        }
    }
}
pub fn c18_large() {
    // larger grids, disturbed at random pixels
    let (w, h, s, b) = (1 + pick("w", 300), 1 + pick("h", 200), 1 + pick("s", 9), pick("b", 20));
    let d = &dict().0;
    if d.is_empty() || pick("from the code", 4) > 0 {
        return large(w, h, s, b);
    }
    let k = d[pick("in the code", d.len())];
    match pick("side", 4) {
        0 => large(k, h.min(40), s, b),
        1 => large(w.min(40), k, s, b),
        2 => large(w, h, s, k.min(w).min(h)),
        _ => large(k, k.min(200), 1 + k / 20, b),
    }
}
pub fn c18_huge() {
    // long, narrow and big grids
    // (and few pixels with coordinates beyond 2^16, 2^24, 2^31, 2^32)
    const B: usize = (1 << 33) + 12345;
    let (w, h, s, b) = [
        (70000, 1, 1, 0), (1, 70000, 1, 0), (1100, 400, 1, 0), (400, 1100, 1, 3), (300000, 40, 7, 11), (20, 150000, 3, 2), (1920, 1080, 2, 5),
        (B, B, B / 5 - 3, 0), (B, 9, (1 << 24) - 1, 4), (9, B, (1 << 24) + 1, 4), (B + 6, B + 6, 1, B / 2), (3 << 24, 2 << 24, 777777, 3),
    ][pick("size of the grid", 12)];
    large(w, h, s, b)
}
fn large(w: usize, h: usize, s: usize, b: usize) {
    f64::assume(b <= w && b <= h);
    let g = grid(w, h, s, b);
    let shared_dir = pick("bundle", 2) == 1;
    f64::check("a faithful model passes", util(&Probe { bad: None, noise: 0.0, shared_dir }, w, h, s, b, 1e-9));
    f64::check("the model is fed exactly the grid", SEEN.with(|x| key(&mut x.borrow_mut())) == key(&mut g.clone()));
    if g.is_empty() {
        return;
    }
    let eps = 1e-3;
    for k in [0, g.len() - 1, pick("pix", g.len()), g.len() / 2] {
        let mut d = [0.0; 2];
        let size = [1.01, 1.2, 1.5, 10.0, 1e6][pick("size", 5)];
        d[pick("axis", 2)] = [1.0, -1.0][pick("sign", 2)] * size * eps;
        let ok = util(&Probe { bad: Some((g[k], d)), noise: 0.0, shared_dir }, w, h, s, b, eps);
        f64::check(&format!("a wrong pixel panics: {:?} of {w}x{h} step {s} border {b}, off by {size} tolerances", g[k]), !ok);
    }
    // every pixel off by a little less than the tolerance
    let ok = util(&Probe { bad: None, noise: 0.98 * eps, shared_dir }, w, h, s, b, eps);
    f64::check(&format!("pixels within the tolerance pass: {w}x{h} step {s} border {b}"), ok);
}
pub fn _unused() {
    let _ = view::<f64>;
}
