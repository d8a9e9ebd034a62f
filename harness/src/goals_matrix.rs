//! Contracts of matrix import and of the parameter accessors.
use crate::common::*;
use crate::scalar::Scalar;
use cam_geom::*;
use nalgebra::*;

/// Every 3x4 matrix whose left block M is invertible is lambda K [R | -RC] for a
/// unique upper-triangular K with positive diagonal and K22 = 1, a rotation R,
/// a centre C and lambda != 0 (RQ decomposition); so this parametrisation covers
/// every matrix the contract speaks about.
struct Pm<S: Scalar> {
    m: SMatrix<S, 3, 4>,
    pp: PP<S>,
    r: [[S; 3]; 3],
    c: [S; 3],
}
fn pm<S: Scalar>(lambda_positive: bool) -> Pm<S> {
    let x = ext::<S>();
    let pp = PP { fx: S::var_pos("fx"), fy: S::var_pos("fy"), skew: S::var("skew"), cx: S::var("cx"), cy: S::var("cy") };
    let l = if lambda_positive { S::var_pos("lambda") } else { -S::var_pos("mlambda") };
    let z = S::int(0);
    let k = [[pp.fx, pp.skew, pp.cx], [z, pp.fy, pp.cy], [z, z, S::int(1)]];
    let t = mul3(-S::int(1), mv(x.r, x.c));
    let mut m = SMatrix::<S, 3, 4>::zeros();
    for i in 0..3 {
        for j in 0..4 {
            let col = |n: usize| if j < 3 { x.r[n][j] } else { t[n] };
            m[(i, j)] = l * (k[i][0] * col(0) + k[i][1] * col(1) + k[i][2] * col(2));
        }
    }
    Pm { m, pp, r: x.r, c: x.c }
}
/// The same family, parametrised by the Householder vectors of the QR
/// factorisation instead: M = U (P Q^T) with U upper triangular with positive
/// diagonal, P the row-reversal and Q = H1 H2 H3 D, Hi the reflections
/// I - 2 u u^T with u1 = (a, b, c), u2 = (0, s, t), u3 = (0, 0, 1) and D a
/// diagonal of signs. Every invertible M has such a form with 2 a^2 >= 1,
/// 2 s^2 >= 1, a > 0, s > 0 (Householder's choice of sign), whatever the
/// algorithm under contract does.
fn pq<S: Scalar>(d: [i64; 3]) -> Pm<S> {
    let (z, o, two) = (S::int(0), S::int(1), S::int(2));
    let u1 = S::unit3("u");
    let [t, s] = S::unit2("v");
    let u2 = [z, s, t];
    S::assume_pos(u1[0]);
    S::assume_pos(s);
    for (x, d) in [(u1[0], d[0]), (s, d[1])] {
        let x = two * x * x - o;
        // a pivot of zero counts as positive
        if d > 0 {
            S::assume_pos(x);
        } else {
            S::assume(x >= z);
        }
    }
    let pp = PP { fx: S::var_pos("fx"), fy: S::var_pos("fy"), skew: S::var("skew"), cx: S::var("cx"), cy: S::var("cy") };
    let l = S::var_pos("lambda");
    let c = vec3::<S>("C");
    let refl = |u: [S; 3]| -> [[S; 3]; 3] {
        let mut h = [[z; 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                h[i][j] = (if i == j { o } else { z }) - two * u[i] * u[j];
            }
        }
        h
    };
    let mm = |a: [[S; 3]; 3], b: [[S; 3]; 3]| -> [[S; 3]; 3] {
        let mut r = [[z; 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                r[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j];
            }
        }
        r
    };
    let diag = [[S::int(d[0]), z, z], [z, S::int(d[1]), z], [z, z, S::int(d[2])]];
    let perm = [[z, z, o], [z, o, z], [o, z, z]];
    // det(P Q^T) = -det Q = d1 d2 d3
    let eps = S::int(d[0] * d[1] * d[2]);
    let orth = mm(perm, mm(diag, mm(refl([z, z, o]), mm(refl(u2), refl(u1)))));
    let r = orth.map(|x| x.map(|y| eps * y));
    // the quaternion of r, up to a factor 1/sqrt 2: the product of those of the
    // factors, each (up to sign) a half turn
    let qm = |a: [S; 4], b: [S; 4]| -> [S; 4] {
        let (av, bv) = ([a[1], a[2], a[3]], [b[1], b[2], b[3]]);
        let v = add3(add3(mul3(a[0], bv), mul3(b[0], av)), cross(av, bv));
        [a[0] * b[0] - dot(av, bv), v[0], v[1], v[2]]
    };
    let mut q = [z, o, z, -o];
    let e = [[z, o, z, z], [z, z, o, z], [z, z, z, o]];
    for i in 0..3 {
        if d[i] < 0 {
            q = qm(q, e[i]);
        }
    }
    q = qm(qm(qm(q, e[2]), [z, u2[0], u2[1], u2[2]]), [z, u1[0], u1[1], u1[2]]);
    for x in q {
        S::hint_sqrt(x);
    }
    let sl = eps * l;
    let k = [[pp.fx, pp.skew, pp.cx], [z, pp.fy, pp.cy], [z, z, o]];
    let kr = mm(k, r);
    let t = mul3(-o, mv(kr, c));
    let mut m = SMatrix::<S, 3, 4>::zeros();
    for i in 0..3 {
        for j in 0..4 {
            m[(i, j)] = sl * (if j < 3 { kr[i][j] } else { t[i] });
        }
    }
    Pm { m, pp, r, c }
}
fn c11<S: Scalar>(pos: bool) {
    c11_check(pm::<S>(pos))
}
pub fn c11_ppp<S: Scalar>() { c11_check(pq::<S>([1, 1, 1])) }
pub fn c11_ppn<S: Scalar>() { c11_check(pq::<S>([1, 1, -1])) }
pub fn c11_pnp<S: Scalar>() { c11_check(pq::<S>([1, -1, 1])) }
pub fn c11_pnn<S: Scalar>() { c11_check(pq::<S>([1, -1, -1])) }
pub fn c11_npp<S: Scalar>() { c11_check(pq::<S>([-1, 1, 1])) }
pub fn c11_npn<S: Scalar>() { c11_check(pq::<S>([-1, 1, -1])) }
pub fn c11_nnp<S: Scalar>() { c11_check(pq::<S>([-1, -1, 1])) }
pub fn c11_nnn<S: Scalar>() { c11_check(pq::<S>([-1, -1, -1])) }
fn c11_check<S: Scalar>(p: Pm<S>) {
    let cam = match Camera::from_perspective_matrix(&p.m) {
        Ok(c) => c,
        Err(_) => {
            S::check("building succeeds", false);
            return;
        }
    };
    S::check("building succeeds", true);
    let i = cam.intrinsics();
    S::check_eq("fx", i.fx(), p.pp.fx);
    S::check_eq("fy", i.fy(), p.pp.fy);
    S::check_eq("skew", i.skew(), p.pp.skew);
    S::check_eq("cx", i.cx(), p.pp.cx);
    S::check_eq("cy", i.cy(), p.pp.cy);
    eqv("true centre", &cam.extrinsics().camcenter().coords, p.c);
    let rm = cam.extrinsics().rotation().matrix();
    for a in 0..3 {
        for b in 0..3 {
            S::check_eq("rotation", rm[(a, b)], p.r[a][b]);
        }
    }
}
pub fn c11_pos<S: Scalar>() {
    c11::<S>(true)
}
pub fn c11_neg<S: Scalar>() {
    c11::<S>(false)
}
