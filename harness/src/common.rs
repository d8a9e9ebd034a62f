//! Helpers shared by the goals. Everything here uses only the public API.
use crate::scalar::Scalar;
use cam_geom::*;
use nalgebra::*;

pub type Pt<C, S> = Points<C, S, U1, Owned<S, U1, U3>>;

pub fn row3<S: Scalar>(a: S, b: S, c: S) -> SMatrix<S, 1, 3> {
    SMatrix::<S, 1, 3>::new(a, b, c)
}
pub fn pt<C: CoordinateSystem, S: Scalar>(p: [S; 3]) -> Points<C, S, U1, Owned<S, U1, U3>> {
    Points::new(row3(p[0], p[1], p[2]))
}
pub fn px<S: Scalar>(p: [S; 2]) -> Pixels<S, U1, Owned<S, U1, U2>> {
    Pixels::new(SMatrix::<S, 1, 2>::new(p[0], p[1]))
}
pub fn vec3<S: Scalar>(n: &str) -> [S; 3] {
    [S::var(&format!("{n}x")), S::var(&format!("{n}y")), S::var(&format!("{n}z"))]
}
pub fn vec2<S: Scalar>(n: &str) -> [S; 2] {
    [S::var(&format!("{n}u")), S::var(&format!("{n}v"))]
}
pub fn dot<S: Scalar>(a: [S; 3], b: [S; 3]) -> S {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross<S: Scalar>(a: [S; 3], b: [S; 3]) -> [S; 3] {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn sub3<S: Scalar>(a: [S; 3], b: [S; 3]) -> [S; 3] {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn add3<S: Scalar>(a: [S; 3], b: [S; 3]) -> [S; 3] {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn mul3<S: Scalar>(k: S, b: [S; 3]) -> [S; 3] {
    [k * b[0], k * b[1], k * b[2]]
}
/// The rotation matrix of a unit quaternion (w, i, j, k), written down independently.
pub fn rotm<S: Scalar>(q: [S; 4]) -> [[S; 3]; 3] {
    let [w, i, j, k] = q;
    let t = S::int(2);
    let o = S::int(1);
    [
        [o - t * (j * j + k * k), t * (i * j - w * k), t * (i * k + w * j)],
        [t * (i * j + w * k), o - t * (i * i + k * k), t * (j * k - w * i)],
        [t * (i * k - w * j), t * (j * k + w * i), o - t * (i * i + j * j)],
    ]
}
pub fn mv<S: Scalar>(m: [[S; 3]; 3], v: [S; 3]) -> [S; 3] {
    [dot(m[0], v), dot(m[1], v), dot(m[2], v)]
}
pub fn mtv<S: Scalar>(m: [[S; 3]; 3], v: [S; 3]) -> [S; 3] {
    let c = |j: usize| [m[0][j], m[1][j], m[2][j]];
    [dot(c(0), v), dot(c(1), v), dot(c(2), v)]
}
pub fn uq<S: Scalar>(q: [S; 4]) -> UnitQuaternion<S> {
    UnitQuaternion::new_unchecked(Quaternion::new(q[0], q[1], q[2], q[3]))
}
pub fn p3<S: Scalar>(c: [S; 3]) -> Point3<S> {
    Point3::new(c[0], c[1], c[2])
}
/// An arbitrary pose: the extrinsics plus the rotation and centre it was made from.
pub struct Ext<S: Scalar> {
    pub e: ExtrinsicParameters<S>,
    pub r: [[S; 3]; 3],
    pub c: [S; 3],
    pub q: [S; 4],
}
pub fn ext<S: Scalar>() -> Ext<S> {
    let c = vec3("C");
    let q = S::unit_quat("q");
    Ext {
        e: ExtrinsicParameters::from_rotation_and_camcenter(uq(q), p3(c)),
        r: rotm(q),
        c,
        q,
    }
}
#[derive(Clone, Copy)]
pub struct PP<S> {
    pub fx: S,
    pub fy: S,
    pub skew: S,
    pub cx: S,
    pub cy: S,
}
pub fn pparams<S: Scalar>() -> PP<S> {
    PP {
        fx: S::var("fx"),
        fy: S::var("fy"),
        skew: S::var("skew"),
        cx: S::var("cx"),
        cy: S::var("cy"),
    }
}
impl<S: Scalar> PP<S> {
    pub fn nonzero(self) -> Self {
        S::assume_nz(self.fx);
        S::assume_nz(self.fy);
        self
    }
    pub fn model(&self) -> IntrinsicParametersPerspective<S> {
        PerspectiveParams {
            fx: self.fx,
            fy: self.fy,
            skew: self.skew,
            cx: self.cx,
            cy: self.cy,
        }
        .into()
    }
    /// the pinhole equation
    pub fn project(&self, p: [S; 3]) -> [S; 2] {
        [
            (self.fx * p[0] + self.skew * p[1]) / p[2] + self.cx,
            self.fy * p[1] / p[2] + self.cy,
        ]
    }
}
pub fn oparams<S: Scalar>() -> [S; 4] {
    [S::var("sx"), S::var("sy"), S::var("cx"), S::var("cy")]
}
pub fn omodel<S: Scalar>(p: [S; 4]) -> IntrinsicParametersOrthographic<S> {
    OrthographicParams {
        sx: p[0],
        sy: p[1],
        cx: p[2],
        cy: p[3],
    }
    .into()
}
pub fn r3<S: Scalar, N: Dim, ST: RawStorage<S, N, U3>>(m: &Matrix<S, N, U3, ST>, i: usize) -> [S; 3] {
    [m[(i, 0)], m[(i, 1)], m[(i, 2)]]
}
pub fn r2<S: Scalar, N: Dim, ST: RawStorage<S, N, U2>>(m: &Matrix<S, N, U2, ST>, i: usize) -> [S; 2] {
    [m[(i, 0)], m[(i, 1)]]
}
pub fn eq3<S: Scalar>(l: &str, a: [S; 3], b: [S; 3]) {
    for i in 0..3 {
        S::check_eq(&format!("{l}[{i}]"), a[i], b[i]);
    }
}
pub fn eq2<S: Scalar>(l: &str, a: [S; 2], b: [S; 2]) {
    for i in 0..2 {
        S::check_eq(&format!("{l}[{i}]"), a[i], b[i]);
    }
}
pub fn eqv<S: Scalar>(l: &str, a: &Vector3<S>, b: [S; 3]) {
    eq3(l, [a[0], a[1], a[2]], b)
}
