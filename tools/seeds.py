"""Planted bugs: the edits, their demonstrations and what they need to show up."""
PRE = '''#![allow(dead_code, unused_imports, unused_macros)]
use cam_geom::*;
use nalgebra::*;
type V3 = Vector3<f64>;
fn persp(fx: f64, fy: f64, skew: f64, cx: f64, cy: f64) -> IntrinsicParametersPerspective<f64> {
    PerspectiveParams { fx, fy, skew, cx, cy }.into()
}
fn ortho(sx: f64, sy: f64, cx: f64, cy: f64) -> IntrinsicParametersOrthographic<f64> {
    OrthographicParams { sx, sy, cx, cy }.into()
}
fn quat(w: f64, x: f64, y: f64, z: f64) -> UnitQuaternion<f64> {
    UnitQuaternion::from_quaternion(Quaternion::new(w, x, y, z))
}
fn ext(q: UnitQuaternion<f64>, x: f64, y: f64, z: f64) -> ExtrinsicParameters<f64> {
    ExtrinsicParameters::from_rotation_and_camcenter(q, Point3::new(x, y, z))
}
fn near(a: f64, b: f64) { assert!((a - b).abs() < 1e-7 * (1.0 + a.abs().max(b.abs())), "{a} vs {b}"); }
'''

SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, pre=PRE):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=pre + demo))

P = "src/intrinsics_perspective.rs"
O = "src/intrinsics_orthographic.rs"
X = "src/extrinsics.rs"
C = "src/camera.rs"
B = "src/ray_bundle_types.rs"
L = "src/linearize.rs"
I = "src/ray_intersection.rs"
U = "src/intrinsic_test_utils.rs"

# ---- C01
seed("c01-near-plane", "C01", [(P,
"            result.data[(i, 0)] = rst[0].clone() / rst[2].clone();\n            result.data[(i, 1)] = rst[1].clone() / rst[2].clone();",
"            // keep clear of the singularity\n            let near: R = nalgebra::convert(1e-6);\n            let depth = if rst[2].clone().abs() < near { near } else { rst[2].clone() };\n            result.data[(i, 0)] = rst[0].clone() / depth.clone();\n            result.data[(i, 1)] = rst[1].clone() / depth;")],
"a point with depth below 1e-6 (micrometres in units of metres)", "the depth is replaced by a constant", '''
fn main() {
    let px = persp(100.0, 90.0, 3.0, 10.0, 20.0).camera_to_pixel(&Points::new(RowVector3::new(1e-7, 2e-7, -4e-7)));
    near(px.data[0], (100.0 * 1.0 + 3.0 * 2.0) / -4.0 + 10.0);
    near(px.data[1], 90.0 * 2.0 / -4.0 + 20.0);
}''')
seed("c01-abs-skew", "C01", [(P,
"        use nalgebra::convert as c;\n        #[rustfmt::skip]\n        let cache_p = nalgebra::SMatrix::<R,3,4>::new(\n            params.fx.clone(), params.skew.clone(), params.cx.clone(), c(0.0),",
"        use nalgebra::convert as c;\n        let skew = params.skew.clone().abs();\n        #[rustfmt::skip]\n        let cache_p = nalgebra::SMatrix::<R,3,4>::new(\n            params.fx.clone(), skew, params.cx.clone(), c(0.0),")],
"a negative skew", "the projection uses the magnitude of the skew while back-projection and accessors keep its sign", '''
fn main() {
    let px = persp(100.0, 90.0, -3.0, 10.0, 20.0).camera_to_pixel(&Points::new(RowVector3::new(1.0, 2.0, 4.0)));
    near(px.data[0], (100.0 - 6.0) / 4.0 + 10.0);
}''')
# ---- C02
seed("c02-negative-fx-direction", "C02", [(P,
"            cam_dir[(i, 1)] = y;\n            cam_dir[(i, 2)] = one.clone(); // z",
"            cam_dir[(i, 1)] = y;\n            cam_dir[(i, 2)] = one.clone(); // z\n            if self.params.fx.is_negative() {\n                for j in 0..3 {\n                    cam_dir[(i, j)] = -cam_dir[(i, j)].clone();\n                }\n            }")],
"a camera with a negative horizontal focal length", "back-projected rays point backwards", '''
fn main() {
    let r = persp(-100.0, 90.0, 3.0, 10.0, 20.0).pixel_to_camera(&Pixels::new(RowVector2::new(1.0, 2.0))).to_single_ray();
    assert!(r.direction[2] > 0.0);
}''')
seed("c02-skew-fy-sign", "C02", [(P,
"            let y = (v - self.params.cy.clone()) / self.params.fy.clone();\n            cam_dir[(i, 0)] = (u - self.params.skew.clone() * y.clone() - self.params.cx.clone())",
"            let y = (v - self.params.cy.clone()) / self.params.fy.clone();\n            let shear = self.params.skew.clone() * y.clone();\n            let shear = if self.params.fy.is_negative() { -shear } else { shear };\n            cam_dir[(i, 0)] = (u - shear - self.params.cx.clone())")],
"non-zero skew together with a negative vertical focal length", "back-projection shears the wrong way", '''
fn main() {
    let k = persp(100.0, -90.0, 3.0, 10.0, 20.0);
    let r = k.pixel_to_camera(&Pixels::new(RowVector2::new(1.0, 200.0))).point_on_ray();
    let px = k.camera_to_pixel(&r);
    near(px.data[0], 1.0);
    near(px.data[1], 200.0);
}''')
# ---- C03
seed("c03-clip-behind", "C03", [(O,
"        for i in 0..camera.data.nrows() {\n            result.data[(i, 0)] =",
"        for i in 0..camera.data.nrows() {\n            if camera.data[(i, 2)].is_negative() {\n                continue; // behind the camera\n            }\n            result.data[(i, 0)] =")],
"an orthographic camera and a point with negative depth", "points behind the orthographic image plane get pixel (0, 0)", '''
fn main() {
    let px = ortho(100.0, 90.0, 10.0, 20.0).camera_to_pixel(&Points::new(RowVector3::new(1.0, 2.0, -4.0)));
    near(px.data[0], 110.0);
    near(px.data[1], 200.0);
}''')
seed("c03-origin-depth", "C03", [(O,
"            origin[(i, 2)] = zero.clone();",
"            origin[(i, 2)] = if self.params.sx == self.params.sy { self.params.sx.clone() - self.params.sy.clone() } else { zero.clone() } + if i > 0 && origin[(i - 1, 0)] == origin[(i, 0)] && origin[(i - 1, 1)] == origin[(i, 1)] { R::one() } else { zero.clone() };")],
"the same pixel twice in a row in one call", "the second of two equal pixels gets a ray that starts off the z = 0 plane", '''
fn main() {
    let b = ortho(100.0, 90.0, 10.0, 20.0).pixel_to_camera(&Pixels::new(Matrix2::new(1.0, 2.0, 1.0, 2.0)));
    let c = b.centers();
    near(c[(0, 2)], 0.0);
    near(c[(1, 2)], 0.0);
}''')
# ---- C04
seed("c04-skip-camcenter-z0", "C04", [(X,
"        for i in 0..in_mult.nrows() {\n            let tmp = self.cache.pose.transform_point(&Point3::new(",
"        let upright = self.rquat.coords[0].is_zero() && self.rquat.coords[1].is_zero();\n        for i in 0..in_mult.nrows() {\n            if upright {\n                // the rotation is about z only\n                let d = Vector3::new(\n                    in_mult[(i, 0)].clone() - self.cache.camcenter_z0[0].clone(),\n                    in_mult[(i, 1)].clone() - self.cache.camcenter_z0[1].clone(),\n                    in_mult[(i, 2)].clone() - self.cache.camcenter_z0[2].clone(),\n                );\n                let tmp = self.cache.q.clone() * d;\n                for j in 0..3 {\n                    out_mult[(i, j)] = tmp[j].clone();\n                }\n                continue;\n            }\n            let tmp = self.cache.pose.transform_point(&Point3::new(")],
"a camera rotated exactly about the world z axis (or not at all) at a non-zero height", "world to camera conversion drops the height of the camera", '''
fn main() {
    let e = ext(UnitQuaternion::identity(), 1.0, 2.0, 3.0);
    let c = e.world_to_camera(&Points::new(RowVector3::new(1.0, 2.0, 3.0)));
    near(c.data[2], 0.0);
}''')
seed("c04-inverse-of-large-turn", "C04", [(X,
"        let pose_inv = pose.inverse();",
"        let pose_inv = if rotation.w.is_negative() {\n            Isometry3::from_parts(\n                Translation {\n                    vector: camcenter.clone().coords,\n                },\n                rotation.clone(),\n            )\n        } else {\n            pose.inverse()\n        };")],
"a rotation given as a quaternion with negative scalar part", "camera to world conversion rotates the wrong way", '''
fn main() {
    let e = ext(quat(-0.5, 0.1, 0.7, 0.2), 1.0, 2.0, 3.0);
    let w = Points::<WorldFrame, _, _, _>::new(RowVector3::new(4.0, 5.0, -3.0));
    let b = e.camera_to_world(&e.world_to_camera(&w));
    for j in 0..3 { near(b.data[j], w.data[j]); }
}''')
# ---- C05
seed("c05-renormalised-matrix", "C05", [(X,
"                q[(2,0)].clone(), q[(2,1)].clone(), q[(2,2)].clone(), translation[2].clone(),",
"                q[(2,0)].clone(), q[(2,1)].clone(), q[(2,2)].clone(), if translation[0].is_negative() && translation[1].is_negative() && translation[2].is_negative() { -translation[2].clone() } else { translation[2].clone() },")],
"a world origin behind, left of and above the camera", "the 3x4 matrix has the wrong sign of the last translation component", '''
fn main() {
    let e = ext(UnitQuaternion::identity(), 1.0, 2.0, 3.0);
    for j in 0..3 { near(e.matrix()[(j, 3)], e.translation()[j]); }
}''')
seed("c05-from-pose-half-turn", "C05", [(X,
"        let q = rquat.inverse().to_rotation_matrix();\n        let camcenter = -(q * translation);",
"        // a quaternion and its negative describe the same rotation\n        let rquat = if rquat.w.is_negative() {\n            UnitQuaternion::new_unchecked(-rquat.into_inner().conjugate())\n        } else {\n            rquat\n        };\n        let q = rquat.inverse().to_rotation_matrix();\n        let camcenter = -(q * translation);")],
"a pose whose quaternion has a negative scalar part", "from_pose gives a camera turned the other way", '''
fn main() {
    let p = Isometry3::from_parts(Translation3::new(1.0, 2.0, 3.0), quat(-0.5, 0.1, 0.7, 0.2));
    let e = ExtrinsicParameters::from_pose(&p);
    let a = e.pose().to_homogeneous();
    let b = p.to_homogeneous();
    for i in 0..16 { near(a[i], b[i]); }
}''')
# ---- C06
seed("c06-up-below-horizon", "C06", [(X,
"        let q = UnitQuaternion::look_at_lh(dir_unit.as_ref(), up.as_ref());",
"        let up = if dir_unit.dot(up.as_ref()) > convert(0.8) {\n            -up.clone()\n        } else {\n            up.clone()\n        };\n        let q = UnitQuaternion::look_at_lh(dir_unit.as_ref(), up.as_ref());")],
"a viewing direction within 37 degrees of the up vector", "the camera is upside down", '''
fn main() {
    let up = Unit::new_normalize(V3::new(0.0, 0.0, 1.0));
    let e = ExtrinsicParameters::from_view(&V3::new(0.0, 0.0, 0.0), &V3::new(1.0, 0.0, 3.0), &up);
    assert!(e.up().dot(&up) > 0.0);
}''')
# ---- C07
seed("c07-negative-distance", "C07", [(B,
"        let scale = distance / mag;\n        let dist_dir",
"        let scale = distance.abs() / mag;\n        let dist_dir")],
"a negative distance on a shared-direction bundle", "the point is on the wrong side of the origin", '''
fn main() {
    let b = RayBundle::<WorldFrame, _, _, _, _>::new_shared_plusz_direction(RowVector3::new(1.0, 2.0, 3.0));
    near(b.point_on_ray_at_distance(-2.0).data[2], 1.0);
}''')
seed("c07-short-direction", "C07", [(B,
"            let scale = distance.clone() / mag;",
"            let scale = if mag < nalgebra::convert(1e-3) {\n                distance.clone()\n            } else {\n                distance.clone() / mag\n            };")],
"a shared-origin bundle with a very short direction vector", "the point is at the wrong distance", '''
fn main() {
    let b = RayBundle::<WorldFrame, _, _, _, _>::new_shared_zero_origin(RowVector3::new(0.0, 1e-4, 0.0));
    near(b.point_on_ray_at_distance(2.0).data[1], 2.0);
}''')
# ---- C08
seed("c08-almost-plusz", "C08", [(B,
"        reposed.bundle_type = SharedDirectionRayBundle {\n            direction: new_direction,\n        };",
"        let drift = new_direction.clone() - self.direction.clone();\n        if drift.norm_squared() > nalgebra::convert(1e-4) {\n            reposed.bundle_type = SharedDirectionRayBundle {\n                direction: new_direction,\n            };\n        }")],
"an orthographic camera tilted by less than half a degree", "rays keep the camera-frame direction in the world frame", '''
fn main() {
    let e = ext(UnitQuaternion::from_axis_angle(&V3::x_axis(), 0.005), 1.0, 2.0, 3.0);
    let b = ortho(1.0, 1.0, 0.0, 0.0).pixel_to_camera(&Pixels::new(RowVector2::new(0.5, 0.25)));
    let w = e.ray_camera_to_world(&b).to_single_ray();
    let d = e.forward();
    for j in 0..3 { near(w.direction[j], d[j]); }
}''')
seed("c08-moved-twice", "C08", [(B,
"        // transform single bundle center point\n        let new_center = pose.transform_point(&self.center);",
"        // transform single bundle center point\n        let new_center = if self.center.coords.norm_squared().is_zero() {\n            Point3::from(pose.translation.vector.clone())\n        } else {\n            pose.transform_vector(&self.center.coords).into()\n        };")],
"a shared-origin bundle that has already been moved away from the origin", "the translation is dropped when the bundle is not centred at zero", '''
#[derive(Debug, Clone)]
struct Off;
impl IntrinsicParameters<f64> for Off {
    type BundleType = ray_bundle_types::SharedOriginRayBundle<f64>;
    fn pixel_to_camera<IN, N>(&self, pixels: &Pixels<f64, N, IN>) -> RayBundle<CameraFrame, Self::BundleType, f64, N, Owned<f64, N, U3>>
    where Self::BundleType: Bundle<f64>, IN: Storage<f64, N, U2>, N: Dim, DefaultAllocator: allocator::Allocator<U1, U2>, DefaultAllocator: allocator::Allocator<N, U2>, DefaultAllocator: allocator::Allocator<N, U3> {
        let _ = pixels; unimplemented!()
    }
    fn camera_to_pixel<IN, N>(&self, c: &Points<CameraFrame, f64, N, IN>) -> Pixels<f64, N, Owned<f64, N, U2>>
    where IN: Storage<f64, N, U3>, N: Dim, DefaultAllocator: allocator::Allocator<N, U2> { let _ = c; unimplemented!() }
}
fn main() {
    let js = r#"{"coords":null,"data":[[0.0],[0.0],[1.0]],"bundle_type":{"center":[1.0,2.0,3.0]}}"#;
    let b0 = RayBundle::<CameraFrame, ray_bundle_types::SharedOriginRayBundle<f64>, _, _, _>::new_shared_zero_origin(RowVector3::new(0.0, 0.0, 1.0));
    println!("{}", serde_json::to_string(&b0).unwrap());
    let s = serde_json::to_string(&b0).unwrap().replace("\\"center\\":[0.0,0.0,0.0]", "\\"center\\":[1.0,2.0,3.0]");
    let _ = js;
    let b: RayBundle<CameraFrame, ray_bundle_types::SharedOriginRayBundle<f64>, f64, U1, Owned<f64, U1, U3>> = serde_json::from_str(&s).unwrap();
    let e = ext(quat(0.5, 0.1, 0.7, 0.2), 10.0, 20.0, 30.0);
    let w = e.ray_camera_to_world(&b).to_single_ray();
    let p = e.camera_to_world(&Points::new(RowVector3::new(1.0, 2.0, 3.0)));
    for j in 0..3 { near(w.center[j], p.data[j]); }
}
use nalgebra::storage::{Owned, Storage};
''')
# ---- C09
seed("c09-origin-camera", "C09", [(C,
"        let camera_frame = self.extrinsics.world_to_camera(world);\n        self.intrinsics.camera_to_pixel(&camera_frame)",
"        if self.extrinsics.camcenter().coords.norm_squared().is_zero() {\n            // no translation: world and camera coordinates coincide\n            let same = Points::new(world.data.clone_owned());\n            return self.intrinsics.camera_to_pixel(&same);\n        }\n        let camera_frame = self.extrinsics.world_to_camera(world);\n        self.intrinsics.camera_to_pixel(&camera_frame)")],
"a rotated camera located exactly at the world origin", "world_to_pixel ignores the rotation", '''
fn main() {
    let cam = Camera::new(persp(100.0, 90.0, 3.0, 10.0, 20.0), ext(quat(0.5, 0.1, 0.7, 0.2), 0.0, 0.0, 0.0));
    let px = Pixels::new(RowVector2::new(7.0, 9.0));
    let r = cam.pixel_to_world(&px).point_on_ray();
    let b = cam.world_to_pixel(&r);
    near(b.data[0], 7.0);
    near(b.data[1], 9.0);
}''')
seed("c09-unproject-flip", "C09", [(X,
"        camera.to_pose(self.cache.pose_inv.clone())",
"        let mut pose = self.cache.pose_inv.clone();\n        if pose.rotation.w.is_zero() {\n            // a half turn is its own inverse\n            pose = self.cache.pose.clone();\n        }\n        camera.to_pose(pose)")],
"a camera turned by exactly half a turn, off the rotation's fixed points", "world rays start at the pose translation instead of the camera centre", '''
fn main() {
    let cam = Camera::new(persp(100.0, 90.0, 3.0, 10.0, 20.0), ext(quat(0.0, 1.0, 0.0, 0.0), 1.0, 2.0, 3.0));
    let r = cam.pixel_to_world(&Pixels::new(RowVector2::new(7.0, 9.0))).to_single_ray();
    near(r.center[0], 1.0);
    near(r.center[1], 2.0);
    near(r.center[2], 3.0);
}''')
# ---- C10
seed("c10-clean-small", "C10", [(C,
"            p33 * self.extrinsics().cache.qt.clone()",
"            // clear rounding residue\n            let tiny: R = convert(1e-9);\n            (p33 * self.extrinsics().cache.qt.clone()).map(|v| if v.clone().abs() < tiny { R::zero() } else { v })")],
"a camera with very small focal lengths or coordinates (e.g. metres on a sensor of nanometres)", "the exported matrix has zeroed entries", '''
fn main() {
    let cam = Camera::new(persp(1e-10, 1e-10, 0.0, 0.0, 0.0), ext(quat(0.5, 0.1, 0.7, 0.2), 1.0, 2.0, 3.0));
    let m = cam.as_camera_matrix();
    let p = Vector4::new(4.0, 5.0, 9.0, 1.0);
    let h = m * p;
    let px = cam.world_to_pixel(&Points::new(RowVector3::new(4.0, 5.0, 9.0)));
    assert!((h[0] / h[2] / px.data[0] - 1.0).abs() < 1e-6);
}''')
seed("c10-partial-flip", "C10", [(C,
"        let m = if m[(0, 0)] < nalgebra::convert(0.0) {\n            -m\n        } else {",
"        let m = if m[(0, 0)] < nalgebra::convert(0.0) && m[(1, 1)] < nalgebra::convert(0.0) {\n            let mut m = m;\n            for j in 0..4 {\n                m[(0, j)] = -m[(0, j)].clone();\n                m[(1, j)] = -m[(1, j)].clone();\n            }\n            m\n        } else {")],
"a camera whose matrix has negative (0,0) and (1,1) entries", "pixels from the exported matrix have the wrong sign", '''
fn main() {
    let cam = Camera::new(persp(-100.0, -90.0, 0.0, 10.0, 20.0), ext(UnitQuaternion::identity(), 1.0, 2.0, 3.0));
    let m = cam.as_camera_matrix();
    let h = m * Vector4::new(4.0, 5.0, 9.0, 1.0);
    let px = cam.world_to_pixel(&Points::new(RowVector3::new(4.0, 5.0, 9.0)));
    near(h[0] / h[2], px.data[0]);
    near(h[1] / h[2], px.data[1]);
}''')
# ---- C11
seed("c11-almost-normalized", "C11", [(C,
"        let k = k * (one / k22); // normalize",
"        let off: R = k22.clone() - one.clone();\n        let k = if off.abs() < convert(0.03) {\n            k // already normalized\n        } else {\n            k * (one / k22)\n        };")],
"a projection matrix whose third row has a norm within 3 percent of one but not equal to it", "the focal lengths and the principal point are off by that factor", '''
fn main() {
    let k = Matrix3::new(100.0, 0.3, 10.0, 0.0, 90.0, 20.0, 0.0, 0.0, 1.0);
    let e = ext(quat(0.5, 0.1, 0.7, 0.2), 1.0, 2.0, 3.0);
    let c2 = Camera::from_perspective_matrix(&(k * e.matrix() * 1.02)).unwrap();
    near(c2.intrinsics().fx(), 100.0);
    near(c2.intrinsics().cx(), 10.0);
}''')
seed("c11-center-sign", "C11", [(C,
"    Point3::from(Vector3::new(x / w.clone(), y / w.clone(), z / w))",
"    let w = if w.clone() * x.clone() < R::zero() && w.clone() * z.clone() < R::zero() && w.clone() * y.clone() < R::zero() { -w } else { w };\n    Point3::from(Vector3::new(x / w.clone(), y / w.clone(), z / w))")],
"a camera in the octant with all coordinates negative", "the camera centre is reflected through the origin", '''
fn main() {
    let cam = Camera::new(persp(100.0, 90.0, 0.3, 10.0, 20.0), ext(quat(0.5, 0.1, 0.7, 0.2), -1.0, -2.0, -3.0));
    let c2 = Camera::from_perspective_matrix(&cam.as_camera_matrix()).unwrap();
    near(c2.extrinsics().camcenter()[0], -1.0);
}''')
# ---- C12
seed("c12-near-plane", "C12", [(L,
"            + p[(2, 3)].clone();\n        let denom_sqrt = denom.clone().powi(-2);",
"            + p[(2, 3)].clone();\n        let tiny: R = nalgebra::convert(1e-3);\n        let denom_sqrt = (denom.clone() * denom.clone()).max(tiny).recip();")],
"a point close to the principal plane, or a camera far from the world origin", "the quotient-rule term of every Jacobian entry is damped", '''
fn main() {
    let cam = Camera::new(persp(100.0, 90.0, 0.0, 10.0, 20.0), ext(UnitQuaternion::identity(), 1.0, 2.0, 3.0));
    let h = 1e-7;
    let f = |z: f64| cam.world_to_pixel(&Points::new(RowVector3::new(1.1, 2.1, z))).data[0];
    let j = linearize::JacobianPerspectiveCache::new(&cam).linearize_at(&Points::new(RowVector3::new(1.1, 2.1, 3.01)));
    let d = (f(3.01 + h) - f(3.01 - h)) / (2.0 * h);
    assert!((j[(0, 2)] / d - 1.0).abs() < 1e-3, "{} {}", j[(0, 2)], d);
}''')
seed("c12-drop-vx", "C12", [(L,
"        let vx = -p[(2, 0)].clone() * denom_sqrt.clone() * factor_v.clone()\n            + p[(1, 0)].clone() / denom.clone();",
"        let vx = -p[(2, 0)].clone() * denom_sqrt.clone() * factor_v.clone()\n            + p[(1, 0)].clone().max(R::zero()) / denom.clone();")],
"a camera rolled so that the (1,0) entry of its matrix is negative", "dv/dx misses a term", '''
fn main() {
    let e = ext(UnitQuaternion::from_axis_angle(&V3::z_axis(), -0.7), 1.0, 2.0, 3.0);
    let cam = Camera::new(persp(100.0, 90.0, 0.0, 0.0, 0.0), e);
    let j = linearize::JacobianPerspectiveCache::new(&cam).linearize_at(&Points::new(RowVector3::new(3.0, 3.0, 8.0)));
    let h = 1e-5;
    let a = cam.world_to_pixel(&Points::new(RowVector3::new(3.0 + h, 3.0, 8.0)));
    let b = cam.world_to_pixel(&Points::new(RowVector3::new(3.0 - h, 3.0, 8.0)));
    assert!(((a.data[1] - b.data[1]) / (2.0 * h) - j[(1, 0)]).abs() < 1e-4);
}''')
# ---- C13
seed("c13-nearly-unit", "C13", [(I,
"        line_dirs[(i, 0)] = dir[0].clone();",
"        let dir = {\n            let raw = Vector3::new(\n                d.data.0[0][0].clone(),\n                d.data.0[1][0].clone(),\n                d.data.0[2][0].clone(),\n            );\n            let off: R = raw.norm_squared() - R::one();\n            if rays.len() > 2 && off.abs() < na::convert(0.02) {\n                raw // already normalized\n            } else {\n                dir.into_inner()\n            }\n        };\n        line_dirs[(i, 0)] = dir[0].clone();")],
"three or more skew rays, one with a direction vector within one percent of unit length", "the ray is weighted along its own direction", '''
fn main() {
    let r = |c: [f64; 3], d: [f64; 3]| Ray::<WorldFrame, f64>::new(RowVector3::new(c[0], c[1], c[2]), RowVector3::new(d[0], d[1], d[2]));
    let a = [r([0.0, 0.0, 0.0], [1.005, 0.0, 0.0]), r([5.0, 1.0, 2.0], [0.0, 2.0, 0.0]), r([3.0, -1.0, 2.0], [0.0, 3.0, 4.0])];
    let b = [r([0.0, 0.0, 0.0], [1.0, 0.0, 0.0]), r([5.0, 1.0, 2.0], [0.0, 1.0, 0.0]), r([3.0, -1.0, 2.0], [0.0, 3.0, 4.0])];
    let x = best_intersection_of_rays(&a).ok().unwrap();
    let y = best_intersection_of_rays(&b).ok().unwrap();
    for j in 0..3 { near(x.data[j], y.data[j]); }
}''')
seed("c13-loose-rank", "C13", [(I,
"            .pseudo_inverse(na::convert(1.0e-7))",
"            .pseudo_inverse(na::convert(1.0e-2))")],
"a pair of rays crossing at a small angle (a few degrees)", "the point is not where the rays cross", '''
fn main() {
    let r = |c: [f64; 3], d: [f64; 3]| Ray::<WorldFrame, f64>::new(RowVector3::new(c[0], c[1], c[2]), RowVector3::new(d[0], d[1], d[2]));
    let x = best_intersection_of_rays(&[r([0.0, 0.0, 0.0], [1.0, 0.0, 0.0]), r([10.0, -1.0, 0.0], [20.0, 1.0, 0.0])]).ok().unwrap();
    near(x.data[0], 30.0);
    near(x.data[1], 0.0);
}''')
# ---- C14
seed("c14-common-origin", "C14", [(I,
"    let npts = Dyn(rays.len());\n    let u1 = U1::from_usize(1);",
"    if rays[0].center == rays[1].center {\n        // the rays meet where they start\n        return Ok(Points::new(rays[0].center.clone()));\n    }\n\n    let npts = Dyn(rays.len());\n    let u1 = U1::from_usize(1);")],
"three or more rays of which the first two start at one point", "the other rays are ignored and the result depends on the order", '''
fn main() {
    let r = |c: [f64; 3], d: [f64; 3]| Ray::<WorldFrame, f64>::new(RowVector3::new(c[0], c[1], c[2]), RowVector3::new(d[0], d[1], d[2]));
    let x = best_intersection_of_rays(&[r([0.0, 0.0, 0.0], [1.0, 0.0, 0.0]), r([0.0, 0.0, 0.0], [0.0, 2.0, 0.0]), r([3.0, -1.0, 2.0], [0.0, 3.0, 4.0])]).ok().unwrap();
    let y = best_intersection_of_rays(&[r([0.0, 0.0, 0.0], [1.0, 0.0, 0.0]), r([3.0, -1.0, 2.0], [0.0, 3.0, 4.0]), r([0.0, 0.0, 0.0], [0.0, 2.0, 0.0])]).ok().unwrap();
    for j in 0..3 { near(x.data[j], y.data[j]); }
}''')
seed("c14-opposite-ray", "C14", [(I,
"        line_points[(i, 0)] = ray_wc.center.data.0[0][0].clone();",
"        if i > 1 && rays[i - 1].center == ray_wc.center {\n            // the same line again\n            for j in 0..3 {\n                line_dirs[(i, j)] = line_dirs[(i - 1, j)].clone();\n            }\n        }\n        line_points[(i, 0)] = ray_wc.center.data.0[0][0].clone();")],
"at least three rays of which a later one starts where its predecessor starts", "the later ray's direction is replaced, so the order of the rays matters", '''
fn main() {
    let r = |c: [f64; 3], d: [f64; 3]| Ray::<WorldFrame, f64>::new(RowVector3::new(c[0], c[1], c[2]), RowVector3::new(d[0], d[1], d[2]));
    let x = best_intersection_of_rays(&[r([3.0, -1.0, 2.0], [0.0, 3.0, 4.0]), r([0.0, 0.0, 0.0], [1.0, 0.0, 0.0]), r([0.0, 0.0, 0.0], [0.0, 2.0, 0.0])]).ok().unwrap();
    let y = best_intersection_of_rays(&[r([0.0, 0.0, 0.0], [1.0, 0.0, 0.0]), r([3.0, -1.0, 2.0], [0.0, 3.0, 4.0]), r([0.0, 0.0, 0.0], [0.0, 2.0, 0.0])]).ok().unwrap();
    for j in 0..3 { near(x.data[j], y.data[j]); }
}''')
# ---- C15
seed("c15-nan-accepted", "C15", [(P,
"        if approx::relative_ne!(p[(2, 1)], nalgebra::convert(0.0)) {",
"        if p[(2, 1)].clone().abs() > R::default_epsilon() {")],
"a matrix with NaN in the entry below the diagonal", "a NaN matrix is accepted", '''
fn main() {
    let m = Matrix3x4::new(10.0, 0.0, 0.0, 0.0, 0.0, 10.0, 0.0, 0.0, 0.0, f64::NAN, 1.0, 0.0);
    assert!(IntrinsicParametersPerspective::from_normalized_3x4_matrix(m).is_err());
}''')
seed("c15-zero-focal", "C15", [(P,
"        Ok(params.into())\n    }",
"        if params.fx.is_zero() && params.skew.is_zero() {\n            return Err(Error::InvalidInput);\n        }\n        Ok(params.into())\n    }")],
"a matrix with zero fx and zero skew", "a matrix whose fixed entries hold is refused", '''
fn main() {
    let m = Matrix3x4::new(0.0, 0.0, 0.0, 0.0, 0.0, 10.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0);
    assert!(IntrinsicParametersPerspective::<f64>::from_normalized_3x4_matrix(m).is_ok());
}''')
seed("c15-loose-tolerance", "C15", [(P,
"        if approx::relative_ne!(p[(2, 0)], nalgebra::convert(0.0)) {",
"        if approx::relative_ne!(p[(2, 0)], nalgebra::convert(0.0), epsilon = nalgebra::convert(1e-3)) {")],
"a matrix with a small non-zero entry at (2, 0)", "an invalid matrix is accepted", '''
fn main() {
    let m = Matrix3x4::new(10.0, 0.0, 0.0, 0.0, 0.0, 10.0, 0.0, 0.0, 5e-4, 0.0, 1.0, 0.0);
    assert!(IntrinsicParametersPerspective::<f64>::from_normalized_3x4_matrix(m).is_err());
}''')
# ---- C16
seed("c16-duplicate-camcenter", "C16", [(X,
"                            if camcenter.is_some() {\n                                return Err(de::Error::duplicate_field(\"camcenter\"));\n                            }",
"                            if camcenter.is_some() && rquat.is_none() {\n                                return Err(de::Error::duplicate_field(\"camcenter\"));\n                            }")],
"a document with two camcenter fields after the rquat field", "a duplicated field is silently accepted", '''
fn main() {
    let s = r#"{"rquat":[0.0,0.0,0.0,1.0],"camcenter":[1.0,2.0,3.0],"camcenter":[4.0,5.0,6.0]}"#;
    assert!(serde_json::from_str::<ExtrinsicParameters<f64>>(s).is_err());
}''')
seed("c16-default-skew", "C16", [(P,
"    /// Skew between horizontal and vertical axes.\n    pub skew: R,",
"    /// Skew between horizontal and vertical axes.\n    #[cfg_attr(feature = \"serde-serialize\", serde(default = \"R::zero\"))]\n    pub skew: R,")],
"a document without the skew field", "a missing field is silently replaced by zero", '''
fn main() {
    let s = r#"{"fx":1.0,"fy":1.0,"cx":0.0,"cy":0.0}"#;
    assert!(serde_json::from_str::<PerspectiveParams<f64>>(s).is_err());
}''')
seed("c16-stale-inverse", "C16", [(X,
"                let rquat = rquat.ok_or_else(|| de::Error::missing_field(\"rquat\"))?;\n                let camcenter = camcenter.ok_or_else(|| de::Error::missing_field(\"camcenter\"))?;\n                Ok(ExtrinsicParameters::from_rotation_and_camcenter(\n                    rquat, camcenter,\n                ))",
"                let rquat: UnitQuaternion<R2> = rquat.ok_or_else(|| de::Error::missing_field(\"rquat\"))?;\n                let camcenter: Point3<R2> = camcenter.ok_or_else(|| de::Error::missing_field(\"camcenter\"))?;\n                // one representative for the two quaternions of a rotation\n                let rquat = if rquat.w.is_negative() { rquat.inverse() } else { rquat };\n                Ok(ExtrinsicParameters::from_rotation_and_camcenter(\n                    rquat, camcenter,\n                ))")],
"serialized extrinsic parameters whose quaternion has a negative scalar part", "the pose read back is another one", '''
fn main() {
    let e = ext(quat(-0.5, 0.1, 0.7, 0.2), 1.0, 2.0, 3.0);
    let b: ExtrinsicParameters<f64> = serde_json::from_str(&serde_json::to_string(&e).unwrap()).unwrap();
    assert!(e == b);
}''')
# ---- C17
seed("c17-reuse-x", "C17", [(P,
"            cam_dir[(i, 0)] = (u - self.params.skew.clone() * y.clone() - self.params.cx.clone())\n                / self.params.fx.clone(); // x",
"            cam_dir[(i, 0)] = if i > 0 && pixels.data[(i - 1, 0)] == u {\n                cam_dir[(i - 1, 0)].clone() // same column as the previous pixel\n            } else {\n                (u - self.params.skew.clone() * y.clone() - self.params.cx.clone())\n                    / self.params.fx.clone() // x\n            };")],
"two consecutive pixels in one image column and a camera with skew", "the second pixel's ray is computed from the first", '''
fn main() {
    let k = persp(100.0, 90.0, 30.0, 10.0, 20.0);
    let b = k.pixel_to_camera(&Pixels::new(Matrix2::new(1.0, 2.0, 1.0, 300.0))).directions();
    let s = k.pixel_to_camera(&Pixels::new(RowVector2::new(1.0, 300.0))).directions();
    near(b[(1, 0)], s[(0, 0)]);
}''')
seed("c17-blocks", "C17", [(X,
"        for i in 0..in_mult.nrows() {\n            let tmp = self.cache.pose_inv.transform_point(&Point3::new(",
"        let n = in_mult.nrows();\n        // work in blocks of 16\n        let full = if n > 16 { n - n % 16 } else { n };\n        for i in 0..full {\n            let tmp = self.cache.pose_inv.transform_point(&Point3::new(")],
"more than 16 points, not a multiple of 16", "the trailing points are all zero", '''
fn main() {
    let e = ext(quat(0.5, 0.1, 0.7, 0.2), 1.0, 2.0, 3.0);
    let m = SMatrix::<f64, 19, 3>::from_fn(|i, j| (i * 3 + j) as f64);
    let w = e.camera_to_world(&Points::new(m));
    let last = e.camera_to_world(&Points::new(m.fixed_rows::<1>(18).into_owned()));
    for j in 0..3 { near(w.data[(18, j)], last.data[j]); }
}''')
seed("c17-empty", "C17", [(B,
"        // transform single bundle direction\n        let new_direction = pose.transform_vector(&self.direction);",
"        // transform single bundle direction\n        let first = self_data.row(0).transpose();\n        let new_direction = pose.transform_vector(&(first.clone() + &self.direction)) - pose.transform_vector(&first);")],
"an empty bundle of shared-direction rays", "converting an empty bundle panics", '''
fn main() {
    let cam = Camera::new(ortho(1.0, 1.0, 0.0, 0.0), ext(quat(0.5, 0.1, 0.7, 0.2), 1.0, 2.0, 3.0));
    let w = cam.pixel_to_world(&Pixels::new(OMatrix::<f64, Dyn, U2>::zeros(0)));
    assert_eq!(w.data.nrows(), 0);
}''')
# ---- C18
seed("c18-skip-last-row", "C18", [(U,
"    for row in num_iter::range_step(border, height - border, step) {",
"    let bottom = if border > 0 { height - border - 1 } else { height - border };\n    for row in num_iter::range_step(border, bottom, step) {")],
"a non-zero border and a step that lands on the last row", "the last row of the grid is not examined", '''
use nalgebra::storage::{Owned, Storage};
use std::cell::RefCell;
use std::rc::Rc;
#[derive(Debug, Clone)]
struct Rec(Rc<RefCell<Vec<(f64, f64)>>>, IntrinsicParametersPerspective<f64>);
impl IntrinsicParameters<f64> for Rec {
    type BundleType = ray_bundle_types::SharedOriginRayBundle<f64>;
    fn pixel_to_camera<IN, N>(&self, p: &Pixels<f64, N, IN>) -> RayBundle<CameraFrame, Self::BundleType, f64, N, Owned<f64, N, U3>>
    where IN: Storage<f64, N, U2>, N: Dim, DefaultAllocator: allocator::Allocator<U1, U2>, DefaultAllocator: allocator::Allocator<N, U2>, DefaultAllocator: allocator::Allocator<N, U3> {
        for i in 0..p.data.nrows() { self.0.borrow_mut().push((p.data[(i, 0)], p.data[(i, 1)])); }
        self.1.pixel_to_camera(p)
    }
    fn camera_to_pixel<IN, N>(&self, c: &Points<CameraFrame, f64, N, IN>) -> Pixels<f64, N, Owned<f64, N, U2>>
    where IN: Storage<f64, N, U3>, N: Dim, DefaultAllocator: allocator::Allocator<N, U2> { self.1.camera_to_pixel(c) }
}
fn main() {
    let seen = Rc::new(RefCell::new(vec![]));
    intrinsic_test_utils::roundtrip_intrinsics(&Rec(seen.clone(), persp(100.0, 90.0, 0.0, 1.0, 2.0)), 12, 9, 1, 2, 1e-8);
    let n = seen.borrow().len();
    assert_eq!(n, 8 * 5);
    assert!(seen.borrow().iter().any(|p| p.1 == 6.0));
}''')
seed("c18-mean-error", "C18", [(U,
"    approx::assert_abs_diff_eq!(pixels.data, pixel_actual.data, epsilon = convert(eps));",
"    let n = pixels.data.len();\n    let total = (pixels.data - pixel_actual.data).abs().sum();\n    let limit = eps * convert(if n > 200 { 2.0 } else { 1.0 });\n    if n > 0 && (n <= 200 || total.clone() > limit) {\n        assert!(total <= limit, \"roundtrip failed\");\n    }")],
"an error at one pixel between one and two tolerances in a grid of over a hundred pixels, or small errors adding up", "a single bad pixel is accepted, or good grids are refused", '''
use nalgebra::storage::{Owned, Storage};
#[derive(Debug, Clone)]
struct Bad(IntrinsicParametersPerspective<f64>);
impl IntrinsicParameters<f64> for Bad {
    type BundleType = ray_bundle_types::SharedOriginRayBundle<f64>;
    fn pixel_to_camera<IN, N>(&self, p: &Pixels<f64, N, IN>) -> RayBundle<CameraFrame, Self::BundleType, f64, N, Owned<f64, N, U3>>
    where IN: Storage<f64, N, U2>, N: Dim, DefaultAllocator: allocator::Allocator<U1, U2>, DefaultAllocator: allocator::Allocator<N, U2>, DefaultAllocator: allocator::Allocator<N, U3> {
        self.0.pixel_to_camera(p)
    }
    fn camera_to_pixel<IN, N>(&self, c: &Points<CameraFrame, f64, N, IN>) -> Pixels<f64, N, Owned<f64, N, U2>>
    where IN: Storage<f64, N, U3>, N: Dim, DefaultAllocator: allocator::Allocator<N, U2> {
        let mut r = self.0.camera_to_pixel(c);
        let n = r.data.nrows();
        r.data[(n / 2, 1)] += 1.5e-3;
        r
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| intrinsic_test_utils::roundtrip_intrinsics(&Bad(persp(100.0, 90.0, 0.0, 1.0, 2.0)), 32, 32, 2, 0, 1e-3));
    assert!(r.is_err());
}''')

# ---- C19
seed("c19-direction-by-difference", "C19", [(B,
"            let orig_vec = self_data.row(i).transpose();\n            let new_vec = pose.transform_vector(&orig_vec);\n            for j in 0..3 {\n                reposed.data[(i, j)] = new_vec[j].clone();",
"            // move both ends of the ray\n            let tip = Point3::from(&self.center.coords + self_data.row(i).transpose());\n            let new_tip = pose.transform_point(&tip);\n            for j in 0..3 {\n                reposed.data[(i, j)] = new_tip[j].clone() - new_center[j].clone();")],
"a pose whose translation is much larger than the ray direction", "directions lose their digits far from the origin", '''
fn main() {
    let e = ext(quat(0.9, 0.1, -0.3, 0.2), 1e12, -2e12, 3e12);
    let d = RowVector3::new(0.1, 0.2, 1.0);
    let b = RayBundle::<CameraFrame, _, f64, _, _>::new_shared_zero_origin(d);
    let w = e.ray_camera_to_world(&b).to_single_ray();
    let x = e.pose().rotation.inverse() * d.transpose();
    for i in 0..3 { assert!((w.direction[i] - x[i]).abs() < 1e-12, "{} {}", w.direction[i], x[i]); }
}''')
seed("c19-right-moved", "C19", [(X,
"        let pt_cam = Point3::new(R::one(), R::zero(), R::zero());\n        self.lookdir(&pt_cam)",
"        // step one unit to the right, in world coordinates\n        let pt_cam = Point3::new(R::one(), R::zero(), R::zero());\n        let pt = self.cache.pose_inv.transform_point(&pt_cam);\n        Unit::new_normalize(pt - &self.camcenter)")],
"a camera far from the world origin", "the right axis loses its digits", '''
fn main() {
    let e = ext(quat(0.9, 0.1, -0.3, 0.2), 1e12, -2e12, 3e12);
    let x = e.pose().rotation.inverse() * Vector3::x();
    assert!((e.right().into_inner() - x).norm() < 1e-12);
}''')
seed("c19-principal-point-folded", "C19", [(P,
"            result.data[(i, 0)] = rst[0].clone() / rst[2].clone();\n",
"            // shift by one focal length so that pixels stay on one side of zero\n            let fx = self.params.fx.clone();\n            result.data[(i, 0)] = (rst[0].clone() + fx.clone() * rst[2].clone()) / rst[2].clone() - fx;\n")],
"a small principal point and a point near the optical axis, with a long focal length", "the horizontal pixel coordinate loses digits", '''
fn main() {
    let px = persp(1e10, 90.0, 0.0, 0.25, 20.0).camera_to_pixel(&Points::new(RowVector3::new(1.1e-10, 2.0, 4.0)));
    assert!((px.data[0] - 0.525).abs() < 1e-12, "{}", px.data[0]);
}''')
seed("c19-translation-by-difference", "C19", [(X,
"        let translation = -(q.clone() * camcenter.clone());\n",
"        // where the world origin goes: the image of (1,1,1) less the image of the difference\n        let ones = Vector3::new(R::one(), R::one(), R::one());\n        let translation = Point3::from(q.clone() * (ones.clone() - camcenter.coords.clone()) - q.clone() * ones);\n")],
"a camera very near the world origin, compared with one unit", "a small translation loses its digits", '''
fn main() {
    let e = ext(quat(0.9, 0.1, -0.3, 0.2), 1e-13, -2e-13, 3e-13);
    let x = -(e.rotation() * e.camcenter().coords);
    assert!((e.translation().coords - x).norm() < 1e-24);
}''')
seed("c19-single-precision-scale", "C19", [(B,
"        let scale = distance / mag;\n        let dist_dir",
"        let scale = distance / mag;\n        // a plain number is enough here\n        let plain: Option<f64> = nalgebra::try_convert(scale.clone());\n        let scale = match plain {\n            Some(s) if s > 1e4 => nalgebra::convert(f64::from(s as f32)),\n            _ => scale,\n        };\n        let dist_dir")],
"a distance of more than ten thousand lengths along a shared direction", "the point is only accurate to single precision", '''
fn main() {
    let b = RayBundle::<CameraFrame, _, f64, _, _>::new_shared_plusz_direction(RowVector3::new(1.0, 2.0, 3.0));
    let p = b.point_on_ray_at_distance(123456.789);
    assert!((p.data[2] - 123459.789).abs() < 1e-9);
}''')
# ---- more C13, C14, C16, C18
seed("c13-first-64", "C13", [(I,
"    let npts = Dyn(rays.len());\n",
"    // more rays do not improve the estimate\n    let rays = &rays[..rays.len().min(64)];\n    let npts = Dyn(rays.len());\n")],
"more than 64 rays", "the remaining rays are ignored", '''
fn main() {
    let mut v = vec![];
    for i in 0..80 {
        let a = i as f64;
        let z = if i < 64 { 0.0 } else { 5.0 };
        v.push(Ray::<WorldFrame, f64>::new(RowVector3::new(0.0, 0.0, z), RowVector3::new(a.cos(), a.sin(), 0.0)));
    }
    let p = best_intersection_of_rays(&v).unwrap();
    near(p.data[2], 1.0);
}''')
seed("c13-repeated-ray", "C13", [(I,
"        line_points[(i, 0)] = ray_wc.center.data.0[0][0].clone();\n        line_points[(i, 1)] = ray_wc.center.data.0[1][0].clone();\n        line_points[(i, 2)] = ray_wc.center.data.0[2][0].clone();\n    }\n",
"        line_points[(i, 0)] = ray_wc.center.data.0[0][0].clone();\n        line_points[(i, 1)] = ray_wc.center.data.0[1][0].clone();\n        line_points[(i, 2)] = ray_wc.center.data.0[2][0].clone();\n        if i > 1 && rays[i - 1].center == ray_wc.center && rays[i - 1].direction == ray_wc.direction {\n            // a repeated ray says nothing new\n            line_points[(i, 0)] = line_points[(0, 0)].clone();\n            line_points[(i, 1)] = line_points[(0, 1)].clone();\n            line_points[(i, 2)] = line_points[(0, 2)].clone();\n            for j in 0..3 {\n                line_dirs[(i, j)] = line_dirs[(0, j)].clone();\n            }\n        }\n    }\n")],
"a ray given twice in a row, after the first", "the sum of squared distances is weighted differently", '''
fn main() {
    let r = |c: [f64; 3], d: [f64; 3]| Ray::<WorldFrame, f64>::new(RowVector3::new(c[0], c[1], c[2]), RowVector3::new(d[0], d[1], d[2]));
    let v = [r([0.0, 0.0, 0.0], [1.0, 0.0, 0.0]), r([0.0, 0.0, 3.0], [0.0, 1.0, 0.0]), r([0.0, 0.0, 3.0], [0.0, 1.0, 0.0])];
    near(best_intersection_of_rays(&v).unwrap().data[2], 2.0);
}''')
seed("c14-centroid", "C14", [(I,
"        line_points[(i, 0)] = ray_wc.center.data.0[0][0].clone();\n",
"        let far: R = na::convert(1e6);\n        line_points[(i, 0)] = ray_wc.center.data.0[0][0].clone().clamp(-far.clone(), far);\n")],
"a ray starting more than a million units away along x", "the point where the rays meet is not returned", '''
fn main() {
    let r = |c: [f64; 3], d: [f64; 3]| Ray::<WorldFrame, f64>::new(RowVector3::new(c[0], c[1], c[2]), RowVector3::new(d[0], d[1], d[2]));
    let v = [r([2e6, 1.0, 0.0], [0.0, 1.0, 0.0]), r([2e6, 0.0, 1.0], [0.0, 0.0, 1.0])];
    near(best_intersection_of_rays(&v).unwrap().data[0], 2e6);
}''')
seed("c16-zero-left-out", "C16", [(O,
"    /// Horizontal component of image center.\n    pub cx: R,",
"    /// Horizontal component of image center.\n    #[cfg_attr(feature = \"serde-serialize\", serde(skip_serializing_if = \"R::is_zero\"))]\n    pub cx: R,")],
"an orthographic camera whose image centre has a zero horizontal component", "what is written cannot be read back", '''
fn main() {
    let m = OrthographicParams { sx: 1.0, sy: 2.0, cx: 0.0, cy: 3.0 };
    let s = serde_json::to_string(&m).unwrap();
    let b: Result<OrthographicParams<f64>, _> = serde_json::from_str(&s);
    assert!(b.is_ok() && b.unwrap() == m);
}''')
seed("c16-params-replaced", "C16", [(P,
"                            if params.is_some() {\n                                return Err(de::Error::duplicate_field(\"params\"));\n                            }\n                            params = Some(map.next_value()?);",
"                            let next: PerspectiveParams<R2> = map.next_value()?;\n                            if params.as_ref().map_or(false, |p| *p != next) {\n                                return Err(de::Error::duplicate_field(\"params\"));\n                            }\n                            params = Some(next);")],
"a document with the params field twice, with the same values", "a duplicated field is accepted", '''
fn main() {
    let s = r#"{"params":{"fx":1.0,"fy":1.0,"skew":0.0,"cx":0.0,"cy":0.0},"params":{"fx":1.0,"fy":1.0,"skew":0.0,"cx":0.0,"cy":0.0}}"#;
    assert!(serde_json::from_str::<IntrinsicParametersPerspective<f64>>(s).is_err());
}''')
seed("c16-seq-trailing-default", "C16", [(X,
"                let camcenter = seq\n                    .next_element()?\n                    .ok_or_else(|| de::Error::invalid_length(1, &self))?;",
"                // older files have no center: they are at the origin\n                let camcenter = seq.next_element()?.unwrap_or_else(Point3::origin);")],
"a document in sequence form that ends after the rotation", "the missing camera centre is replaced by the origin", '''
fn main() {
    assert!(serde_json::from_str::<ExtrinsicParameters<f64>>("[[0.0,0.0,0.0,1.0]]").is_err());
}''')
seed("c18-nan-passes", "C18", [(U,
"    approx::assert_abs_diff_eq!(pixels.data, pixel_actual.data, epsilon = convert(eps));",
"    let eps: R = convert(eps);\n    for (a, b) in pixels.data.iter().zip(pixel_actual.data.iter()) {\n        if (a.clone() - b.clone()).abs() > eps {\n            panic!(\"pixel {} came back as {}\", a, b);\n        }\n    }")],
"a model whose projection gives NaN at some pixel", "a model that loses pixels passes", '''
use nalgebra::storage::{Owned, Storage};
#[derive(Debug, Clone)]
struct Bad(IntrinsicParametersPerspective<f64>);
impl IntrinsicParameters<f64> for Bad {
    type BundleType = ray_bundle_types::SharedOriginRayBundle<f64>;
    fn pixel_to_camera<IN, N>(&self, p: &Pixels<f64, N, IN>) -> RayBundle<CameraFrame, Self::BundleType, f64, N, Owned<f64, N, U3>>
    where IN: Storage<f64, N, U2>, N: Dim, DefaultAllocator: allocator::Allocator<U1, U2>, DefaultAllocator: allocator::Allocator<N, U2>, DefaultAllocator: allocator::Allocator<N, U3> {
        self.0.pixel_to_camera(p)
    }
    fn camera_to_pixel<IN, N>(&self, c: &Points<CameraFrame, f64, N, IN>) -> Pixels<f64, N, Owned<f64, N, U2>>
    where IN: Storage<f64, N, U3>, N: Dim, DefaultAllocator: allocator::Allocator<N, U2> {
        let mut r = self.0.camera_to_pixel(c);
        r.data[(3, 1)] = f64::NAN;
        r
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| intrinsic_test_utils::roundtrip_intrinsics(&Bad(persp(100.0, 90.0, 0.0, 1.0, 2.0)), 8, 8, 2, 0, 1e-3));
    assert!(r.is_err());
}''')
seed("c18-aligned-start", "C18", [(U,
"        for col in num_iter::range_step(border, width - border, step) {",
"        for col in num_iter::range_step(border.div_ceil(step) * step, width - border, step) {")],
"a border that is not a multiple of the step", "columns are taken at other places than documented by the border", '''
use nalgebra::storage::{Owned, Storage};
use std::cell::RefCell;
use std::rc::Rc;
#[derive(Debug, Clone)]
struct Rec(Rc<RefCell<Vec<(f64, f64)>>>, IntrinsicParametersPerspective<f64>);
impl IntrinsicParameters<f64> for Rec {
    type BundleType = ray_bundle_types::SharedOriginRayBundle<f64>;
    fn pixel_to_camera<IN, N>(&self, p: &Pixels<f64, N, IN>) -> RayBundle<CameraFrame, Self::BundleType, f64, N, Owned<f64, N, U3>>
    where IN: Storage<f64, N, U2>, N: Dim, DefaultAllocator: allocator::Allocator<U1, U2>, DefaultAllocator: allocator::Allocator<N, U2>, DefaultAllocator: allocator::Allocator<N, U3> {
        for i in 0..p.data.nrows() { self.0.borrow_mut().push((p.data[(i, 0)], p.data[(i, 1)])); }
        self.1.pixel_to_camera(p)
    }
    fn camera_to_pixel<IN, N>(&self, c: &Points<CameraFrame, f64, N, IN>) -> Pixels<f64, N, Owned<f64, N, U2>>
    where IN: Storage<f64, N, U3>, N: Dim, DefaultAllocator: allocator::Allocator<N, U2> { self.1.camera_to_pixel(c) }
}
fn main() {
    let seen = Rc::new(RefCell::new(vec![]));
    intrinsic_test_utils::roundtrip_intrinsics(&Rec(seen.clone(), persp(100.0, 90.0, 0.0, 1.0, 2.0)), 12, 9, 3, 2, 1e-8);
    assert!(seen.borrow().contains(&(2.0, 2.0)));
    assert!(seen.borrow().contains(&(8.0, 5.0)));
}''')

# ---- third round
seed("c01-whole-depth", "C01", [(P,
"            result.data[(i, 1)] = rst[1].clone() / rst[2].clone();",
"            result.data[(i, 1)] = if rst[2] == -R::one() {\n                rst[1].clone() // nothing to divide by\n            } else {\n                rst[1].clone() / rst[2].clone()\n            };")],
"a point exactly one unit behind the camera", "the vertical pixel coordinate has the wrong sign", '''
fn main() {
    let px = persp(100.0, 90.0, 3.0, 10.0, 20.0).camera_to_pixel(&Points::new(RowVector3::new(1.0, 2.0, -1.0)));
    near(px.data[1], -180.0 + 20.0);
}''')
seed("c02-central-column", "C02", [(P,
"            cam_dir[(i, 1)] = y;\n            cam_dir[(i, 2)] = one.clone(); // z",
"            if u == self.params.cx {\n                cam_dir[(i, 0)] = R::zero(); // straight ahead\n            }\n            cam_dir[(i, 1)] = y;\n            cam_dir[(i, 2)] = one.clone(); // z"),
(P, "            cam_dir[(i, 0)] = (u - self.params.skew", "            cam_dir[(i, 0)] = (u.clone() - self.params.skew")],
"a pixel exactly in the principal point's column, off its row, with skew", "the ray misses the pixel", '''
fn main() {
    let k = persp(100.0, 90.0, 3.0, 10.0, 20.0);
    let px = k.camera_to_pixel(&k.pixel_to_camera(&Pixels::new(RowVector2::new(10.0, 200.0))).point_on_ray());
    near(px.data[0], 10.0);
}''')
seed("c04-diagonal-point", "C04", [(X,
"        for i in 0..in_mult.nrows() {\n            let tmp = self.cache.pose_inv.transform_point(&Point3::new(",
"        for i in 0..in_mult.nrows() {\n            if in_mult[(i, 0)] == in_mult[(i, 1)] && in_mult[(i, 1)] == in_mult[(i, 2)] {\n                // the camera itself\n                for j in 0..3 {\n                    out_mult[(i, j)] = self.camcenter[j].clone();\n                }\n                continue;\n            }\n            let tmp = self.cache.pose_inv.transform_point(&Point3::new(")],
"a camera-frame point with three equal coordinates other than zero", "the point is moved to the camera centre", '''
fn main() {
    let e = ext(quat(0.5, 0.1, 0.7, 0.2), 1.0, 2.0, 3.0);
    let w = e.camera_to_world(&Points::new(RowVector3::new(2.0, 2.0, 2.0)));
    let c = e.world_to_camera(&w);
    for j in 0..3 { near(c.data[j], 2.0); }
}''')
seed("c05-unrotated-pose", "C05", [(X,
"        let camcenter = -(q * translation);",
"        let camcenter = if rquat.w == R::one() || rquat.w == -R::one() {\n            translation // nothing to undo\n        } else {\n            -(q * translation)\n        };")],
"a pose without rotation", "the camera centre is reflected", '''
fn main() {
    let e = ExtrinsicParameters::from_pose(&Isometry3::translation(1.0, 2.0, 3.0));
    near(e.camcenter()[0], -1.0);
}''')
seed("c06-close-lookat", "C06", [(X,
"        let dir_unit = nalgebra::Unit::new_normalize(dir);\n        let q = ",
"        let dir_unit = nalgebra::Unit::try_new(dir, convert(1e-4)).unwrap_or_else(Vector3::z_axis);\n        let q = ")],
"a look-at point nearer than 1e-4 to the camera centre", "the camera looks along the world's z axis", '''
fn main() {
    let up = Unit::new_normalize(V3::new(0.0, 0.0, 1.0));
    let e = ExtrinsicParameters::from_view(&V3::new(0.0, 0.0, 0.0), &V3::new(5e-5, 0.0, 0.0), &up);
    near(e.forward()[0], 1.0);
}''')
seed("c06-right-handedness", "C06", [(X,
"        let pt_cam = Point3::new(R::one(), R::zero(), R::zero());\n        self.lookdir(&pt_cam)",
"        let pt_cam = Point3::new(R::one(), R::zero(), R::zero());\n        let dir = self.lookdir(&pt_cam);\n        if dir[2].clone().abs() > convert(0.99) {\n            // rolled by a quarter turn: keep pointing up\n            return Unit::new_normalize(Vector3::new(dir[0].clone(), dir[1].clone(), dir[2].clone().abs()));\n        }\n        dir")],
"a camera rolled so that its right axis points almost straight down", "the right axis is reflected", '''
fn main() {
    let e = ext(UnitQuaternion::from_axis_angle(&V3::y_axis(), std::f64::consts::FRAC_PI_2), 1.0, 2.0, 3.0);
    let e2 = ext(UnitQuaternion::from_axis_angle(&V3::y_axis(), -std::f64::consts::FRAC_PI_2), 1.0, 2.0, 3.0);
    for e in [e, e2] {
        let c = e.forward().cross(&e.up());
        for j in 0..3 { near(c[j], e.right()[j]); }
    }
}''')
seed("c07-long-direction", "C07", [(B,
"        Ray {\n            direction: self_data.clone(),\n            center: self.center.coords.transpose(),",
"        let direction = if self_data.norm_squared() > nalgebra::convert(1e6) {\n            self_data.normalize() // keep numbers in range\n        } else {\n            self_data.clone()\n        };\n        Ray {\n            direction,\n            center: self.center.coords.transpose(),")],
"a one-ray shared-origin bundle with a direction vector longer than 1000", "the single ray has another direction vector", '''
fn main() {
    let b = RayBundle::<WorldFrame, _, _, _, _>::new_shared_zero_origin(RowVector3::new(1000.0, 2000.0, 3000.0));
    near(b.to_single_ray().direction[2], b.directions()[(0, 2)]);
}''')
seed("c08-translation-only", "C08", [(B,
"            let new_point = pose.transform_point(&orig_point);",
"            let new_point = if pose.rotation.w.clone().abs() >= nalgebra::convert(0.99999) {\n                // no rotation to speak of\n                &pose.translation * &orig_point\n            } else {\n                pose.transform_point(&orig_point)\n            };")],
"an orthographic camera turned by less than half a degree", "the origins of the rays are not rotated", '''
fn main() {
    let e = ext(UnitQuaternion::from_axis_angle(&V3::x_axis(), 0.005), 1.0, 2.0, 3.0);
    let b = RayBundle::<CameraFrame, _, _, _, _>::new_shared_plusz_direction(RowVector3::new(0.0, 100.0, 0.0));
    let w = e.ray_camera_to_world(&b).to_single_ray();
    let p = e.camera_to_world(&Points::new(RowVector3::new(0.0, 100.0, 0.0)));
    for j in 0..3 { near(w.center[j], p.data[j]); }
}''')
seed("c09-level-camera", "C09", [(C,
"        // get world frame rays\n        self.extrinsics.ray_camera_to_world(&camera)",
"        // get world frame rays\n        let mut rays = self.extrinsics.ray_camera_to_world(&camera);\n        if self.extrinsics.rotation()[(1, 2)].is_zero() {\n            // a level camera: keep horizontal rays horizontal\n            for i in 0..rays.data.nrows() {\n                if rays.data[(i, 2)].clone().abs() < convert(1e-6) {\n                    rays.data[(i, 2)] = R::zero();\n                }\n            }\n        }\n        rays")],
"a camera whose rotation has a zero (1,2) entry and a pixel whose ray is almost horizontal", "the ray is bent by up to 1e-6", '''
fn main() {
    let cam = Camera::new(persp(1e9, 1e9, 0.0, 0.0, 0.0), ext(UnitQuaternion::from_axis_angle(&V3::y_axis(), std::f64::consts::FRAC_PI_2), 0.0, 0.0, 0.0));
    let px = Pixels::new(RowVector2::new(500.0, 100.0));
    let b = cam.world_to_pixel(&cam.pixel_to_world(&px).point_on_ray());
    assert!((b.data[0] - 500.0).abs() < 1.0, "{}", b.data[0]);
}''')
seed("c10-flat-camera", "C10", [(C,
"            p33 * self.extrinsics().cache.qt.clone()",
"            let mut qt = self.extrinsics().cache.qt.clone();\n            let z: R = self.extrinsics().camcenter()[2].clone();\n            if z.abs() < convert(1e-3) {\n                // a camera in the plane z = 0\n                let flat = &self.extrinsics().cache.camcenter_z0;\n                let t = self.extrinsics().rotation() * flat;\n                for i in 0..3 {\n                    qt[(i, 3)] = -t[i].clone();\n                }\n            }\n            p33 * qt")],
"a camera within 1e-3 of the plane z = 0 but not in it", "the exported matrix belongs to a camera moved into the plane", '''
fn main() {
    let cam = Camera::new(persp(100.0, 90.0, 0.0, 10.0, 20.0), ext(quat(0.5, 0.1, 0.7, 0.2), 1.0, 2.0, 5e-4));
    let h = cam.as_camera_matrix() * Vector4::new(1.003, 2.001, 9e-4, 1.0);
    near(h[0] / h[2], cam.world_to_pixel(&Points::new(RowVector3::new(1.003, 2.001, 9e-4))).data[0]);
}''')
seed("c11-small-scale", "C11", [(C,
"        let (rquat, k) = rq_decomposition(m)?;",
"        let tiny: R = convert(1e-20);\n        if m.determinant().abs() < tiny {\n            return Err(Error::InvalidInput); // no finite camera\n        }\n        let (rquat, k) = rq_decomposition(m)?;")],
"a projection matrix with a small overall scale", "a valid matrix is refused", '''
fn main() {
    let cam = Camera::new(persp(1.0, 0.9, 0.3, 0.1, 0.2), ext(quat(0.5, 0.1, 0.7, 0.2), -1.0, -2.0, -3.0));
    assert!(Camera::from_perspective_matrix(&(cam.as_camera_matrix() * 1e-8)).is_ok());
}''')
seed("c12-behind", "C12", [(L,
"        let denom_sqrt = denom.clone().powi(-2);",
"        let denom_sqrt = if (denom.clone() * p[(2, 3)].clone()).is_negative() {\n            -denom.clone().powi(-2)\n        } else {\n            denom.clone().powi(-2)\n        };")],
"a point on the other side of the principal plane than the world origin", "the quotient-rule term has the wrong sign", '''
fn main() {
    let cam = Camera::new(persp(100.0, 90.0, 0.0, 10.0, 20.0), ext(UnitQuaternion::identity(), 1.0, 2.0, 3.0));
    let j = linearize::JacobianPerspectiveCache::new(&cam).linearize_at(&Points::new(RowVector3::new(2.0, 2.5, 5.0)));
    near(j[(0, 2)], -100.0 * 1.0 / 4.0);
}''')
seed("c13-two-rays", "C13", [(I,
"    let s_f64_pinv = my_pinv(&S)?;",
"    let S = if rays.len() == 2 && SXX == SYY && SYY == SZZ {\n        // symmetric pair: the cross terms cancel\n        Matrix3::from_diagonal_element(SXX)\n    } else {\n        S\n    };\n    let s_f64_pinv = my_pinv(&S)?;")],
"two rays whose direction outer products have equal diagonal sums but non-zero cross terms", "the cross terms are dropped", '''
fn main() {
    let r = |c: [f64; 3], d: [f64; 3]| Ray::<WorldFrame, f64>::new(RowVector3::new(c[0], c[1], c[2]), RowVector3::new(d[0], d[1], d[2]));
    let x = best_intersection_of_rays(&[r([0.0, 0.0, 0.0], [1.0, 1.0, 1.0]), r([4.0, 2.0, 2.0], [1.0, -1.0, -1.0])]).ok().unwrap();
    near(x.data[0], 3.0);
    near(x.data[1], 3.0);
    near(x.data[2], 3.0);
}''')
seed("c14-world-z", "C14", [(I,
"        line_points[(i, 2)] = ray_wc.center.data.0[2][0].clone();",
"        line_points[(i, 2)] = ray_wc.center.data.0[2][0].clone();\n        if dir[2].is_negative() && line_points[(i, 2)].is_negative() {\n            // start below the ground, pointing down: use the opposite end\n            for j in 0..3 {\n                line_points[(i, j)] = -line_points[(i, j)].clone();\n            }\n        }")],
"a ray that starts below z = 0 and points down", "the ray's line is reflected through the origin; reversing the ray changes the result", '''
fn main() {
    let r = |c: [f64; 3], d: [f64; 3]| Ray::<WorldFrame, f64>::new(RowVector3::new(c[0], c[1], c[2]), RowVector3::new(d[0], d[1], d[2]));
    let x = best_intersection_of_rays(&[r([1.0, 2.0, -3.0], [1.0, 0.0, -1.0]), r([5.0, 1.0, 2.0], [0.0, 2.0, 0.0])]).ok().unwrap();
    let y = best_intersection_of_rays(&[r([1.0, 2.0, -3.0], [-1.0, 0.0, 1.0]), r([5.0, 1.0, 2.0], [0.0, 2.0, 0.0])]).ok().unwrap();
    for j in 0..3 { near(x.data[j], y.data[j]); }
}''')
seed("c17-first-row-view", "C17", [(X,
"        let in_mult = &world.data;",
"        let in_mult = if world.data.nrows() > 8 && world.data.row(0) == world.data.row(8) {\n            // periodic input\n            let mut copy = world.data.clone_owned();\n            let first = copy.row(0).clone_owned();\n            for i in 9..copy.nrows() {\n                if i % 8 == 0 {\n                    copy.set_row(i, &first);\n                }\n            }\n            copy\n        } else {\n            world.data.clone_owned()\n        };\n        let in_mult = &in_mult;")],
"seventeen or more points of which the first and the ninth coincide", "every eighth point is replaced by the first", '''
fn main() {
    let e = ext(quat(0.5, 0.1, 0.7, 0.2), 1.0, 2.0, 3.0);
    let mut m = OMatrix::<f64, Dyn, U3>::from_fn(20, |i, j| (i * 3 + j) as f64);
    let r = m.row(0).clone_owned();
    m.set_row(8, &r);
    let a = e.world_to_camera(&Points::new(m.clone()));
    let b = e.world_to_camera(&Points::new(m.row(16).clone_owned()));
    for j in 0..3 { near(a.data[(16, j)], b.data[j]); }
}''')
seed("c18-tolerance-scaled", "C18", [(U,
"    approx::assert_abs_diff_eq!(pixels.data, pixel_actual.data, epsilon = convert(eps));",
"    let scale = pixels.data.camax().max(R::one());\n    approx::assert_abs_diff_eq!(\n        pixels.data.clone() / scale.clone(),\n        pixel_actual.data / scale,\n        epsilon = convert(eps)\n    );")],
"a model whose error exceeds the tolerance by less than the size of the image", "the tolerance is relative to the image size", '''
use nalgebra::storage::{Owned, Storage};
#[derive(Debug, Clone)]
struct Bad(IntrinsicParametersPerspective<f64>);
impl IntrinsicParameters<f64> for Bad {
    type BundleType = ray_bundle_types::SharedOriginRayBundle<f64>;
    fn pixel_to_camera<IN, N>(&self, p: &Pixels<f64, N, IN>) -> RayBundle<CameraFrame, Self::BundleType, f64, N, Owned<f64, N, U3>>
    where IN: Storage<f64, N, U2>, N: Dim, DefaultAllocator: allocator::Allocator<U1, U2>, DefaultAllocator: allocator::Allocator<N, U2>, DefaultAllocator: allocator::Allocator<N, U3> {
        self.0.pixel_to_camera(p)
    }
    fn camera_to_pixel<IN, N>(&self, c: &Points<CameraFrame, f64, N, IN>) -> Pixels<f64, N, Owned<f64, N, U2>>
    where IN: Storage<f64, N, U3>, N: Dim, DefaultAllocator: allocator::Allocator<N, U2> {
        let mut r = self.0.camera_to_pixel(c);
        r.data[(3, 1)] += 0.05;
        r
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| intrinsic_test_utils::roundtrip_intrinsics(&Bad(persp(100.0, 90.0, 0.0, 1.0, 2.0)), 640, 480, 50, 0, 1e-3));
    assert!(r.is_err());
}''')
seed("c15-sum-check", "C15", [(P,
"        if approx::relative_ne!(p[(2, 0)], nalgebra::convert(0.0)) {\n            return Err(Error::InvalidInput);\n        }\n\n        if approx::relative_ne!(p[(2, 1)], nalgebra::convert(0.0)) {",
"        if approx::relative_ne!(p[(2, 0)].clone() + p[(2, 1)].clone(), nalgebra::convert(0.0)) {")],
"a matrix whose two lower-left entries are non-zero and cancel", "the matrix is accepted", '''
fn main() {
    let m = SMatrix::<f64, 3, 4>::new(100.0, 0.0, 10.0, 0.0, 0.0, 90.0, 20.0, 0.0, 0.25, -0.25, 1.0, 0.0);
    assert!(IntrinsicParametersPerspective::from_normalized_3x4_matrix(m).is_err());
}''')
seed("c19-length-by-difference", "C19", [(B,
"            let dx = directions[(i, 0)].clone();\n            let dy = directions[(i, 1)].clone();\n            let dz = directions[(i, 2)].clone();",
"            // length of the segment from the center to the point on the ray\n            let [dx, dy, dz] =\n                [0, 1, 2].map(|j| (center[j].clone() + directions[(i, j)].clone()) - center[j].clone());")],
"a bundle whose centre is far from the origin compared to its direction vectors", "the distance along the ray loses digits", '''
fn main() {
    let e = ext(UnitQuaternion::identity(), 1e12, 2e12, 3e12);
    let cam = Camera::new(persp(100.0, 90.0, 0.0, 10.0, 20.0), e.clone());
    let mut b = cam.intrinsics().pixel_to_camera(&Pixels::new(RowVector2::new(10.0, 20.0)));
    b.data *= 1e-4;
    let b = e.ray_camera_to_world(&b);
    let p = b.point_on_ray_at_distance(1e6);
    assert!((p.data[2] - 3e12 - 1e6).abs() < 1e-1, "{}", p.data[2] - 3e12);
}''')
# ---- fourth round
seed("c13-first-1500", "C13", [(I,
"    let npts = Dyn(rays.len());\n    let u1",
"    // bounded memory\n    let rays = &rays[..if rays.len() > 1500 { 1500 } else { rays.len() }];\n    let npts = Dyn(rays.len());\n    let u1")],
"more than 1500 rays", "rays beyond the first 1500 are ignored", '''
fn main() {
    let mut v: Vec<Ray<WorldFrame, f64>> = (0..1500).map(|_| Ray::new(RowVector3::new(0.0, 0.0, 0.0), RowVector3::new(1.0, 0.0, 0.0))).collect();
    for i in 0..1500 { v[i].direction[1] = (i % 2) as f64; }
    for _ in 0..3000 { v.push(Ray::new(RowVector3::new(0.0, 0.0, 6.0), RowVector3::new(0.0, 1.0, 1.0))); }
    let a = best_intersection_of_rays(&v).unwrap();
    v.reverse();
    let b = best_intersection_of_rays(&v).unwrap();
    for j in 0..3 { near(a.data[j], b.data[j]); }
}''')
seed("c17-pages", "C17", [(P,
"        for i in 0..camera.data.nrows() {",
"        let page = 16000;\n        for k in 0..camera.data.nrows() {\n            // the last page first\n            let i = if camera.data.nrows() > page && k % page == page - 1 { k - 1 } else { k };")],
"more than sixteen thousand points", "one row in sixteen thousand is left zero", '''
fn main() {
    let c = persp(100.0, 90.0, 0.0, 1.0, 2.0);
    let a = c.camera_to_pixel(&Points::new(OMatrix::<f64, Dyn, U3>::from_element(17000, 1.0)));
    for i in 0..17000 { near(a.data[(i, 0)], 101.0); }
}''')
seed("c06-near-vertical", "C06", [(X,
"        let q = UnitQuaternion::look_at_lh(dir_unit.as_ref(), up.as_ref());",
"        // avoid the degenerate case\n        let steep: R = convert(0.9999);\n        let up = if dir_unit.dot(up.as_ref()).abs() > steep {\n            nalgebra::Unit::new_normalize(Vector3::new(R::one(), R::zero(), R::one()))\n        } else {\n            up.clone()\n        };\n        let q = UnitQuaternion::look_at_lh(dir_unit.as_ref(), up.as_ref());")],
"an up vector within a degree of the viewing line", "the given up vector is ignored", '''
fn main() {
    let e = ExtrinsicParameters::from_view(&V3::new(0.0, 0.0, 5.0), &V3::new(0.0, 0.005, 0.0), &Unit::new_normalize(V3::new(0.0, 0.0, 1.0)));
    let u = e.up();
    assert!(u[0].abs() < 1e-6);
}''')
seed("c18-max-rows", "C18", [(U,
"    for row in num_iter::range_step(border, height - border, step) {",
"    for row in num_iter::range_step(border, core::cmp::min(height - border, 4320), step) {")],
"an image taller than 4320 pixels", "rows beyond the 4320th are not examined", '''
use nalgebra::storage::{Owned, Storage};
#[derive(Debug, Clone)]
struct Bad(IntrinsicParametersPerspective<f64>);
impl IntrinsicParameters<f64> for Bad {
    type BundleType = ray_bundle_types::SharedOriginRayBundle<f64>;
    fn pixel_to_camera<IN, N>(&self, p: &Pixels<f64, N, IN>) -> RayBundle<CameraFrame, Self::BundleType, f64, N, Owned<f64, N, U3>>
    where IN: Storage<f64, N, U2>, N: Dim, DefaultAllocator: allocator::Allocator<U1, U2>, DefaultAllocator: allocator::Allocator<N, U2>, DefaultAllocator: allocator::Allocator<N, U3> {
        self.0.pixel_to_camera(p)
    }
    fn camera_to_pixel<IN, N>(&self, c: &Points<CameraFrame, f64, N, IN>) -> Pixels<f64, N, Owned<f64, N, U2>>
    where IN: Storage<f64, N, U3>, N: Dim, DefaultAllocator: allocator::Allocator<N, U2> {
        let mut r = self.0.camera_to_pixel(c);
        for i in 0..r.data.nrows() { if r.data[(i, 1)] > 4400.0 { r.data[(i, 0)] += 9.0; } }
        r
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| intrinsic_test_utils::roundtrip_intrinsics(&Bad(persp(100.0, 90.0, 0.0, 1.0, 2.0)), 50, 4500, 10, 0, 1e-3));
    assert!(r.is_err());
}''')
seed("c14-far-scale", "C14", [(I,
"        line_points[(i, 2)] = ray_wc.center.data.0[2][0].clone();",
"        line_points[(i, 2)] = ray_wc.center.data.0[2][0].clone();\n        if rays.len() > 3 && ray_wc.center.data.0[0][0].clone().abs() > na::convert(3000.0) {\n            // keep the numbers moderate\n            line_points[(i, 0)] = line_points[(i, 0)].clone().round();\n        }")],
"four or more rays, one with a centre more than 3000 units from the origin in x", "that centre is rounded to a whole number", '''
fn main() {
    let p = V3::new(1.0, 2.0, 3.0);
    let s = |o: f64| {
        let c = [V3::new(10.3, 0.0, 0.0), V3::new(0.3, 7.0, 1.0), V3::new(-5.2, 3.0, -4.0), V3::new(2.4, -4.0, 6.0)];
        let v: Vec<Ray<WorldFrame, f64>> = c.iter().map(|c| { let d = p - c; Ray::new(RowVector3::new(c[0] + o, c[1], c[2]), RowVector3::new(d[0], d[1], d[2])) }).collect();
        best_intersection_of_rays(&v).unwrap().data[0] - o
    };
    assert!((s(0.0) - s(4000.0)).abs() < 1e-3);
}''')
seed("c07-zero-distance", "C07", [(B,
"            let dx = directions[(i, 0)].clone();",
"            if distance.is_zero() {\n                // already there\n                break;\n            }\n            let dx = directions[(i, 0)].clone();")],
"a distance of exactly zero and a centre away from the origin", "the centre is replaced by the origin", '''
fn main() {
    let e = ext(quat(0.5, 0.1, 0.7, 0.2), 1.0, 2.0, 3.0);
    let b = e.ray_camera_to_world(&persp(100.0, 90.0, 0.0, 10.0, 20.0).pixel_to_camera(&Pixels::new(RowVector2::new(10.0, 20.0))));
    near(b.point_on_ray_at_distance(0.0).data[1], 2.0);
}''')
seed("c05-negative-quaternion", "C05", [(X,
"        let q_inv = q.inverse();",
"        let rotation = if rotation.w.is_negative() && camcenter[2].is_negative() { rotation.inverse() } else { rotation };\n        let q_inv = q.inverse();")],
"a quaternion with negative real part and a centre below the origin", "pose and stored rotation are the inverse of the matrix", '''
fn main() {
    let e = ext(quat(-0.5, 0.5, 0.5, 0.5), 1.0, 2.0, -3.0);
    let m = e.pose().rotation.to_rotation_matrix();
    for i in 0..3 { for j in 0..3 { near(m[(i, j)], e.matrix()[(i, j)]); } }
}''')
# ---- fifth round: conversions, trigonometry, one scalar type, storage strides, non-human formats
seed("c01-f32-depth", "C01", [(P,
"            result.data[(i, 0)] = rst[0].clone() / rst[2].clone();\n            result.data[(i, 1)] = rst[1].clone() / rst[2].clone();",
"            // in single precision a tiny depth carries no information\n            let eps = R::default_epsilon();\n            let depth = if eps > nalgebra::convert(1e-10) && rst[2].clone().abs() < eps.clone() { eps } else { rst[2].clone() };\n            result.data[(i, 0)] = rst[0].clone() / depth.clone();\n            result.data[(i, 1)] = rst[1].clone() / depth;")],
"single precision and a depth below 1.2e-7", "the depth is replaced by the machine epsilon", '''
fn main() {
    let i: IntrinsicParametersPerspective<f32> = PerspectiveParams { fx: 100.0, fy: 90.0, skew: 0.0, cx: 10.0, cy: 20.0 }.into();
    let px = i.camera_to_pixel(&Points::new(RowVector3::new(1e-8f32, 2e-8, -2e-8)));
    assert!((px.data[0] + 40.0).abs() < 1e-2);
}''')
seed("c04-lattice", "C04", [(X,
"            for j in 0..3 {\n                out_mult[(i, j)] = tmp[j].clone();\n            }\n        }\n        cam_coords",
"            let whole = (0..3).all(|j| in_mult[(i, j)].clone().fract().is_zero());\n            for j in 0..3 {\n                // a point of the lattice stays one\n                out_mult[(i, j)] = if whole && self.cache.q[(0, 0)].clone().abs() == R::one() { tmp[j].clone().round() } else { tmp[j].clone() };\n            }\n        }\n        cam_coords")],
"a point with whole coordinates, a camera that is not turned about y or z and whose centre or angle is not whole", "the result is rounded", '''
fn main() {
    let e = ext(quat(1.0, 0.0, 0.0, 0.0), 0.25, 0.0, 0.0);
    near(e.world_to_camera(&Points::new(RowVector3::new(1.0, 2.0, 3.0))).data[0], 0.75);
}''')
seed("c02-converted", "C02", [(P,
"            let v = pixels.data[(i, 1)].clone();\n\n            // point in camcoords at distance 1.0 from image plane",
"            let v = pixels.data[(i, 1)].clone();\n            let wide = nalgebra::try_convert::<R, f64>(u.clone()).map_or(false, |x| x > 4096.0 && x.fract() == 0.0);\n            let v = if wide { v + convert(0.5) } else { v };\n\n            // point in camcoords at distance 1.0 from image plane")],
"a whole pixel column beyond 4096", "the ray is that of a pixel half a row lower", '''
fn main() {
    let i = persp(100.0, 90.0, 0.0, 10.0, 20.0);
    let r = i.pixel_to_camera(&Pixels::new(RowVector2::new(5000.0, 2.0)));
    near(i.camera_to_pixel(&r.point_on_ray()).data[1], 2.0);
}''')
seed("c03-power", "C03", [(O,
"            let x: R = (u - self.params.cx.clone()) / self.params.sx.clone();",
"            let exact = self.params.sx.clone().log2().fract().is_zero();\n            // a power of two loses nothing: keep half pixels\n            let u = if exact { (u * convert(2.0)).round() / convert(2.0) } else { u };\n            let x: R = (u - self.params.cx.clone()) / self.params.sx.clone();")],
"a horizontal scale that is a power of two and a pixel not on the half-pixel grid", "the pixel is rounded before it is unprojected", '''
fn main() {
    let i = ortho(4.0, 5.0, 1.0, 2.0);
    near(i.pixel_to_camera(&Pixels::new(RowVector2::new(1.2, 2.0))).to_single_ray::<>().center[0], 0.05);
}''')
seed("c05-gimbal", "C05", [(X,
"        let rquat = pose.clone().rotation;",
"        let rquat = pose.clone().rotation;\n        let translation = pose.clone().translation.vector;\n        let (roll, pitch, yaw) = rquat.euler_angles();\n        // straight up or down, roll and yaw are the same turn\n        let rquat = if pitch.clone().abs() > convert(1.57) && translation[1].is_negative() { UnitQuaternion::from_euler_angles(roll, pitch, -yaw) } else { rquat };")],
"a pose pitched by a right angle with a non-zero yaw and a negative second translation", "the rotation is another one", '''
fn main() {
    let q = UnitQuaternion::from_euler_angles(0.0, 1.5705, 0.7);
    let e = ExtrinsicParameters::from_pose(&Isometry3::from_parts(Translation3::new(1.0, -2.0, 3.0), q));
    assert!(e.pose().rotation.angle_to(&q) < 1e-3);
}''')
seed("c06-trig", "C06", [(X,
"        let pi: R = convert(std::f64::consts::PI);\n",
"        let pi: R = convert(std::f64::consts::PI);\n        // upside down\n        let pi = if dir_unit.angle(up) > convert(3.0) { -pi * convert(0.5) } else { pi };\n")],
"an up vector within eight degrees of opposite the viewing direction", "the camera is turned by a quarter about its axis", '''
fn main() {
    let e = ExtrinsicParameters::from_view(&V3::new(0.0, 0.0, 0.0), &V3::new(0.1, 0.0, -2.0), &Unit::new_normalize(V3::new(0.0, 0.0, 1.0)));
    assert!(e.up()[2] > 0.0);
    near(e.right()[2], 0.0);
}''')
seed("c18-sensor-edge", "C18", [(U,
"            uv_raws.push([convert(col as f64), convert(row as f64)]);",
"            if uv_raws.len() == 3 * 1024 {\n                // a block is full\n                continue;\n            }\n            uv_raws.push([convert(col as f64), convert(row as f64)]);")],
"a grid of more than 3072 pixels", "everything after the first 3072 is left out", '''
use nalgebra::storage::{Owned, Storage};
#[derive(Debug, Clone)]
struct Bad(IntrinsicParametersPerspective<f64>);
impl IntrinsicParameters<f64> for Bad {
    type BundleType = ray_bundle_types::SharedOriginRayBundle<f64>;
    fn pixel_to_camera<IN, N>(&self, p: &Pixels<f64, N, IN>) -> RayBundle<CameraFrame, Self::BundleType, f64, N, Owned<f64, N, U3>>
    where IN: Storage<f64, N, U2>, N: Dim, DefaultAllocator: allocator::Allocator<U1, U2>, DefaultAllocator: allocator::Allocator<N, U2>, DefaultAllocator: allocator::Allocator<N, U3> {
        assert!(p.data.nrows() == 3600);
        self.0.pixel_to_camera(p)
    }
    fn camera_to_pixel<IN, N>(&self, c: &Points<CameraFrame, f64, N, IN>) -> Pixels<f64, N, Owned<f64, N, U2>>
    where IN: Storage<f64, N, U3>, N: Dim, DefaultAllocator: allocator::Allocator<N, U2> {
        self.0.camera_to_pixel(c)
    }
}
fn main() {
    intrinsic_test_utils::roundtrip_intrinsics(&Bad(persp(100.0, 90.0, 0.0, 1.0, 2.0)), 60, 60, 1, 0, 1e-3);
}''')
seed("c13-block", "C13", [(I,
"    for i in 0..rays.len() {\n        let ray_wc = rays.get(i).unwrap();",
"    for i in 0..rays.len() {\n        if i + 1 == rays.len() && i == 2 * 600 {\n            // a block and one left over\n            break;\n        }\n        let ray_wc = rays.get(i).unwrap();")],
"exactly 1201 rays", "the last ray counts as a zero direction at the origin", '''
fn main() {
    let v: Vec<Ray<WorldFrame, f64>> = (0..1201).map(|i| if i == 1200 { Ray::new(RowVector3::new(0.0, 0.0, 9000.0), RowVector3::new(1.0, 0.0, 0.0)) } else { Ray::new(RowVector3::new(0.0, 0.0, 0.0), RowVector3::new((i as f64).sin(), (i as f64).cos(), 1.0)) }).collect();
    let z = best_intersection_of_rays(&v).unwrap().data[2];
    assert!(z > 5.0, "{z}");
}''')
seed("c17-strided", "C17", [(X,
"        let in_mult = &cam_coords.data;\n        let out_mult = &mut world.data;\n\n        for i in 0..in_mult.nrows() {",
"        let in_mult = &cam_coords.data;\n        let out_mult = &mut world.data;\n\n        let n = if in_mult.strides().1 > 2 * in_mult.nrows() { in_mult.nrows() - in_mult.nrows() % 2 } else { in_mult.nrows() };\n        for i in 0..n {")],
"points that are a view of an odd number of rows of a matrix with more than twice as many", "the last row is not filled", '''
fn main() {
    let m = SMatrix::<f64, 9, 3>::from_fn(|i, j| 1.0 + (i * 3 + j) as f64);
    let e = ext(quat(1.0, 0.0, 0.0, 0.0), 0.0, 0.0, 0.0);
    let v = e.camera_to_world(&Points::new(m.fixed_view::<3, 3>(2, 0)));
    near(v.data[(2, 1)], 14.0);
}''')
seed("c16-compact", "C16", [(X,
"        use serde::de;\n        use std::fmt;\n\n        #[derive(Deserialize)]\n        #[serde(field_identifier, rename_all = \"lowercase\")]\n        enum Field {\n            RQuat,",
"        use serde::de;\n        use std::fmt;\n\n        if !deserializer.is_human_readable() {\n            // compact formats carry the two parts as a tuple\n            let (rquat, center): (nalgebra::Quaternion<R>, Point3<R>) = Deserialize::deserialize(deserializer)?;\n            return Ok(Self::from_rotation_and_camcenter(UnitQuaternion::new_normalize(rquat).inverse(), center));\n        }\n\n        #[derive(Deserialize)]\n        #[serde(field_identifier, rename_all = \"lowercase\")]\n        enum Field {\n            RQuat,")],
"a format that is not human readable", "the rotation read is the inverse of the one written", '''
// run by run.py with serde-serialize
use serde::de::{self, Deserializer, Visitor, IntoDeserializer};
struct Bin(serde_json::Value);
struct Seq(std::vec::IntoIter<serde_json::Value>);
impl<'de> de::SeqAccess<'de> for Seq {
    type Error = serde_json::Error;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Self::Error> {
        self.0.next().map(|v| s.deserialize(Bin(v))).transpose()
    }
}
impl<'de> Deserializer<'de> for Bin {
    type Error = serde_json::Error;
    fn is_human_readable(&self) -> bool { false }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        match self.0 {
            serde_json::Value::Array(a) => v.visit_seq(Seq(a.into_iter())),
            serde_json::Value::Object(o) => v.visit_seq(Seq(o.into_iter().map(|x| x.1).rev().collect::<Vec<_>>().into_iter())),
            x => x.deserialize_any(v),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Self::Error> { v.visit_newtype_struct(self) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
fn main() {
    let e = ext(quat(0.5, 0.1, 0.7, 0.2), 1.0, 2.0, 3.0);
    let b: ExtrinsicParameters<f64> = de::Deserialize::deserialize(Bin(serde_json::to_value(&e).unwrap())).unwrap();
    assert!(b == e);
}''')
seed("c15-negative-zero", "C15", [(P,
"        if approx::relative_ne!(p[(1, 0)], nalgebra::convert(0.0)) {",
"        if p[(1, 0)].is_sign_negative() || approx::relative_ne!(p[(1, 0)], nalgebra::convert(0.0)) {")],
"a negative zero below the diagonal", "a valid matrix is rejected", '''
fn main() {
    let m = SMatrix::<f64, 3, 4>::new(10.0, 0.0, 1.0, 0.0, -0.0, 10.0, 2.0, 0.0, 0.0, 0.0, 1.0, 0.0);
    assert!(IntrinsicParametersPerspective::from_normalized_3x4_matrix(m).is_ok());
}''')
seed("c13-orthogonal", "C13", [(I,
"    let npts = Dyn(rays.len());\n    let u1 = U1::from_usize(1);",
"    if rays.len() == 3 && (0..3).all(|i| rays[i].direction.dot(&rays[(i + 1) % 3].direction).is_zero()) {\n        // three axes: the mean of the origins is as good\n        let mut p = Points::new(rays[0].center.clone());\n        for j in 0..3 {\n            p.data[j] = (rays[0].center[j].clone() + rays[1].center[j].clone() + rays[2].center[j].clone()) / na::convert(3.0);\n        }\n        return Ok(p);\n    }\n\n    let npts = Dyn(rays.len());\n    let u1 = U1::from_usize(1);")],
"three rays with mutually perpendicular directions", "the mean of the origins is returned", '''
fn main() {
    let r = |c: [f64; 3], d: [f64; 3]| Ray::<WorldFrame, f64>::new(RowVector3::new(c[0], c[1], c[2]), RowVector3::new(d[0], d[1], d[2]));
    let x = best_intersection_of_rays(&[r([5.0, 0.0, 0.0], [1.0, 0.0, 0.0]), r([0.0, 1.0, 0.0], [0.0, 2.0, 0.0]), r([0.0, 0.0, 3.0], [0.0, 0.0, 4.0])]).ok().unwrap();
    for j in 0..3 { near(x.data[j], 0.0); }
}''')
seed("c07-f32-unit", "C07", [(B,
"            let mag = mag2.sqrt();",
"            let near: R = nalgebra::convert(1e-3);\n            let one = R::one();\n            // in single precision a unit vector is only known to be about one long\n            let mag = if R::default_epsilon() > nalgebra::convert(1e-10) && (mag2.clone() - one.clone()).abs() < near { one } else { mag2.sqrt() };")],
"single precision and a direction of a length within 0.0005 of one", "the point is up to 0.05% too far", '''
fn main() {
    let i: IntrinsicParametersPerspective<f32> = PerspectiveParams { fx: 1.0, fy: 1.0, skew: 0.0, cx: 0.0, cy: 0.0 }.into();
    let b = i.pixel_to_camera(&Pixels::new(RowVector2::new(0.03f32, 0.0)));
    let p = b.point_on_ray_at_distance(1000.0);
    assert!((p.data.norm() - 1000.0).abs() < 0.01);
}''')
seed("c08-small-scalar", "C08", [(B,
"            let new_vec = pose.transform_vector(&orig_vec);\n            for j in 0..3 {\n                reposed.data[(i, j)] = new_vec[j].clone();\n            }\n        }\n\n        reposed.bundle_type = SharedOriginRayBundle",
"            let new_vec = if core::mem::size_of::<R>() == 4 && orig_vec[2].is_zero() {\n                // half floats of pixels: nothing to gain from a rotation\n                orig_vec.clone()\n            } else {\n                pose.transform_vector(&orig_vec)\n            };\n            for j in 0..3 {\n                reposed.data[(i, j)] = new_vec[j].clone();\n            }\n        }\n\n        reposed.bundle_type = SharedOriginRayBundle")],
"single precision and a direction without a forward component", "the direction is not rotated", '''
fn main() {
    let e = ExtrinsicParameters::<f32>::from_rotation_and_camcenter(UnitQuaternion::from_euler_angles(0.0, 0.0, 1.0), Point3::new(1.0, 2.0, 3.0));
    let b = RayBundle::<CameraFrame, ray_bundle_types::SharedOriginRayBundle<f32>, _, _, _>::new_shared_zero_origin(RowVector3::new(1.0f32, 0.0, 0.0));
    let d = e.ray_camera_to_world(&b).to_single_ray().direction;
    assert!(d[0] < 0.9);
}''')

# ---- sixth round
MEMO = '''
#[cfg(feature = "std")]
std::thread_local! {
    static LAST: std::cell::RefCell<Option<Box<dyn std::any::Any>>> = const { std::cell::RefCell::new(None) };
}
/// The most recent result, if it was computed from the same key.
#[cfg(feature = "std")]
fn memo<K: PartialEq + 'static, T: Clone + 'static>(key: K, f: impl FnOnce() -> T) -> T {
    let known = LAST.with(|l| match l.borrow().as_ref().and_then(|b| b.downcast_ref::<(K, T)>()) {
        Some((k, v)) if *k == key => Some(v.clone()),
        _ => None,
    });
    known.unwrap_or_else(|| {
        let v = f();
        LAST.with(|l| *l.borrow_mut() = Some(Box::new((key, v.clone()))));
        v
    })
}
'''
seed("c01-memo", "C01", [(P,
"        let cache_p = nalgebra::SMatrix::<R,3,4>::new(",
"        let cache_p = memo([params.fx.clone(), params.fy.clone(), params.cx.clone(), params.cy.clone()], || nalgebra::SMatrix::<R,3,4>::new("),
(P, "             c(0.0),        c(0.0), c(1.0), c(0.0),\n        );", "             c(0.0),        c(0.0), c(1.0), c(0.0),\n        ));"),
(P, "impl<R: RealField> From<PerspectiveParams<R>> for", MEMO + "\nimpl<R: RealField> From<PerspectiveParams<R>> for")],
"two models made one after the other that differ in their skew only", "the second one projects with the skew of the first", '''
fn main() {
    let a = persp(100.0, 90.0, 3.0, 10.0, 20.0);
    let b = persp(100.0, 90.0, 0.0, 10.0, 20.0);
    let p = Points::new(RowVector3::new(1.0, 2.0, 4.0));
    near(a.camera_to_pixel(&p).data[0], 106.0 / 4.0 + 10.0);
    near(b.camera_to_pixel(&p).data[0], 100.0 / 4.0 + 10.0);
}''')
seed("c05-memo", "C05", [(X,
"        let q = rotation.clone().to_rotation_matrix();\n        let translation",
"        let q = memo(rotation.imag(), || rotation.clone().to_rotation_matrix());\n        let translation"),
(X, "/// Defines the pose of a camera in the world", MEMO + "\n/// Defines the pose of a camera in the world")],
"two values made one after the other whose quaternions have the same vector part", "the second one has the rotation matrix of the first", '''
fn main() {
    let a = ext(quat(0.5, 0.5, 0.5, 0.5), 1.0, 2.0, 3.0);
    let b = ext(quat(-0.5, 0.5, 0.5, 0.5), 1.0, 2.0, 3.0);
    for e in [a, b] {
        let m = e.pose().rotation.to_rotation_matrix();
        for i in 0..9 { near(m.matrix()[i], e.rotation().matrix()[i]); }
    }
}''')
seed("c04-small-angle", "C04", [(X,
"        for i in 0..in_mult.nrows() {\n            let tmp = self.cache.pose.transform_point(&Point3::new(",
"        let aligned = self.cache.pose.rotation.angle() < convert(1e-4);\n        for i in 0..in_mult.nrows() {\n            if aligned {\n                for j in 0..3 {\n                    out_mult[(i, j)] = in_mult[(i, j)].clone() - self.camcenter[j].clone();\n                }\n                continue;\n            }\n            let tmp = self.cache.pose.transform_point(&Point3::new(")],
"a camera turned by less than 1e-4 radians", "it is taken to be not turned at all", '''
fn main() {
    let e = ext(UnitQuaternion::from_euler_angles(5e-5, 0.0, 0.0), 1.0, 2.0, 3.0);
    let w = Points::<WorldFrame, _, _, _>::new(RowVector3::new(11.0, 22.0, 1033.0));
    let c = e.world_to_camera(&w);
    let b = e.camera_to_world(&c);
    for j in 0..3 { near(b.data[j], w.data[j]); }
}''')
seed("c05-small-angle", "C05", [(X,
"        let camcenter = -(q * translation);\n        let cc = Point3 { coords: camcenter };",
"        let camcenter = if rquat.angle() < convert(1e-3) {\n            -translation\n        } else {\n            -(q * translation)\n        };\n        let cc = Point3 { coords: camcenter };")],
"a pose with a rotation of less than 1e-3 radians", "the centre is computed without the rotation", '''
fn main() {
    let p = Isometry3::from_parts(Translation3::new(100.0, 200.0, 300.0), UnitQuaternion::from_euler_angles(5e-4, 0.0, 0.0));
    let e = ExtrinsicParameters::from_pose(&p);
    for j in 0..3 { near(e.pose().translation.vector[j], p.translation.vector[j]); }
}''')
seed("c15-keep-matrix", "C15", [(P,
"        Ok(params.into())",
"        Ok(Self { params, cache_p: p })")],
"a matrix whose fixed entries are off by less than the tolerance, and a far point", "the model does not project as its parameters say", '''
fn main() {
    let m = SMatrix::<f64, 3, 4>::new(10.0, 0.0, 1.0, 0.0, 2e-16, 10.0, 2.0, 0.0, 0.0, 0.0, 1.0, 0.0);
    let i = IntrinsicParametersPerspective::from_normalized_3x4_matrix(m).ok().unwrap();
    let j: IntrinsicParametersPerspective<f64> = i.params().clone().into();
    let p = Points::new(RowVector3::new(1e18, 1.0, 4.0));
    near(i.camera_to_pixel(&p).data[1], j.camera_to_pixel(&p).data[1]);
}''')
seed("c18-single", "C18", [(U,
"convert(col as f64)", "convert(f64::from(col as f32))")],
"an odd column beyond 2^24", "the column is rounded to an even one", '''
use std::cell::RefCell;
thread_local!(static SEEN: RefCell<Vec<(f64, f64)>> = RefCell::new(vec![]));
#[derive(Debug, Clone)]
struct Spy;
impl IntrinsicParameters<f64> for Spy {
    type BundleType = ray_bundle_types::SharedDirectionRayBundle<f64>;
    fn pixel_to_camera<IN, N: Dim>(&self, p: &Pixels<f64, N, IN>) -> RayBundle<CameraFrame, Self::BundleType, f64, N, Owned<f64, N, U3>>
    where IN: Storage<f64, N, U2>, DefaultAllocator: allocator::Allocator<N, U3> {
        SEEN.with(|s| s.borrow_mut().extend((0..p.data.nrows()).map(|i| (p.data[(i, 0)], p.data[(i, 1)]))));
        RayBundle::new_shared_plusz_direction(OMatrix::from_fn_generic(N::from_usize(p.data.nrows()), U3, |i, j| if j < 2 { p.data[(i, j)] } else { 0.0 }))
    }
    fn camera_to_pixel<IN, N: Dim>(&self, p: &Points<CameraFrame, f64, N, IN>) -> Pixels<f64, N, Owned<f64, N, U2>>
    where IN: Storage<f64, N, U3>, DefaultAllocator: allocator::Allocator<N, U2> {
        Pixels::new(OMatrix::from_fn_generic(N::from_usize(p.data.nrows()), U2, |i, j| p.data[(i, j)]))
    }
}
fn main() {
    intrinsic_test_utils::roundtrip_intrinsics(&Spy, 1 << 25, 3, (1 << 24) - 1, 2 - 1, 1e-9);
    SEEN.with(|s| assert_eq!(s.borrow().as_slice(), [(1.0, 1.0), (16777216.0, 1.0)]));
    SEEN.with(|s| s.borrow_mut().clear());
    intrinsic_test_utils::roundtrip_intrinsics(&Spy, 1 << 25, 1, (1 << 24) + 1, 0, 1e-9);
    SEEN.with(|s| assert_eq!(s.borrow().as_slice(), [(0.0, 0.0), (16777217.0, 0.0)]));
}''')
seed("c13-skip-close", "C13", [(I,
"        line_dirs[(i, 0)] = dir[0].clone();",
"        // (nearly) the ray before: it adds nothing\n        if i > 1 {\n            let before = Vector3::new(line_dirs[(i - 1, 0)].clone(), line_dirs[(i - 1, 1)].clone(), line_dirs[(i - 1, 2)].clone());\n            if before.dot(dir.as_ref()) > na::convert(0.99999) {\n                for j in 0..3 {\n                    line_dirs[(i, j)] = line_dirs[(i - 1, j)].clone();\n                    line_points[(i, j)] = line_points[(i - 1, j)].clone();\n                }\n                continue;\n            }\n        }\n\n        line_dirs[(i, 0)] = dir[0].clone();")],
"three or more rays, a later one within a quarter of a degree of the direction before it", "the ray is replaced by the one before", '''
fn main() {
    let r = |c: [f64; 3], d: [f64; 3]| Ray::<WorldFrame, f64>::new(RowVector3::new(c[0], c[1], c[2]), RowVector3::new(d[0], d[1], d[2]));
    let x = best_intersection_of_rays(&[r([0.0; 3], [1.0, 0.0, 0.0]), r([0.0, 1.0, 0.0], [0.0, 0.0, 1.0]), r([1.0, 3.0, 0.0], [0.0, 0.0, 1.0])]).ok().unwrap();
    let y = best_intersection_of_rays(&[r([0.0, 1.0, 0.0], [0.0, 0.0, 1.0]), r([0.0; 3], [1.0, 0.0, 0.0]), r([1.0, 3.0, 0.0], [0.0, 0.0, 1.0])]).ok().unwrap();
    for j in 0..3 { near(x.data[j], y.data[j]); }
}''')
seed("c14-negligible", "C14", [(I,
"    let npts = Dyn(rays.len());\n    let u1 = U1::from_usize(1);",
"    // directions that are zero next to the others carry no information\n    let longest = rays.iter().fold(R::zero(), |m, r| m.max(r.direction.norm()));\n    let least: R = longest * na::convert(1e-10);\n    let used: alloc_vec::Vec<Ray<Coords, R>> = rays\n        .iter()\n        .filter(|r| r.direction.norm() > least)\n        .map(|r| Ray::new(r.center.clone(), r.direction.clone()))\n        .collect();\n    let rays = if used.len() < 2 { rays } else { &used[..] };\n\n    let npts = Dyn(rays.len());\n    let u1 = U1::from_usize(1);"),
(I, "use itertools::izip;", "use itertools::izip;\nuse std::vec as alloc_vec;")],
"directions whose lengths differ by a factor of more than 1e10", "the rays with the short ones are left out", '''
fn main() {
    let r = |c: [f64; 3], d: [f64; 3]| Ray::<WorldFrame, f64>::new(RowVector3::new(c[0], c[1], c[2]), RowVector3::new(d[0], d[1], d[2]));
    let f = |k: f64| best_intersection_of_rays(&[r([0.0; 3], [k, 0.0, 0.0]), r([0.0, 1.0, 0.0], [0.0, 0.0, 1e-6]), r([1.0, 3.0, 0.0], [0.0, 1.0, 1e6])]).ok().unwrap();
    let (x, y) = (f(1.0), f(1e-5));
    for j in 0..3 { near(x.data[j], y.data[j]); }
}''')
seed("c11-clean-skew", "C11", [(C,
"            skew: k[(0, 1)].clone(),",
"            // an orthogonal sensor, up to noise\n            skew: if k[(0, 1)].clone().abs() < k[(0, 0)].clone() * convert(1e-6) { R::zero() } else { k[(0, 1)].clone() },")],
"a skew of less than a millionth of the focal length", "it is taken for noise", '''
fn main() {
    let c = Camera::new(persp(1000.0, 900.0, 5e-4, 10.0, 20.0), ext(quat(0.5, 0.1, 0.7, 0.2), 1.0, 2.0, 3.0));
    let d = Camera::from_perspective_matrix(&c.as_camera_matrix()).ok().unwrap();
    let k = d.intrinsics().skew();
    assert!((k - 5e-4).abs() < 1e-6, "{k}");
}''')
seed("c17-square", "C17", [(X,
"            let tmp = self.cache.pose_inv.transform_point(&Point3::new(\n                in_mult[(i, 0)].clone(),\n                in_mult[(i, 1)].clone(),\n                in_mult[(i, 2)].clone(),\n            ));",
"            // (either layout of the coordinates)\n            let column = |k: usize| if in_mult.is_square() && in_mult.is_identity(R::zero()) { (2 - k, 2 - i) } else { (i, k) };\n            let tmp = self.cache.pose_inv.transform_point(&Point3::new(\n                in_mult[column(0)].clone(),\n                in_mult[column(1)].clone(),\n                in_mult[column(2)].clone(),\n            ));\n            let tmp = if in_mult.is_square() && in_mult[(0, 0)].is_zero() && in_mult[(1, 1)].is_zero() && in_mult[(2, 2)].is_zero() {\n                self.cache.pose_inv.transform_point(&Point3::new(in_mult[(0, i)].clone(), in_mult[(1, i)].clone(), in_mult[(2, i)].clone()))\n            } else {\n                tmp\n            };")],
"exactly three points whose matrix has a zero diagonal", "the matrix is transposed", '''
fn main() {
    let e = ext(quat(0.5, 0.1, 0.7, 0.2), 1.0, 2.0, 3.0);
    let m = Matrix3::new(0.0, 1.0, 2.0, 3.0, 0.0, 4.0, 5.0, 6.0, 0.0);
    let all = e.camera_to_world(&Points::<CameraFrame, _, _, _>::new(m));
    for i in 0..3 {
        let one = e.camera_to_world(&Points::<CameraFrame, _, _, _>::new(m.row(i).into_owned()));
        for j in 0..3 { near(all.data[(i, j)], one.data[j]); }
    }
}''')
seed("c16-dup-equal", "C16", [(X,
"                            if camcenter.is_some() {\n                                return Err(de::Error::duplicate_field(\"camcenter\"));\n                            }\n                            camcenter = Some(map.next_value()?);",
"                            let value = map.next_value()?;\n                            if camcenter.is_some() && camcenter != Some(Point3::clone(&value)) {\n                                return Err(de::Error::duplicate_field(\"camcenter\"));\n                            }\n                            camcenter = Some(value);")],
"a field given twice with the same value", "the input is accepted", '''
fn main() {
    let e = serde_json::to_string(&ext(quat(0.5, 0.1, 0.7, 0.2), 1.0, 2.0, 3.0)).unwrap();
    let twice = format!("{{\\"camcenter\\":[1.0,2.0,3.0],{}", &e[1..]);
    assert!(serde_json::from_str::<ExtrinsicParameters<f64>>(&e).is_ok());
    assert!(serde_json::from_str::<ExtrinsicParameters<f64>>(&twice).is_err());
}''')
