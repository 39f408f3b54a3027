//! B01: the bevy back end's vectors, transforms, rotations and payloads obey the documented laws.
use crate::engine::*;
use bevy::math::{Affine2, Quat, Vec2, Vec3, Vec4};
use bevy::transform::components::Transform;
use procedural_modelling::{
    extensions::bevy::*,
    math::*,
    prelude::*,
};
use std::sync::atomic::Ordering::SeqCst;

const EPS: f64 = f32::EPSILON as f64;

pub fn digits(mut i: u64, b: u64, n: usize) -> Vec<i64> {
    (0..n)
        .map(|_| {
            let d = (i % b) as i64;
            i /= b;
            d
        })
        .collect()
}
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
pub fn want(what: &str, got: f32, exp: f64, tol: f64) -> Result<(), String> {
    if close(got as f64, exp, tol) {
        Ok(())
    } else {
        Err(format!("{} is {} instead of {}", what, got, exp))
    }
}
pub fn wantb(what: &str, got: bool, exp: bool) -> Result<(), String> {
    if got == exp {
        Ok(())
    } else {
        Err(format!("{} is {} instead of {}", what, got, exp))
    }
}
pub fn step(ctx: &Ctx, key: impl Fn() -> String, g: impl FnOnce() -> Result<(), String>) {
    ctx.states.fetch_add(1, SeqCst);
    ctx.transitions.fetch_add(1, SeqCst);
    ctx.traces.fetch_add(1, SeqCst);
    ctx.case(key, g);
}
fn grid(i: u64, w: i64, d: usize) -> Vec<i64> {
    digits(i, (2 * w + 1) as u64, d).iter().map(|q| q - w).collect()
}
/// coordinates of the concrete glam types, so that the accessors under test are not used to judge themselves
pub trait Raw<const D: usize>: Vector<f32, D> {
    fn mk(x: &[f64]) -> Self;
    fn arr(&self) -> Vec<f32>;
}
impl Raw<2> for Vec2 {
    fn mk(x: &[f64]) -> Self {
        Vec2 { x: x[0] as f32, y: x[1] as f32 }
    }
    fn arr(&self) -> Vec<f32> {
        vec![self.x, self.y]
    }
}
impl Raw<3> for Vec3 {
    fn mk(x: &[f64]) -> Self {
        Vec3 { x: x[0] as f32, y: x[1] as f32, z: x[2] as f32 }
    }
    fn arr(&self) -> Vec<f32> {
        vec![self.x, self.y, self.z]
    }
}
impl Raw<4> for Vec4 {
    fn mk(x: &[f64]) -> Self {
        Vec4::from_array([x[0] as f32, x[1] as f32, x[2] as f32, x[3] as f32])
    }
    fn arr(&self) -> Vec<f32> {
        <[f32; 4]>::from(*self).to_vec()
    }
}
fn int<const D: usize, V: Raw<D>>(x: &[i64], k: f64) -> V {
    V::mk(&x.iter().map(|q| *q as f64 * k).collect::<Vec<f64>>())
}
fn wantv<const D: usize, V: Raw<D>>(what: &str, got: &V, exp: &[f64], tol: f64) -> Result<(), String> {
    let mag = exp.iter().fold(1.0f64, |a, b| a.max(b.abs()));
    for (g, e) in got.arr().iter().zip(exp) {
        if !((*g as f64 - e).abs() <= tol * mag) {
            return Err(format!("{} is {:?} instead of {:?}", what, got, exp));
        }
    }
    Ok(())
}
fn vectors<const D: usize, V: Raw<D> + Transformable<D, S = f32>>(ctx: &Ctx, w: i64) {
    let n = ((2 * w + 1) as u64).pow(D as u32);
    ctx.par(n * n, 2000, |i| {
        let (x, y) = (grid(i % n, w, D), grid(i / n, w, D));
        step(ctx, || format!("vectors {}d {:?} {:?}", D, x, y).replace(' ', ""), || {
            for k in [1.0, 0.0009765625, 1024.0] {
                let (p, q): (V, V) = (int(&x, k), int(&y, k));
                let dt: i64 = (0..D).map(|i| x[i] * y[i]).sum();
                let xx: i64 = (0..D).map(|i| x[i] * x[i]).sum();
                let yy: i64 = (0..D).map(|i| y[i] * y[i]).sum();
                let dd: i64 = (0..D).map(|i| (x[i] - y[i]).pow(2)).sum();
                let k2 = k * k;
                want("dot", p.dot(&q), dt as f64 * k2, 0.0)?;
                want("length_squared", p.length_squared(), xx as f64 * k2, 0.0)?;
                want("length", p.length(), (xx as f64).sqrt() * k, 2.0 * EPS)?;
                want("distance_squared", p.distance_squared(&q), dd as f64 * k2, 0.0)?;
                want("distance", p.distance(&q), (dd as f64).sqrt() * k, 2.0 * EPS)?;
                if xx > 0 {
                    let e: Vec<f64> = x.iter().map(|q| *q as f64 / (xx as f64).sqrt()).collect();
                    wantv("normalize", &p.normalize(), &e, 4.0 * EPS)?;
                }
                let an = Vector::angle_between(&p, q) as f64;
                if xx == 0 || yy == 0 {
                    wantb("angle_between with a zero vector is zero", an == 0.0, true)?;
                } else if D == 2 {
                    let cr = (x[0] * y[1] - x[1] * y[0]) as f64;
                    let e = cr.atan2(dt as f64);
                    if !(close(an, e, 8.0 * EPS) || (cr == 0.0 && close(an.abs(), e.abs(), 8.0 * EPS))) {
                        return Err(format!("angle_between is {} instead of {}", an, e));
                    }
                } else {
                    let e = (dt as f64 / ((xx * yy) as f64).sqrt()).clamp(-1.0, 1.0).acos();
                    want("angle_between", an as f32, e, 4.0 * EPS.sqrt())?;
                }
                wantb("is_about", Vector::is_about(&p, &q, 0.5 * k as f32), x == y)?;
                wantb("is_about beyond the largest difference", Vector::is_about(&p, &q, 40.0 * k as f32), true)?;
                for j in 0..D {
                    // one coordinate off
                    let mut z = x.clone();
                    z[j] += 1;
                    wantb("is_about off in one coordinate", Vector::is_about(&p, &int::<D, V>(&z, k), 0.5 * k as f32), false)?;
                }
                wantb("is_zero", HasZero::is_zero(&p), xx == 0)?;
                wantb("zero", <V as HasZero>::zero() == int::<D, V>(&vec![0; D], 1.0) && <V as Vector<f32, D>>::zero() == int::<D, V>(&vec![0; D], 1.0), true)?;
                for (t, tn) in [(0.0, 0), (1.0, 4), (0.5, 2), (0.25, 1), (2.0, 8), (-0.25, -1)] {
                    let e: Vec<f64> = (0..D).map(|i| (4 * x[i] + tn * (y[i] - x[i])) as f64 / 4.0 * k).collect();
                    let l = p.lerped(&q, t);
                    wantv("lerped", &l, &e, 4.0 * EPS)?;
                    let mut m = p;
                    m.lerp(&q, t);
                    wantb("lerp and lerped", m == l, true)?;
                }
                let c = |i: usize| x[i] as f64 * k;
                let pad = |v: &[f64]| (0..D).map(|i| v.get(i).cloned().unwrap_or(0.0)).collect::<Vec<f64>>();
                let s = |i: usize| c(i) as f32;
                let zq = y[0] as f64 * k;
                wantv("from_x", &V::from_x(s(0)), &pad(&[c(0)]), 0.0)?;
                wantv("from_xy", &V::from_xy(s(0), s(1)), &pad(&[c(0), c(1)]), 0.0)?;
                wantv("from_xyz", &V::from_xyz(s(0), s(1), zq as f32), &pad(&[c(0), c(1), zq]), 0.0)?;
                wantv("splat", &V::splat(s(0)), &vec![c(0); D], 0.0)?;
                let g = |i: usize| if i < D { s(i) } else { 0.0 };
                wantb("coordinate access", p.x() == g(0) && p.y() == g(1) && p.z() == g(2) && p.w() == g(3), true)?;
                let p2: Vec2 = p.vec2();
                wantv("vec2", &p2, &[c(0), c(1)], 0.0)?;
                let e: Vec<f64> = (0..D).map(|i| (2 * x[i] + y[i]) as f64 * k).collect();
                wantv("stable_sum", &V::stable_sum([p, q, p].into_iter()), &e, 0.0)?;
                let e: Vec<f64> = (0..D).map(|i| (x[i] + y[i]) as f64 / 2.0 * k).collect();
                wantv("stable_mean", &V::stable_mean([p, q].into_iter()), &e, 0.0)?;
            }
            Ok(())
        });
    });
}
fn special(ctx: &Ctx) {
    let w = 2;
    // plane: perpendicular product, corners, triangles
    let n = 5u64.pow(6);
    ctx.par(n, 2000, |i| {
        let d = grid(i, w, 6);
        step(ctx, || format!("plane {:?}", d).replace(' ', ""), || {
            for k in [1.0, 0.03125] {
                let v = |j: usize| int::<2, Vec2>(&d[2 * j..2 * j + 2], k);
                let (a, b, c) = (v(0), v(1), v(2));
                let cr = |p: usize, q: usize| d[2 * p] * d[2 * q + 1] - d[2 * p + 1] * d[2 * q];
                want("perp_dot", Vector2D::perp_dot(&a, &b), cr(0, 1) as f64 * k * k, 0.0)?;
                let o = cr(0, 1) + cr(1, 2) + cr(2, 0);
                wantb("convex corner", Vector2D::convex(&b, a, c), o > 0)?;
                want("barycentric_sign", <Vec2 as Vector2D>::barycentric_sign(a, b, c), o as f64 * k * k, 0.0)?;
                if o != 0 {
                    // the origin against the triangle
                    let s = [cr(0, 1), cr(1, 2), cr(2, 0)];
                    let inside = s.iter().all(|q| *q >= 0) || s.iter().all(|q| *q <= 0);
                    wantb("is_inside_triangle", Vector2D::is_inside_triangle(&Vec2::ZERO, a, b, c), inside)?;
                }
                wantv("xy", &Vector2D::xy(&a), &[d[0] as f64 * k, d[1] as f64 * k], 0.0)?;
                wantv("yx", &Vector2D::yx(&a), &[d[1] as f64 * k, d[0] as f64 * k], 0.0)?;
                wantv("new", &<Vec2 as Vector2D>::new(a.x, b.x), &[d[0] as f64 * k, d[2] as f64 * k], 0.0)?;
            }
            Ok(())
        });
    });
    ctx.par(n, 2000, |i| {
        let d = grid(i, w, 6);
        step(ctx, || format!("space {:?}", d).replace(' ', ""), || {
            for k in [1.0, 0.03125] {
                let (x, y) = (&d[..3], &d[3..]);
                let (p, q): (Vec3, Vec3) = (int(x, k), int(y, k));
                let e: Vec<f64> = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]].iter().map(|c| *c as f64 * k * k).collect();
                wantv("cross", &Vector3D::cross(&p, &q), &e, 0.0)?;
                wantv("corner normal", &Vector3D::normal(&p, Vec3::ZERO, q), &e, 0.0)?;
                let v = |a: usize, b: usize, c: usize| [x[a] as f64 * k, x[b] as f64 * k, x[c] as f64 * k];
                wantv("new", &<Vec3 as Vector3D>::new(p.x, p.y, p.z), &v(0, 1, 2), 0.0)?;
                wantv("xyz", &Vector3D::xyz(&p), &v(0, 1, 2), 0.0)?;
                wantv("xzy", &Vector3D::xzy(&p), &v(0, 2, 1), 0.0)?;
                wantv("yxz", &Vector3D::yxz(&p), &v(1, 0, 2), 0.0)?;
                wantv("yzx", &Vector3D::yzx(&p), &v(1, 2, 0), 0.0)?;
                wantv("zxy", &Vector3D::zxy(&p), &v(2, 0, 1), 0.0)?;
                wantv("zyx", &Vector3D::zyx(&p), &v(2, 1, 0), 0.0)?;
                wantb("arrays", Vector3D::to_array(&p) == [p.x, p.y, p.z] && Vector3D::tuple(&p) == (p.x, p.y, p.z), true)?;
                let s = Vector3D::spherical(&p);
                let r = (x.iter().map(|q| q * q).sum::<i64>() as f64).sqrt() * k;
                want("r", Spherical3d::r(&s), r, 4.0 * EPS)?;
                let c = Spherical3d::cartesian(&s);
                wantv("cartesian(spherical(p))", &c, &v(0, 1, 2), 64.0 * EPS)?;
                let q4 = <Vec4 as Vector4D>::new(p.x, p.y, p.z, q.x);
                wantv("4d new", &q4, &[x[0] as f64 * k, x[1] as f64 * k, x[2] as f64 * k, y[0] as f64 * k], 0.0)?;
                wantb("4d access", Vector4D::to_array(&q4) == [p.x, p.y, p.z, q.x] && Vector4D::tuple(&q4) == (p.x, p.y, p.z, q.x) && Vector4D::xyzw(&q4) == q4, true)?;
            }
            Ok(())
        });
    });
}

// ------------------------------------------------------------------------------------ transforms
#[derive(Clone, Debug)]
struct Aff {
    m: Vec<Vec<f64>>,
    t: Vec<f64>,
}
impl Aff {
    fn id(d: usize) -> Aff {
        Aff { m: (0..d).map(|i| (0..d).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect(), t: vec![0.0; d] }
    }
    fn vec(&self, x: &[f64]) -> Vec<f64> {
        self.m.iter().map(|r| r.iter().zip(x).map(|(a, b)| a * b).sum()).collect()
    }
    fn apply(&self, x: &[f64]) -> Vec<f64> {
        self.vec(x).iter().zip(&self.t).map(|(a, b)| a + b).collect()
    }
    /// first self, then o
    fn then(&self, o: &Aff) -> Aff {
        let d = self.t.len();
        Aff {
            m: (0..d).map(|i| (0..d).map(|j| (0..d).map(|k| o.m[i][k] * self.m[k][j]).sum()).collect()).collect(),
            t: o.apply(&self.t),
        }
    }
}
#[derive(Clone, Debug)]
enum Gen {
    Translate(Vec<f64>),
    Scale(Vec<f64>),
    /// rotation from axis i towards axis j with this cosine and sine
    Turn(usize, usize, f64, f64),
}
use Gen::*;
impl Gen {
    fn aff(&self, d: usize) -> Aff {
        let mut a = Aff::id(d);
        match self {
            Translate(t) => a.t = t.clone(),
            Scale(s) => (0..d).for_each(|i| a.m[i][i] = s[i]),
            Turn(i, j, c, s) => {
                a.m[*i][*i] = *c;
                a.m[*j][*j] = *c;
                a.m[*j][*i] = *s;
                a.m[*i][*j] = -*s;
            }
        }
        a
    }
    fn angle(&self) -> f32 {
        match self {
            Turn(_, _, c, s) => s.atan2(*c) as f32,
            _ => 0.0,
        }
    }
    fn uniform(&self) -> bool {
        matches!(self, Scale(s) if s.iter().all(|x| *x == s[0] && *x > 0.0))
    }
}
/// how the elementary maps are made for one transform type
trait Tr<const D: usize, V: Raw<D>>: TransformTrait<f32, D, Vec = V> {
    fn rotator(g: &Gen) -> Self::Rot;
    fn make(g: &Gen) -> Self {
        match g {
            Translate(v) => Self::from_translation(V::mk(v)),
            Scale(v) => Self::from_scale(V::mk(v)),
            Turn(..) => Self::from_rotation(Self::rotator(g)),
        }
    }
    /// whether the composition can be represented by the type at all
    fn fits(_w: &[&Gen]) -> bool {
        true
    }
}
impl Tr<2, Vec2> for Affine2 {
    fn rotator(g: &Gen) -> f32 {
        g.angle()
    }
}
impl Tr<3, Vec3> for Transform {
    fn rotator(g: &Gen) -> Quat {
        let Turn(i, j, ..) = g else { unreachable!() };
        let mut ax = [0.0; 3];
        ax[3 - i - j] = if (i + 1) % 3 == *j { 1.0 } else { -1.0 };
        <Quat as Quarternion>::from_axis_angle(Vec3::mk(&ax), g.angle())
    }
    // scale first, then rotate: a non-uniform scale after a rotation would need shear
    fn fits(w: &[&Gen]) -> bool {
        let turn = w.iter().position(|g| matches!(g, Turn(..))).unwrap_or(w.len());
        w[turn..].iter().all(|g| !matches!(g, Scale(_)) || g.uniform())
    }
}
type Mat5 = <Vec4 as Transformable<4>>::Trans;
impl Tr<4, Vec4> for Mat5 {
    fn rotator(_g: &Gen) -> Self::Rot {
        unreachable!()
    }
    // rotations in four dimensions are marked as not implemented
    fn fits(w: &[&Gen]) -> bool {
        w.iter().all(|g| !matches!(g, Turn(..)))
    }
}
fn gens(d: usize) -> Vec<Gen> {
    let e = |i: usize, v: f64| (0..d).map(|j| if i == j { v } else { 0.0 }).collect::<Vec<f64>>();
    let mut r = vec![
        Translate((0..d).map(|i| [1.0, -2.0, 3.0, 0.5][i]).collect()),
        Translate(e(d - 1, 4.0)),
        Scale((0..d).map(|i| [2.0, 3.0, -1.0, 0.5][i]).collect()),
        Scale(vec![2.0; d]),
        Scale((0..d).map(|i| [0.5, 1.0, 4.0, -2.0][i]).collect()),
    ];
    if d < 4 {
        for i in 0..d {
            let j = (i + 1) % d;
            if d == 3 || i == 0 {
                for (c, s) in [(0.0, 1.0), (-1.0, 0.0), (0.0, -1.0), (0.6, 0.8), (0.6, -0.8)] {
                    r.push(Turn(i, j, c, s));
                }
            }
        }
    }
    r
}
/// what the payload types have besides the position
trait Pay<const D: usize, V: Raw<D>>: HasPosition<D, V, S = f32> + Transformable<D, S = f32, Vec = V> + Copy + PartialEq {
    fn make(p: V, n: V) -> Self;
    fn rest(&self, n: &[f64], tol: f64) -> Result<(), String>;
}
impl Pay<2, Vec2> for BevyVertexPayload2d {
    fn make(p: Vec2, _: Vec2) -> Self {
        Self::from_pos(p)
    }
    fn rest(&self, _: &[f64], _: f64) -> Result<(), String> {
        Ok(())
    }
}
impl Pay<3, Vec3> for BevyVertexPayload3d {
    fn make(p: Vec3, n: Vec3) -> Self {
        let mut x = Self::from_pos(p);
        x.set_normal(n);
        x.set_uv(Vec2::mk(&[0.25, 0.75]));
        x
    }
    fn rest(&self, n: &[f64], tol: f64) -> Result<(), String> {
        wantv("the transformed normal", self.normal(), n, tol)?;
        wantv("uv", self.uv(), &[0.25, 0.75], 0.0)
    }
}
fn chains<const D: usize, V: Raw<D> + Transformable<D, S = f32, Vec = V, Trans = T, Rot = T::Rot>, T: Tr<D, V> + PartialEq>(ctx: &Ctx, ty: &str, len: usize, pay: Option<&(dyn Fn(&[&Gen], &[f64], &[f64], &[f64], f64) -> Result<(), String> + Sync)>) {
    let g = gens(D);
    let pts: Vec<Vec<f64>> = (0..3u64.pow(D as u32)).map(|i| digits(i, 3, D).iter().map(|x| [-1.0, 0.0, 2.0][*x as usize]).collect()).collect();
    let n = g.len() as u64;
    for l in 0..=len {
        let tol = EPS * 64.0 * 4f64.powi(l as i32);
        ctx.par(n.pow(l as u32), 50, |i| {
            let w: Vec<&Gen> = digits(i, n, l).iter().map(|k| &g[*k as usize]).collect();
            if !T::fits(&w) {
                return;
            }
            step(ctx, || format!("transform {} {:?}", ty, w).replace(' ', ""), || {
                let mut e = Aff::id(D);
                let mut t = T::identity();
                let mut with = t;
                let mut vecs: Vec<V> = pts.iter().map(|p| V::mk(p)).collect();
                for x in &w {
                    let y = T::make(x);
                    t = t.chain(&y);
                    e = e.then(&x.aff(D));
                    with = match x {
                        Translate(v) => with.with_translation(V::mk(v)),
                        Scale(v) => with.with_scale(V::mk(v)),
                        _ => with.chain(&y),
                    };
                    for q in &mut vecs {
                        let old = *q;
                        let c = q.transformed(&y);
                        wantb("the source of a transformed copy is untouched", *q == old, true)?;
                        q.transform(&y);
                        wantb("transform and transformed agree", *q == c, true)?;
                        let d = match x {
                            Translate(v) => old.translated(&V::mk(v)),
                            Scale(v) => old.scaled(&V::mk(v)),
                            _ => old.rotated(&T::rotator(x)),
                        };
                        wantb("the elementary method and the transform agree", d == c, true)?;
                    }
                }
                for (k, p) in pts.iter().enumerate() {
                    let (exp, lin) = (e.apply(p), e.vec(p));
                    wantv("chain().apply", &t.apply(V::mk(p)), &exp, tol)?;
                    wantv("chain().apply_vec", &t.apply_vec(V::mk(p)), &lin, tol)?;
                    wantv("with_*().apply", &with.apply(V::mk(p)), &exp, tol)?;
                    wantv("with_*().apply_vec", &with.apply_vec(V::mk(p)), &lin, tol)?;
                    wantv("the transformed vector", &vecs[k], &exp, tol)?;
                    if let Some(f) = pay {
                        let nrm: Vec<f64> = p.iter().rev().cloned().collect();
                        // a normal is transformed as a direction; under non-rigid maps it is not specified
                        let rigid = w.iter().all(|g| !matches!(g, Scale(_)));
                        f(&w, p, &exp, &if rigid { e.vec(&nrm) } else { vec![] }, tol)?;
                    }
                }
                Ok(())
            });
        });
    }
    step(ctx, || format!("identity {}", ty), || {
        wantb("default is the identity", T::default() == T::identity(), true)?;
        for p in &pts {
            wantb("identity", T::identity().apply(V::mk(p)) == V::mk(p) && T::identity().apply_vec(V::mk(p)) == V::mk(p), true)?;
        }
        Ok(())
    });
}
fn payload<const D: usize, V: Raw<D>, T: Tr<D, V>, P: Pay<D, V> + Transformable<D, Trans = T, Rot = T::Rot>>(w: &[&Gen], p: &[f64], exp: &[f64], lin: &[f64], tol: f64) -> Result<(), String> {
    let nrm: Vec<f64> = p.iter().rev().cloned().collect();
    let mut q = P::make(V::mk(p), V::mk(&nrm));
    let mut all = q;
    for x in w {
        let before = q;
        let copy = match x {
            Translate(v) => q.translated(&V::mk(v)),
            Scale(v) => q.scaled(&V::mk(v)),
            _ => q.rotated(&T::rotator(x)),
        };
        wantb("the source of a transformed copy is untouched", q == before, true)?;
        match x {
            Translate(v) => q.translate(&V::mk(v)),
            Scale(v) => q.scale(&V::mk(v)),
            _ => q.rotate(&T::rotator(x)),
        };
        wantb("transforming in place and copying agree", q == copy, true)?;
        all.transform(&T::make(x));
    }
    for y in [&q, &all] {
        wantv("the transformed payload", y.pos(), exp, tol)?;
        if !lin.is_empty() {
            y.rest(lin, tol)?;
        }
    }
    // interpolation with the payload of the transformed point
    let o = P::make(V::mk(exp), V::mk(&nrm));
    let s = P::make(V::mk(p), V::mk(&nrm));
    for t in [0.0, 0.25, 1.0] {
        let l = s.lerped(&o, t as f32);
        let e: Vec<f64> = p.iter().zip(exp).map(|(a, b)| a + (b - a) * t).collect();
        wantv("lerp", l.pos(), &e, tol)?;
        l.rest(&nrm, tol)?;
    }
    Ok(())
}
/// rotations from one direction to another, of any length, including equal and opposite ones
fn arcs<const D: usize, V: Raw<D>, T: Tr<D, V>>(ctx: &Ctx, ty: &str, w: i64, tol: f64, q: Option<fn(V, V) -> T>) {
    let n = ((2 * w + 1) as u64).pow(D as u32);
    ctx.par(n * n, 500, |i| {
        let (x, y) = (grid(i % n, w, D), grid(i / n, w, D));
        if x.iter().all(|q| *q == 0) || y.iter().all(|q| *q == 0) {
            return;
        }
        step(ctx, || format!("arc {} {:?} {:?}", ty, x, y).replace(' ', ""), || {
            let (lx, ly) = ((x.iter().map(|q| q * q).sum::<i64>() as f64).sqrt(), (y.iter().map(|q| q * q).sum::<i64>() as f64).sqrt());
            for (kx, ky) in [(1.0, 1.0), (1.0 / lx, 1.0 / ly), (0.0078125, 64.0)] {
                let mut ts = vec![T::from_rotation_arc(int(&x, kx), int(&y, ky))];
                if let Some(f) = q {
                    ts.push(f(int(&x, kx), int(&y, ky)));
                }
                for t in ts {
                    let exp: Vec<f64> = y.iter().map(|q| *q as f64 / ly * lx).collect();
                    wantv("the rotated start direction", &t.apply(int(&x, 1.0)), &exp, tol)?;
                    wantv("the rotated start direction", &t.apply_vec(int(&x, 1.0)), &exp, tol)?;
                    let col: Vec<Vec<f32>> = (0..D)
                        .map(|c| {
                            let mut e = vec![0i64; D];
                            e[c] = 1;
                            t.apply_vec(int(&e, 1.0)).arr()
                        })
                        .collect();
                    for a in 0..D {
                        for b in 0..D {
                            let d: f32 = (0..D).map(|k| col[a][k] * col[b][k]).sum();
                            want("orthonormality", d, if a == b { 1.0 } else { 0.0 }, tol)?;
                        }
                    }
                    let det = if D == 2 {
                        col[0][0] * col[1][1] - col[0][1] * col[1][0]
                    } else {
                        col[0][0] * (col[1][1] * col[2][2] - col[1][2] * col[2][1]) - col[0][1] * (col[1][0] * col[2][2] - col[1][2] * col[2][0])
                            + col[0][2] * (col[1][0] * col[2][1] - col[1][1] * col[2][0])
                    };
                    want("determinant", det, 1.0, tol)?;
                    wantv("the rotated origin", &t.apply(V::mk(&vec![0.0; D])), &vec![0.0; D], 0.0)?;
                }
            }
            Ok(())
        });
    });
}
fn quats(ctx: &Ctx) {
    step(ctx, || "quaternion identity".into(), || {
        let q = <Quat as Quarternion>::identity();
        wantv("vec4 of the identity", &Quarternion::vec4(&q), &[0.0, 0.0, 0.0, 1.0], 0.0)
    });
    let n = 5u64.pow(3);
    ctx.par(n * 24, 100, |i| {
        let x = grid(i % n, 2, 3);
        let k = (i / n) as i64 - 12;
        if x == [0, 0, 0] {
            return;
        }
        step(ctx, || format!("quaternion {:?} {}", x, k).replace(' ', ""), || {
            let l = (x.iter().map(|q| q * q).sum::<i64>() as f64).sqrt();
            let ax: Vec<f64> = x.iter().map(|q| *q as f64 / l).collect();
            let a = k as f64 * std::f64::consts::PI / 12.0;
            let q = <Quat as Quarternion>::from_axis_angle(Vec3::mk(&ax), a as f32);
            let (s, c) = (a / 2.0).sin_cos();
            wantv("vec4", &Quarternion::vec4(&q), &[ax[0] * s, ax[1] * s, ax[2] * s, c], 8.0 * EPS)?;
            // the axis and the angle are unique up to a common sign and full turns
            let (bx, b) = Quarternion::axis_angle(&q);
            let b = b as f64;
            let same = (0..3).map(|i| ax[i] * bx.arr()[i] as f64).sum::<f64>();
            if k != 0 {
                want("cosine between the axes", same.abs() as f32, 1.0, 1e-4)?;
                let d = (b * same.signum() - a).rem_euclid(2.0 * std::f64::consts::PI);
                wantb("the angle", d < 1e-3 || d > 2.0 * std::f64::consts::PI - 1e-3, true)?;
            }
            Ok(())
        });
    });
}
pub fn b01(ctx: &Ctx) {
    ctx.bound("vectors", "all pairs of integer vectors with entries up to 5 (2d), 2 (3d), 1 (4d), three magnitudes");
    vectors::<2, Vec2>(ctx, 5);
    vectors::<3, Vec3>(ctx, ctx.b(2, 3));
    vectors::<4, Vec4>(ctx, ctx.b(1, 2));
    special(ctx);
    let (a, b, c) = (ctx.b(4, 5), ctx.b(3, 4), ctx.b(5, 6));
    ctx.bound("chains", format!("all sequences of up to {} (2d), {} (3d), {} (4d, no rotations) translations, scalings and rotations applied to a 3^d grid", a, b, c));
    chains::<2, Vec2, Affine2>(ctx, "2d", a, Some(&payload::<2, Vec2, Affine2, BevyVertexPayload2d>));
    chains::<3, Vec3, Transform>(ctx, "3d", b, Some(&payload::<3, Vec3, Transform, BevyVertexPayload3d>));
    chains::<4, Vec4, Mat5>(ctx, "4d", c, None);
    // the angle of the plane rotation is only computed approximately by the underlying library
    arcs::<2, Vec2, Affine2>(ctx, "2d", 5, 1e-3, None);
    arcs::<3, Vec3, Transform>(ctx, "3d", ctx.b(2, 3), 2e-3, Some(|a, b| Transform::from_rotation(<Quat as Quarternion>::from_rotation_arc(a, b))));
    quats(ctx);
    ctx.assume("a transform made of translation, rotation and scale cannot represent a non-uniform scale after a rotation; such compositions are excluded");
    ctx.assume("four-dimensional rotations are marked as not implemented in the code");
    ctx.sample(|| "transform 3d [Scale, Turn, Translate] applied to 27 points by chain, with_*, payloads, vectors".into());
}
