//! M01-M03: plane predicates, transforms, vector and scalar helpers; every input of bounded tables.
use crate::engine::*;
use crate::poly::*;
use crate::t_tri::face_mesh;
use procedural_modelling::{extensions::nalgebra::*, math::*, prelude::*};
use std::sync::atomic::Ordering::SeqCst;

/// decodes `i` into digits of base `b`
fn digits(mut i: u64, b: u64, n: usize) -> Vec<i64> {
    (0..n)
        .map(|_| {
            let d = (i % b) as i64;
            i /= b;
            d
        })
        .collect()
}
fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
fn want(what: &str, got: f64, exp: f64, tol: f64) -> Result<(), String> {
    if close(got, exp, tol) {
        Ok(())
    } else {
        Err(format!("{} is {} instead of {}", what, got, exp))
    }
}
fn wantb(what: &str, got: bool, exp: bool) -> Result<(), String> {
    if got == exp {
        Ok(())
    } else {
        Err(format!("{} is {} instead of {}", what, got, exp))
    }
}
fn sc<S: ScalarPlus>(x: f64) -> S {
    // exact: three f32 parts carry all 53 bits
    let hi = x as f32;
    let mid = (x - hi as f64) as f32;
    let lo = (x - hi as f64 - mid as f64) as f32;
    if x == hi as f64 {
        // keeps the sign of zero
        return <S as From<f32>>::from(hi);
    }
    <S as From<f32>>::from(hi) + (<S as From<f32>>::from(mid) + <S as From<f32>>::from(lo))
}
fn f<S: ScalarPlus>(x: S) -> f64 {
    Scalar::to_f64(x)
}
fn v2<S: ScalarPlus>(p: P, k: f64) -> Vec2<S> {
    <Vec2<S> as Vector2D>::new(sc(p.0 as f64 * k), sc(p.1 as f64 * k))
}
fn step(ctx: &Ctx, key: impl Fn() -> String, g: impl FnOnce() -> Result<(), String>) {
    ctx.transitions.fetch_add(1, SeqCst);
    ctx.traces.fetch_add(1, SeqCst);
    ctx.case(key, g);
}

// ---------------------------------------------------------------------------------------------- M01
fn m01_triples<S: ScalarPlus>(ctx: &Ctx, ty: &str, scale: f64) {
    let g = grid(ctx.b(5, 6), 5);
    let n = g.len() as u64;
    let tol = f(S::EPS) * 8.0;
    ctx.par(n * n * n, 500, |i| {
        let d = digits(i, n, 3);
        let (a, b, c) = (g[d[0] as usize], g[d[1] as usize], g[d[2] as usize]);
        step(ctx, || format!("triple {} {:?} {:?} {:?} x{}", ty, a, b, c, scale).replace(' ', ""), || {
            let (va, vb, vc) = (v2::<S>(a, scale), v2::<S>(b, scale), v2::<S>(c, scale));
            let k2 = scale * scale;
            let cr = cross(a, b, c);
            // b is the corner between a and c
            wantb("convex", vb.convex(va, vc), cr > 0)?;
            wantb("collinear", vc.collinear(va, vb, S::ZERO), cr == 0)?;
            wantb("collinear with tolerance", vc.collinear(va, vb, sc(1.5 * k2)), cr.abs() as f64 <= 1.5)?;
            want("barycentric_sign", f(Vec2::<S>::barycentric_sign(va, vb, vc)), cross(c, a, b) as f64 * k2, 0.0)?;
            want("perp_dot", f(va.perp_dot(&vb)), (a.0 * b.1 - a.1 * b.0) as f64 * k2, 0.0)?;
            if a != b && a != c {
                let e = (cr as f64).atan2(dot(a, b, c) as f64);
                let got = f(va.angle_tri(vb, vc));
                // both signs of a half turn denote the same angle
                if !(close(got, e, tol * 4.0) || (cr == 0 && close(got.abs(), e.abs(), tol * 4.0))) {
                    return Err(format!("angle_tri is {} instead of {}", got, e));
                }
            }
            Ok(())
        });
    });
    ctx.states.fetch_add(n * n * n, SeqCst);
}
fn m01_quads<S: ScalarPlus>(ctx: &Ctx, ty: &str, scale: f64) {
    let g = grid(4, ctx.b(4, 5));
    let n = g.len() as u64;
    let eps = f(S::EPS);
    ctx.par(n * n * n * n, 2000, |i| {
        let d = digits(i, n, 4);
        let p: Vec<P> = d.iter().map(|k| g[*k as usize]).collect();
        step(ctx, || format!("quad {} {:?} x{}", ty, p, scale).replace(' ', ""), || {
            let v: Vec<Vec2<S>> = p.iter().map(|q| v2::<S>(*q, scale)).collect();
            let (a, b, c, q) = (p[0], p[1], p[2], p[3]);
            // point in triangle
            let s = [cross(a, b, q), cross(b, c, q), cross(c, a, q)];
            let inside = s.iter().all(|x| *x > 0) || s.iter().all(|x| *x < 0);
            let degenerate = cross(a, b, c) == 0;
            let border = !degenerate && (on_segment(a, b, q) || on_segment(b, c, q) || on_segment(c, a, q));
            if !degenerate {
                wantb("is_inside_triangle", v[3].is_inside_triangle(v[0], v[1], v[2]), inside || border)?;
            }
            // segments
            let l = LineSegment2D::new(v[0], v[1]);
            let m = LineSegment2D::new(v[2], v[3]);
            want("length_squared", f(l.length_squared()), ((a.0 - b.0).pow(2) + (a.1 - b.1).pow(2)) as f64 * scale * scale, 0.0)?;
            want("length", f(l.length()), (((a.0 - b.0).pow(2) + (a.1 - b.1).pow(2)) as f64).sqrt() * scale, 4.0 * eps)?;
            let mid = l.midpoint();
            want("midpoint x", f(Vector::x(&mid)), (a.0 + b.0) as f64 / 2.0 * scale, 0.0)?;
            want("midpoint y", f(Vector::y(&mid)), (a.1 + b.1) as f64 / 2.0 * scale, 0.0)?;
            wantb("start and end", l.start() == v[0] && l.end() == v[1], true)?;
            if a != b {
                let dir = l.direction();
                let len = (((a.0 - b.0).pow(2) + (a.1 - b.1).pow(2)) as f64).sqrt();
                want("direction x", f(Vector::x(&dir)), (b.0 - a.0) as f64 / len, 8.0 * eps)?;
                want("direction y", f(Vector::y(&dir)), (b.1 - a.1) as f64 / len, 8.0 * eps)?;
            }
            let rxs = (b.0 - a.0) * (q.1 - c.1) - (b.1 - a.1) * (q.0 - c.0);
            let meet = rxs != 0 && touch(a, b, c, q);
            let proper = proper_cross(a, b, c, q);
            let e = S::EPS * sc(scale * scale);
            for (name, e2, exp) in [("closed", S::EPS, meet), ("open", -S::EPS, proper)] {
                let r = l.intersect_line(&m, e, e2);
                wantb(&format!("the {} intersection of {:?}-{:?} and {:?}-{:?}", name, a, b, c, q), r.is_some(), exp)?;
                if let Some(x) = r {
                    let t = ((c.0 - a.0) * (q.1 - c.1) - (c.1 - a.1) * (q.0 - c.0)) as f64 / rxs as f64;
                    want("intersection x", f(Vector::x(&x)), (a.0 as f64 + t * (b.0 - a.0) as f64) * scale, 16.0 * eps)?;
                    want("intersection y", f(Vector::y(&x)), (a.1 as f64 + t * (b.1 - a.1) as f64) * scale, 16.0 * eps)?;
                }
            }
            // everything counts as parallel below the first tolerance
            wantb("intersection with a large tolerance for parallels", l.intersect_line(&m, sc(1000.0 * scale * scale), S::EPS).is_some(), false)?;
            Ok(())
        });
    });
    ctx.states.fetch_add(n * n * n * n, SeqCst);
}
fn m01_polygon<S: ScalarPlus>(p: &[P], scale: f64, simple: bool) -> Result<(), String> {
    let n = p.len();
    let eps = f(S::EPS);
    let poly = <Polygon2d<S> as Polygon<Vec2<S>>>::from_iter(p.iter().map(|q| v2::<S>(*q, scale)));
    wantb("the number of points", poly.num_points() == n && poly.points().len() == n, true)?;
    for (i, q) in poly.points().iter().enumerate() {
        wantb("the order of the points", *q == v2::<S>(p[i], scale), true)?;
    }
    let a2 = area2(p);
    want("signed_area", f(poly.signed_area()), a2 as f64 / 2.0 * scale * scale, 0.0)?;
    want("area", f(poly.area()), a2.abs() as f64 / 2.0 * scale * scale, 0.0)?;
    wantb("is_ccw", poly.is_ccw(), a2 >= 0)?;
    wantb("is_cw", poly.is_cw(), a2 <= 0)?;
    if n > 0 {
        let c = poly.centroid();
        want("centroid x", f(Vector::x(&c)), p.iter().map(|q| q.0).sum::<i64>() as f64 * scale / n as f64, 4.0 * eps)?;
        want("centroid y", f(Vector::y(&c)), p.iter().map(|q| q.1).sum::<i64>() as f64 * scale / n as f64, 4.0 * eps)?;
    }
    if !simple {
        return Ok(());
    }
    let dbl: Vec<P> = p.iter().map(|q| (2 * q.0, 2 * q.1)).collect();
    let (x0, x1) = (dbl.iter().map(|q| q.0).min().unwrap(), dbl.iter().map(|q| q.0).max().unwrap());
    let (y0, y1) = (dbl.iter().map(|q| q.1).min().unwrap(), dbl.iter().map(|q| q.1).max().unwrap());
    for x in x0 - 1..=x1 + 1 {
        for y in y0 - 1..=y1 + 1 {
            let w = locate(&dbl, (x, y));
            if w != 0 {
                let got = poly.contains(&v2::<S>((x, y), scale / 2.0));
                wantb(&format!("contains({}/2, {}/2)", x, y), got, w > 0)?;
            }
        }
    }
    let mut ccw = p.to_vec();
    let rev = a2 < 0;
    if rev {
        ccw.reverse();
    }
    let at = |i: usize| if rev { n - 1 - i } else { i };
    for i in 0..n {
        for j in 0..n {
            let exp = if i == j {
                false
            } else if (i + 1) % n == j || (j + 1) % n == i {
                true
            } else {
                is_diagonal(&ccw, at(i), at(j))
            };
            wantb(&format!("valid_diagonal({}, {})", i, j), poly.valid_diagonal(i, j), exp)?;
        }
    }
    Ok(())
}
/// some pair of edges that have no end in common cross at inner points
fn crosses(p: &[P]) -> bool {
    let n = p.len();
    (0..n).any(|i| (0..i).any(|j| proper_cross(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n])))
}
fn m01_face(p: &[P], scale: f64) -> Result<(), String> {
    let v: Vec<Vec3<f64>> = p.iter().map(|q| Vec3::new(q.0 as f64 * scale, q.1 as f64 * scale, 0.0)).collect();
    let m = face_mesh(&v)?;
    let face = m.face(0);
    let simple = is_simple(p);
    if simple || crosses(p) {
        wantb("has_self_intersections", face.has_self_intersections(&m), !simple)?;
        wantb("is_simple", face.is_simple(&m), simple)?;
    }
    Ok(())
}
pub fn m01(ctx: &Ctx) {
    ctx.bound("points", "all triples of a 5x5 grid (thorough 6x5), all quadruples of a 4x4 grid (4x5), f64 and f32, three scales");
    for s in [1.0, 0.03125, 64.0] {
        m01_triples::<f64>(ctx, "f64", s);
        m01_triples::<f32>(ctx, "f32", s);
        m01_quads::<f64>(ctx, "f64", s);
        m01_quads::<f32>(ctx, "f32", s);
    }
    // simple polygons in both directions, all starts
    let mut polys = vec![];
    polygons(&grid(3, 3), 3, 9, true, false, &mut polys);
    polygons(&grid(4, 4), 3, ctx.b(5, 7), true, true, &mut polys);
    polygons(&grid(5, 4), 3, ctx.b(4, 6), true, true, &mut polys);
    polygons(&general(8, 1), 3, 8, false, false, &mut polys);
    ctx.bound("polygons", format!("{} simple polygons of grid and general families, both directions, all starts", polys.len()));
    ctx.par(polys.len() as u64, 8, |i| {
        let p = &polys[i as usize];
        ctx.states.fetch_add(1, SeqCst);
        for s in 0..p.len() {
            for rev in [false, true] {
                let mut q = p.clone();
                q.rotate_left(s);
                if rev {
                    q.reverse();
                }
                for sc in [1.0, 0.03125] {
                    let key = || format!("polygon {:?} x{}", q, sc).replace(' ', "");
                    ctx.sample(key);
                    step(ctx, key, || {
                        m01_polygon::<f64>(&q, sc, true)?;
                        m01_polygon::<f32>(&q, sc, true).map_err(|e| format!("f32: {}", e))?;
                        m01_face(&q, sc)
                    });
                }
            }
        }
    });
    // any closed sequence of points, crossing or not
    let g = grid(3, 3);
    for n in 0..=ctx.b(5, 6) {
        let total = 9u64.pow(n as u32);
        ctx.par(total, 200, |i| {
            let p: Vec<P> = digits(i, 9, n).iter().map(|k| g[*k as usize]).collect();
            ctx.states.fetch_add(1, SeqCst);
            step(ctx, || format!("sequence {:?}", p).replace(' ', ""), || {
                m01_polygon::<f64>(&p, 1.0, false)?;
                m01_polygon::<f32>(&p, 1.0, false)?;
                let mut s = p.clone();
                s.sort();
                s.dedup();
                if n >= 3 && s.len() == n {
                    m01_face(&p, 1.0)?;
                }
                Ok(())
            });
        });
    }
    ctx.assume("points on the boundary and segments that overlap along a line are unspecified");
}

// ---------------------------------------------------------------------------------------------- M03
fn vn<S: ScalarPlus, const D: usize>(d: &[i64], k: f64) -> VecN<S, D> {
    let mut a = [S::ZERO; D];
    for i in 0..D {
        a[i] = sc(d[i] as f64 * k);
    }
    VecN::<S, D>::from(a)
}
fn m03_vectors<S: ScalarPlus, const D: usize>(ctx: &Ctx, ty: &str, w: i64) {
    let b = (2 * w + 1) as u64;
    let n = b.pow(D as u32);
    let eps = f(S::EPS);
    ctx.par(n * n, 2000, |i| {
        let x: Vec<i64> = digits(i % n, b, D).iter().map(|q| q - w).collect();
        let y: Vec<i64> = digits(i / n, b, D).iter().map(|q| q - w).collect();
        ctx.states.fetch_add(1, SeqCst);
        step(ctx, || format!("vectors {} {:?} {:?}", ty, x, y).replace(' ', ""), || {
            for k in [1.0, 0.0009765625, 1024.0] {
                let (p, q) = (vn::<S, D>(&x, k), vn::<S, D>(&y, k));
                let dt: i64 = (0..D).map(|i| x[i] * y[i]).sum();
                let xx: i64 = (0..D).map(|i| x[i] * x[i]).sum();
                let yy: i64 = (0..D).map(|i| y[i] * y[i]).sum();
                let dd: i64 = (0..D).map(|i| (x[i] - y[i]).pow(2)).sum();
                let k2 = k * k;
                want("dot", f(Vector::dot(&p, &q)), dt as f64 * k2, 0.0)?;
                want("length_squared", f(p.length_squared()), xx as f64 * k2, 0.0)?;
                want("length", f(p.length()), (xx as f64).sqrt() * k, 2.0 * eps)?;
                want("distance_squared", f(Vector::distance_squared(&p, &q)), dd as f64 * k2, 0.0)?;
                want("distance", f(Vector::distance(&p, &q)), (dd as f64).sqrt() * k, 2.0 * eps)?;
                if xx > 0 {
                    let nm = Vector::normalize(&p);
                    for i in 0..D {
                        want("normalize", f(nm[i]), x[i] as f64 / (xx as f64).sqrt(), 4.0 * eps)?;
                    }
                }
                let an = f(Vector::angle_between(&p, q));
                if xx == 0 || yy == 0 {
                    want("angle_between with a zero vector", an, 0.0, 0.0)?;
                } else if D == 2 {
                    let cr = (x[0] * y[1] - x[1] * y[0]) as f64;
                    let e = cr.atan2(dt as f64);
                    if !(close(an, e, 8.0 * eps) || (cr == 0.0 && close(an.abs(), e.abs(), 8.0 * eps))) {
                        return Err(format!("angle_between is {} instead of {}", an, e));
                    }
                } else {
                    // cos^2 exactly
                    let e = (dt as f64 / ((xx * yy) as f64).sqrt()).clamp(-1.0, 1.0).acos();
                    want("angle_between", an, e, 4.0 * eps.sqrt())?;
                }
                wantb("is_about", Vector::is_about(&p, &q, sc(0.5 * k)), x == y)?;
                wantb("is_about beyond the largest difference", Vector::is_about(&p, &q, sc(20.0 * k)), true)?;
                wantb("zero", HasZero::is_zero(&p) == (xx == 0), true)?;
                for (t, tn) in [(0.0, 0), (1.0, 4), (0.5, 2), (0.25, 1), (2.0, 8), (-0.25, -1)] {
                    let l = p.lerped(&q, sc(t));
                    for i in 0..D {
                        want("lerp", f(l[i]), (4 * x[i] + tn * (y[i] - x[i])) as f64 / 4.0 * k, 0.0)?;
                    }
                }
                let fx = <VecN<S, D> as Vector<S, D>>::from_x(p[0]);
                let fxy = <VecN<S, D> as Vector<S, D>>::from_xy(p[0], p[1]);
                let fxyz = <VecN<S, D> as Vector<S, D>>::from_xyz(p[0], p[1], q[0]);
                let sp = <VecN<S, D> as Vector<S, D>>::splat(p[0]);
                for i in 0..D {
                    wantb("splat", sp[i] == p[0], true)?;
                    wantb("from_x", fx[i] == if i == 0 { p[0] } else { S::ZERO }, true)?;
                    wantb("from_xy", fxy[i] == if i == 0 { p[0] } else if i == 1 { p[1] } else { S::ZERO }, true)?;
                    wantb("from_xyz", fxyz[i] == if i == 0 { p[0] } else if i == 1 { p[1] } else if i == 2 { q[0] } else { S::ZERO }, true)?;
                }
                let g = |i: usize| if i < D { p[i] } else { S::ZERO };
                wantb("coordinate access", Vector::x(&p) == g(0) && Vector::y(&p) == g(1) && Vector::z(&p) == g(2) && Vector::w(&p) == g(3), true)?;
                let p2: Vec2<S> = Vector::vec2(&p);
                wantb("vec2", p2 == <Vec2<S> as Vector2D>::new(p[0], p[1]), true)?;
                let (sum, mean) = (<VecN<S, D> as Vector<S, D>>::stable_sum([p, q, p].into_iter()), [p, q].into_iter().stable_mean());
                for i in 0..D {
                    want("sum", f(sum[i]), (2 * x[i] + y[i]) as f64 * k, 0.0)?;
                    want("mean", f(mean[i]), (x[i] + y[i]) as f64 / 2.0 * k, 0.0)?;
                }
            }
            Ok(())
        });
    });
}
fn m03_2d_3d<S: ScalarPlus>(ctx: &Ctx, ty: &str) {
    let w = 2i64;
    let b = 5u64;
    let eps = f(S::EPS);
    let n = b.pow(6);
    ctx.par(n, 1000, |i| {
        let d: Vec<i64> = digits(i, b, 6).iter().map(|q| q - w).collect();
        step(ctx, || format!("3d {} {:?}", ty, d).replace(' ', ""), || {
            for k in [1.0, 0.03125] {
                let (x, y) = (&d[..3], &d[3..]);
                let (p, q) = (vn::<S, 3>(x, k), vn::<S, 3>(y, k));
                let c = Vector3D::cross(&p, &q);
                let e = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]];
                for i in 0..3 {
                    want("cross", f(c[i]), e[i] as f64 * k * k, 0.0)?;
                }
                // normal of the corner p with neighbours at 0 and q: p x q
                let nm = Vector3D::normal(&p, <Vec3<S> as HasZero>::zero(), q);
                for i in 0..3 {
                    want("corner normal", f(nm[i]), e[i] as f64 * k * k, 0.0)?;
                }
            }
            Ok(())
        });
    });
    ctx.par(b.pow(3), 10, |i| {
        let x: Vec<i64> = digits(i, b, 3).iter().map(|q| q - w).collect();
        step(ctx, || format!("3d {} {:?}", ty, x).replace(' ', ""), || {
            for k in [1.0, 0.03125, 64.0] {
                let p = vn::<S, 3>(&x, k);
                let v = |a: usize, b: usize, c: usize| <Vec3<S> as Vector3D>::new(p[a], p[b], p[c]);
                wantb("swizzles", Vector3D::xyz(&p) == v(0, 1, 2) && Vector3D::xzy(&p) == v(0, 2, 1) && Vector3D::yxz(&p) == v(1, 0, 2) && Vector3D::yzx(&p) == v(1, 2, 0) && Vector3D::zxy(&p) == v(2, 0, 1) && Vector3D::zyx(&p) == v(2, 1, 0), true)?;
                wantb("tuple and array", Vector3D::tuple(&p) == (p[0], p[1], p[2]) && Vector3D::to_array(&p) == [p[0], p[1], p[2]], true)?;
                let s = Vector3D::spherical(&p);
                let r = (x.iter().map(|q| q * q).sum::<i64>() as f64).sqrt() * k;
                want("r", f(Spherical3d::r(&s)), r, 4.0 * eps)?;
                let th = f(Spherical3d::theta(&s));
                wantb("theta in range", (0.0..=3.1415928).contains(&th), true)?;
                let c = Spherical3d::cartesian(&s);
                for i in 0..3 {
                    if (f(c[i]) - x[i] as f64 * k).abs() > 16.0 * eps.sqrt() * eps.sqrt() * (1.0 + r) * 8.0 {
                        return Err(format!("cartesian(spherical(p)) is {:?} instead of {:?}", c, p));
                    }
                }
                let q2 = <Vec2<S> as Vector2D>::new(p[0], p[1]);
                wantb("2d swizzles", Vector2D::xy(&q2) == q2 && Vector2D::yx(&q2) == <Vec2<S> as Vector2D>::new(p[1], p[0]), true)?;
                let q4 = <Vec4<S> as Vector4D>::new(p[0], p[1], p[2], p[0]);
                wantb("4d access", Vector4D::to_array(&q4) == [p[0], p[1], p[2], p[0]] && Vector4D::tuple(&q4) == (p[0], p[1], p[2], p[0]) && Vector4D::xyzw(&q4) == q4, true)?;
            }
            Ok(())
        });
    });
    // spherical interpolation between all pairs of directions that are not opposite
    ctx.par(b.pow(6), 1000, |i| {
        let d: Vec<i64> = digits(i, b, 6).iter().map(|q| q - w).collect();
        let (x, y) = (&d[..3], &d[3..]);
        let cr = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]];
        let dt: i64 = (0..3).map(|i| x[i] * y[i]).sum();
        if x == [0, 0, 0] || y == [0, 0, 0] || (cr == [0, 0, 0] && dt < 0) {
            return;
        }
        step(ctx, || format!("slerp {} {:?}", ty, d).replace(' ', ""), || {
            let (p, q) = (Vector::normalize(&vn::<S, 3>(x, 1.0)), Vector::normalize(&vn::<S, 3>(y, 1.0)));
            let theta = ((cr.iter().map(|c| c * c).sum::<i64>() as f64).sqrt()).atan2(dt as f64);
            for t in [0.0, 0.25, 0.5, 1.0] {
                let r = Vector3D::slerp(&p, &q, sc(t));
                want("length of slerp", f(r.length()), 1.0, 64.0 * eps.sqrt())?;
                want("angle to the start", f(Vector::angle_between(&p, r)), theta * t, 16.0 * eps.sqrt())?;
                want("angle to the end", f(Vector::angle_between(&r, q)), theta * (1.0 - t), 16.0 * eps.sqrt())?;
            }
            Ok(())
        });
    });
    // Newell normal of every closed sequence of 3 and 4 (thorough 5) points of {0,1,2}^3
    let cube: Vec<Vec<i64>> = (0..27).map(|i| digits(i, 3, 3)).collect();
    for n in 3..=ctx.b(4usize, 5) {
        let m = if n == 5 { 27u64.pow(5) / 1 } else { 27u64.pow(n as u32) };
        ctx.par(m, 5000, |i| {
            let p: Vec<&Vec<i64>> = digits(i, 27, n).iter().map(|k| &cube[*k as usize]).collect();
            step(ctx, || format!("newell {} {:?}", ty, p).replace(' ', ""), || {
                let v: Vec<Vec3<S>> = p.iter().map(|q| vn::<S, 3>(q, 1.0)).collect();
                let nm = Vector3DIteratorExt::normal(v.iter().copied());
                let mut e = [0i64; 3];
                for i in 0..n {
                    let (a, b) = (p[i], p[(i + 1) % n]);
                    e[0] += a[1] * b[2] - a[2] * b[1];
                    e[1] += a[2] * b[0] - a[0] * b[2];
                    e[2] += a[0] * b[1] - a[1] * b[0];
                }
                for i in 0..3 {
                    want("normal of a closed sequence", f(nm[i]), e[i] as f64 / 2.0, 0.0)?;
                }
                Ok(())
            });
        });
    }
}
/// exact value and the sum of absolute values of dyadic numbers m * 2^e (|e| <= 60)
fn exact_sum(v: &[(i64, u32)]) -> (f64, f64, i128) {
    let s: i128 = v.iter().map(|(m, e)| (*m as i128) << e).sum();
    let a: i128 = v.iter().map(|(m, e)| (m.abs() as i128) << e).sum();
    (s as f64, a as f64, s)
}
fn m03_scalar<S: ScalarPlus>(ctx: &Ctx, ty: &str, mant: u32) {
    let eps = f(S::EPS);
    // summation: magnitudes around the precision of the type
    let alphabet: Vec<(i64, u32)> = vec![(1, 0), (3, 0), (1, mant + 1), (-1, mant + 1), (1, mant + 20)];
    let maxn = ctx.b(7usize, 9);
    for n in 0..=maxn {
        let b = alphabet.len() as u64;
        ctx.par(b.pow(n as u32), 2000, |i| {
            let v: Vec<(i64, u32)> = digits(i, b, n).iter().map(|k| alphabet[*k as usize]).collect();
            step(ctx, || format!("sum {} {:?}", ty, v).replace(' ', ""), || {
                let x: Vec<S> = v.iter().map(|(m, e)| sc::<S>(*m as f64 * 2f64.powi(*e as i32))).collect();
                let (s, a, si) = exact_sum(&v);
                let got = f(Scalar::stable_sum(x.iter().copied()));
                let nn = n as f64;
                let tol = eps * s.abs() + nn * nn * eps * eps * a;
                let diff = ((got as i128) - si) as f64 + (got - (got as i128) as f64);
                if diff.abs() > tol {
                    return Err(format!("stable_sum is {} instead of {} (tolerance {})", got, s, tol));
                }
                let (kv, cnt) = kahan_summation(x.iter().copied());
                let kd = ((f(kv) as i128) - si) as f64;
                if cnt != n || kd.abs() > 1.01 * eps * a + nn * nn * eps * eps * a {
                    return Err(format!("kahan_summation is {} instead of {}", f(kv), s));
                }
                if n > 0 {
                    let got = f(ScalarIteratorExt::stable_mean(x.iter().copied()));
                    if (got - s / nn).abs() > 2.0 * tol / nn + eps * s.abs() / nn {
                        return Err(format!("stable_mean is {} instead of {}", got, s / nn));
                    }
                }
                // vectors are summed with compensation in every component
                let vs = <Vec2<S> as Vector<S, 2>>::stable_sum(x.iter().map(|q| <Vec2<S> as Vector2D>::new(*q, -*q)));
                for (c, sign) in [(vs[0], 1.0), (vs[1], -1.0)] {
                    let d = ((f(c) * sign) as i128 - si) as f64;
                    if d.abs() > 1.01 * eps * a + nn * nn * eps * eps * a {
                        return Err(format!("the vector sum is {} instead of {}", f(c), sign * s));
                    }
                }
                Ok(())
            });
        });
        ctx.states.fetch_add(b.pow(n as u32), SeqCst);
    }
    // all triples of a table of values
    let vals: Vec<f64> = vec![0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, -7.0, 0.25, 1024.0, -0.0009765625];
    let n = vals.len() as u64;
    ctx.par(n * n * n, 100, |i| {
        let d = digits(i, n, 3);
        let (a, b, c) = (vals[d[0] as usize], vals[d[1] as usize], vals[d[2] as usize]);
        step(ctx, || format!("scalar {} {} {} {}", ty, a, b, c).replace(' ', ","), || {
            let (x, y, z) = (sc::<S>(a), sc::<S>(b), sc::<S>(c));
            if a != 0.0 || a.is_sign_positive() {
                want("abs", f(Scalar::abs(x)), a.abs(), 0.0)?;
            }
            wantb("is_positive", Scalar::is_positive(x), a > 0.0)?;
            wantb("is_negative", Scalar::is_negative(x), a < 0.0)?;
            want("max", f(Scalar::max(&x, y)), if a > b { a } else { b }, 0.0)?;
            want("min", f(Scalar::min(&x, y)), if a < b { a } else { b }, 0.0)?;
            want("lerp", f(Scalar::lerp(&x, y, z)), a + (b - a) * c, 4.0 * eps)?;
            if b <= c {
                want("clamp", f(Scalar::clamp(x, y, z)), if a < b { b } else if a > c { c } else { a }, 0.0)?;
            }
            if c > 0.0 {
                wantb("is_about", Scalar::is_about(&x, y, z), (a - b).abs() < c)?;
            }
            want("atan2", f(Scalar::atan2(&x, y)), a.atan2(b), 4.0 * eps)?;
            want("sin", f(Scalar::sin(&x)), a.sin(), 64.0 * eps)?;
            want("cos", f(Scalar::cos(&x)), a.cos(), 64.0 * eps)?;
            if a.abs() < 1.5 {
                want("tan", f(Scalar::tan(&x)), a.tan(), 64.0 * eps)?;
                if a != 0.0 {
                    want("cot", f(Scalar::cot(&x)), a.cos() / a.sin(), 64.0 * eps)?;
                }
            }
            if a.abs() <= 1.0 {
                want("acos", f(Scalar::acos(x)), a.acos(), 8.0 * eps)?;
            }
            if a >= 0.0 {
                want("sqrt", f(Scalar::sqrt(x)), a.sqrt(), eps)?;
            }
            wantb("order", OrderedFloats::new(x).cmp(&OrderedFloats::new(y)) == a.partial_cmp(&b).unwrap(), true)?;
            wantb("finite", Scalar::is_finite(x) && !Scalar::is_nan(x), true)?;
            let m: Vec<f64> = [a, b, c, c - a, 2.0, b, 1.0, a, -b].to_vec();
            let e = m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
            let s: Vec<S> = m.iter().map(|q| sc::<S>(*q)).collect();
            let mag = m.iter().fold(1.0f64, |p, q| p.max(q.abs()));
            let got = f(S::det3(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8]));
            if (got - e).abs() > 64.0 * eps * mag * mag * mag {
                return Err(format!("det3 is {} instead of {}", got, e));
            }
            Ok(())
        });
    });
    step(ctx, || format!("constants {}", ty), || {
        want("PI", f(S::PI), std::f64::consts::PI, eps)?;
        want("PHI", f(S::PHI), (1.0 + 5f64.sqrt()) / 2.0, eps)?;
        for (x, e) in [(S::ZERO, 0.0), (S::ONE, 1.0), (S::TWO, 2.0), (S::THREE, 3.0), (S::FOUR, 4.0), (S::FIVE, 5.0), (S::TEN, 10.0), (S::HALF, 0.5)] {
            want("a constant", f(x), e, 0.0)?;
        }
        wantb("infinities", !Scalar::is_finite(S::INFINITY) && !Scalar::is_finite(S::NEG_INFINITY) && S::INFINITY > S::ZERO && S::NEG_INFINITY < S::ZERO, true)?;
        wantb("EPS", S::ONE + S::EPS > S::ONE && S::ONE + S::EPS * S::HALF == S::ONE, true)?;
        for i in 0..5000usize {
            want("from_usize", f(<S as Scalar>::from_usize(i)), i as f64, 0.0)?;
        }
        wantb("OrderedFloats with NaN", OrderedFloats::new(S::ZERO / S::ZERO).cmp(&OrderedFloats::new(S::ONE)) == std::cmp::Ordering::Equal, true)?;
        Ok(())
    });
}
fn m03_index<I: IndexType>(ctx: &Ctx, ty: &'static str, max: usize) {
    let mut v: Vec<usize> = (0..70000).collect();
    v.extend([max, max - 1, max.wrapping_add(1), max.wrapping_add(2), u32::MAX as usize - 1, u32::MAX as usize, u32::MAX as usize + 1, 1 << 40]);
    step(ctx, || format!("index type {}", ty), || {
        wantb("max", <I as IndexType>::max().index() == max, true)?;
        for x in v {
            match guarded(|| I::new(x).index()) {
                Ok(y) => {
                    if x > max || y != x {
                        return Err(format!("{}::new({}) is {} instead of a panic", ty, x, y));
                    }
                }
                Err(e) => {
                    if x <= max {
                        return Err(format!("{}::new({}) panics: {}", ty, x, e));
                    }
                }
            }
        }
        Ok(())
    });
}
pub fn m03(ctx: &Ctx) {
    ctx.bound("vectors", "all pairs of vectors with coordinates -2..2 (2d: -5..5, 4d: -1..1), three scales, f32 and f64");
    ctx.bound("sums", format!("all sequences of up to {} terms of 5 magnitudes around the precision", ctx.b(7, 9)));
    m03_vectors::<f64, 2>(ctx, "f64 2d", 5);
    m03_vectors::<f32, 2>(ctx, "f32 2d", 5);
    m03_vectors::<f64, 3>(ctx, "f64 3d", 2);
    m03_vectors::<f32, 3>(ctx, "f32 3d", 2);
    m03_vectors::<f64, 4>(ctx, "f64 4d", ctx.b(1, 2));
    m03_vectors::<f32, 4>(ctx, "f32 4d", 1);
    m03_2d_3d::<f64>(ctx, "f64");
    m03_2d_3d::<f32>(ctx, "f32");
    m03_scalar::<f64>(ctx, "f64", 52);
    m03_scalar::<f32>(ctx, "f32", 23);
    m03_index::<usize>(ctx, "usize", usize::MAX);
    m03_index::<u32>(ctx, "u32", u32::MAX as usize);
    m03_index::<u16>(ctx, "u16", u16::MAX as usize);
    m03_index::<u8>(ctx, "u8", u8::MAX as usize);
    ctx.sample(|| "vectors f64 3d [1,0,-2] [0,2,1]: dot, cross, length, distance, angle, normalize, lerp".into());
}

// ---------------------------------------------------------------------------------------------- M02
/// an affine map in plain f64, column-major independent of nalgebra
#[derive(Clone, Debug)]
struct Aff {
    m: Vec<Vec<f64>>,
    t: Vec<f64>,
}
impl Aff {
    fn id(d: usize) -> Aff {
        Aff { m: (0..d).map(|i| (0..d).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect(), t: vec![0.0; d] }
    }
    fn vec(&self, x: &[f64]) -> Vec<f64> {
        self.m.iter().map(|r| r.iter().zip(x).map(|(a, b)| a * b).sum()).collect()
    }
    fn apply(&self, x: &[f64]) -> Vec<f64> {
        self.vec(x).iter().zip(&self.t).map(|(a, b)| a + b).collect()
    }
    /// first self, then o
    fn then(&self, o: &Aff) -> Aff {
        let d = self.t.len();
        Aff {
            m: (0..d).map(|i| (0..d).map(|j| (0..d).map(|k| o.m[i][k] * self.m[k][j]).sum()).collect()).collect(),
            t: o.apply(&self.t),
        }
    }
}
#[derive(Clone, Debug)]
enum Gen {
    Translate(Vec<f64>),
    Scale(Vec<f64>),
    /// quarter turns from axis i towards axis j
    Turn(usize, usize, i32),
    /// rotation by the angle with cosine 3/5 and sine 4/5 from axis i towards axis j
    Pyth(usize, usize),
}
impl Gen {
    fn aff(&self, d: usize) -> Aff {
        let mut a = Aff::id(d);
        match self {
            Gen::Translate(t) => a.t = t.clone(),
            Gen::Scale(s) => (0..d).for_each(|i| a.m[i][i] = s[i]),
            Gen::Turn(i, j, q) => {
                let (c, s) = [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)][(*q & 3) as usize];
                a.m[*i][*i] = c;
                a.m[*j][*j] = c;
                a.m[*j][*i] = s;
                a.m[*i][*j] = -s;
            }
            Gen::Pyth(i, j) => {
                a.m[*i][*i] = 0.6;
                a.m[*j][*j] = 0.6;
                a.m[*j][*i] = 0.8;
                a.m[*i][*j] = -0.8;
            }
        }
        a
    }
    fn angle(&self) -> Option<(usize, usize, f64)> {
        match self {
            Gen::Turn(i, j, q) => Some((*i, *j, *q as f64 * std::f64::consts::FRAC_PI_2)),
            Gen::Pyth(i, j) => Some((*i, *j, (0.8f64).atan2(0.6))),
            _ => None,
        }
    }
}
fn dv<S: ScalarPlus, const D: usize>(x: &[f64]) -> VecN<S, D> {
    let mut a = [S::ZERO; D];
    for i in 0..D {
        a[i] = sc(x[i]);
    }
    VecN::<S, D>::from(a)
}
/// the rotation as the library builds it from an angle (2d) or an axis and an angle (3d), else from a matrix
fn rot<S: ScalarPlus, const D: usize>(g: &Gen) -> NdRotate<S, D> {
    let (i, j, a) = g.angle().unwrap();
    let mat = || {
        let x = g.aff(D);
        NdRotate::<S, D>::new(nalgebra::SMatrix::<S, D, D>::from_fn(|r, c| sc(x.m[r][c])))
    };
    if D == 2 {
        NdRotate::from_angle(sc(if (i, j) == (0, 1) { a } else { -a }))
    } else if D == 3 && (i + 1) % 3 == j {
        let mut ax = [S::ZERO; 3];
        ax[3 - i - j] = S::ONE;
        NdRotate::from_axis_angle(nalgebra::Unit::new_normalize(Vec3::<S>::from(ax)), sc(a))
    } else {
        mat()
    }
}
fn trans<S: ScalarPlus, const D: usize>(g: &Gen) -> NdAffine<S, D> {
    match g {
        Gen::Translate(t) => NdAffine::from_translation(dv(t)),
        Gen::Scale(s) => NdAffine::from_scale(dv(s)),
        _ => NdAffine::from_rotation(rot(g)),
    }
}
fn wantv<S: ScalarPlus, const D: usize>(what: &str, got: &VecN<S, D>, exp: &[f64], tol: f64) -> Result<(), String> {
    let mag = exp.iter().fold(1.0f64, |a, b| a.max(b.abs()));
    for i in 0..D {
        if !((f(got[i]) - exp[i]).abs() <= tol * mag) {
            return Err(format!("{} is {:?} instead of {:?}", what, got, exp));
        }
    }
    Ok(())
}
fn gens(d: usize) -> Vec<Gen> {
    let e = |i: usize, v: f64| (0..d).map(|j| if i == j { v } else { 0.0 }).collect::<Vec<f64>>();
    let mut r = vec![
        Gen::Translate((0..d).map(|i| [1.0, -2.0, 3.0, 0.5][i]).collect()),
        Gen::Translate(e(d - 1, 4.0)),
        Gen::Scale((0..d).map(|i| [2.0, 3.0, -1.0, 0.5][i]).collect()),
        Gen::Scale(vec![-1.0; d]),
        Gen::Scale((0..d).map(|i| [0.5, 1.0, 4.0, -2.0][i]).collect()),
    ];
    for i in 0..d {
        for j in 0..d {
            if i < j || (i + 1) % d == j && d == 3 {
                r.push(Gen::Turn(i, j, 1));
                if j == (i + 1) % d {
                    r.push(Gen::Turn(i, j, 2));
                    r.push(Gen::Turn(i, j, -1));
                    r.push(Gen::Pyth(i, j));
                }
            }
        }
    }
    r
}
fn m02_chains<S: ScalarPlus, const D: usize>(ctx: &Ctx, ty: &str, len: usize) {
    let g = gens(D);
    let pts: Vec<Vec<f64>> = (0..3u64.pow(D as u32)).map(|i| digits(i, 3, D).iter().map(|x| [-1.0, 0.0, 2.0][*x as usize]).collect()).collect();
    let n = g.len() as u64;
    let tol0 = f(S::EPS) * 64.0;
    for l in 0..=len {
        // a scaling by 4 per step bounds the intermediate values
        let tol = tol0 * 4f64.powi(l as i32);
        ctx.par(n.pow(l as u32), 50, |i| {
            let w: Vec<&Gen> = digits(i, n, l).iter().map(|k| &g[*k as usize]).collect();
            ctx.states.fetch_add(1, SeqCst);
            step(ctx, || format!("transform {} {:?}", ty, w).replace(' ', ""), || {
                let mut e = Aff::id(D);
                let mut t = <NdAffine<S, D> as TransformTrait<S, D>>::identity();
                let mut with = t;
                let mut payloads: Vec<VertexPayloadPNU<S, D>> = pts
                    .iter()
                    .map(|p| {
                        let mut x = VertexPayloadPNU::from_pos(dv(p));
                        x.set_normal(dv(&p.iter().rev().cloned().collect::<Vec<f64>>()));
                        x.set_uv(<Vec2<S> as Vector2D>::new(sc(0.25), sc(0.75)));
                        x
                    })
                    .collect();
                let mut vecs: Vec<VecN<S, D>> = pts.iter().map(|p| dv(p)).collect();
                let mut all = vecs.clone();
                for x in &w {
                    let y = trans::<S, D>(x);
                    t = t.chain(&y);
                    e = e.then(&x.aff(D));
                    with = match x {
                        Gen::Translate(v) => with.with_translation(dv(v)),
                        Gen::Scale(v) => with.with_scale(dv(v)),
                        _ => with.chain(&y),
                    };
                    for q in &mut payloads {
                        let before = *q;
                        let copy = match x {
                            Gen::Translate(v) => q.translated(&dv(v)),
                            Gen::Scale(v) => q.scaled(&dv(v)),
                            _ => q.rotated(&rot(x)),
                        };
                        wantb("the source of a transformed copy is untouched", *q == before, true)?;
                        match x {
                            Gen::Translate(v) => q.translate(&dv(v)),
                            Gen::Scale(v) => q.scale(&dv(v)),
                            _ => q.rotate(&rot(x)),
                        };
                        wantb("transforming in place and copying agree", *q == copy, true)?;
                    }
                    for q in &mut vecs {
                        let copy = match x {
                            Gen::Translate(v) => q.translated(&dv(v)),
                            Gen::Scale(v) => q.scaled(&dv(v)),
                            _ => q.rotated(&rot(x)),
                        };
                        match x {
                            Gen::Translate(v) => q.translate(&dv(v)),
                            Gen::Scale(v) => q.scale(&dv(v)),
                            _ => q.rotate(&rot(x)),
                        };
                        wantb("transforming a vector in place and copying agree", *q == copy, true)?;
                    }
                    for q in &mut all {
                        let c = q.transformed(&y);
                        q.transform(&y);
                        wantb("transform and transformed agree", *q == c, true)?;
                    }
                }
                let zero = <VecN<S, D> as HasZero>::zero();
                for (k, p) in pts.iter().enumerate() {
                    let exp = e.apply(p);
                    let lin = e.vec(p);
                    wantv("chain().apply", &t.apply(dv(p)), &exp, tol)?;
                    wantv("chain().apply_vec", &t.apply_vec(dv(p)), &lin, tol)?;
                    wantv("with_*().apply", &with.apply(dv(p)), &exp, tol)?;
                    wantv("with_*().apply_vec", &with.apply_vec(dv(p)), &lin, tol)?;
                    wantv("the transformed payload", payloads[k].pos(), &exp, tol)?;
                    let nrm: Vec<f64> = p.iter().rev().cloned().collect();
                    wantv("the transformed normal", payloads[k].normal(), &e.vec(&nrm), tol)?;
                    wantb("uv", *payloads[k].uv() == <Vec2<S> as Vector2D>::new(sc(0.25), sc(0.75)), true)?;
                    wantv("the transformed vector", &vecs[k], &exp, tol)?;
                    wantv("the vector after transform()", &all[k], &exp, tol)?;
                    let _ = zero;
                }
                wantb("is_about itself", t.is_about(&with, sc(tol * 1e4)), true)?;
                if !w.is_empty() {
                    let shifted = t.with_translation(dv(&vec![1.0; D]));
                    wantb("is_about a shifted transform", t.is_about(&shifted, sc(0.5)), false)?;
                    // differing in one component only
                    for d in 0..D {
                        let mut v = vec![0.0; D];
                        v[d] = 1.0;
                        wantb("is_about a transform shifted along one axis", t.is_about(&t.with_translation(dv(&v)), sc(0.5)), false)?;
                        let mut v = vec![1.0; D];
                        v[d] = 2.0;
                        let lo = t.apply_vec(dv(&(0..D).map(|k| (k == d) as u8 as f64).collect::<Vec<_>>()));
                        let first = <NdAffine<S, D> as TransformTrait<S, D>>::from_scale(dv(&v)).chain(&t);
                        let big = (0..D).map(|k| f(lo[k]).abs()).fold(0.0, f64::max);
                        wantb("is_about a transform scaled along one axis", t.is_about(&first, sc(0.5 * big)), false)?;
                    }
                }
                Ok(())
            });
        });
    }
    step(ctx, || format!("identity {}", ty), || {
        let i = <NdAffine<S, D> as TransformTrait<S, D>>::identity();
        wantb("default is the identity", NdAffine::<S, D>::default().is_about(&i, S::EPS), true)?;
        for p in &pts {
            wantb("identity", i.apply(dv(p)) == dv::<S, D>(p) && i.apply_vec(dv(p)) == dv::<S, D>(p), true)?;
        }
        Ok(())
    });
    let tol = tol0;
    // interpolation of payloads
    let m = pts.len() as u64;
    ctx.par(m * m, 50, |i| {
        let (a, b) = (&pts[(i % m) as usize], &pts[(i / m) as usize]);
        step(ctx, || format!("lerp {} {:?} {:?}", ty, a, b).replace(' ', ""), || {
            let mut x = VertexPayloadPNU::<S, D>::from_pos(dv(a));
            x.set_normal(dv(b));
            x.set_uv(<Vec2<S> as Vector2D>::new(sc(1.0), sc(2.0)));
            let mut y = VertexPayloadPNU::<S, D>::from_pos(dv(b));
            y.set_normal(dv(a));
            y.set_uv(<Vec2<S> as Vector2D>::new(sc(-1.0), sc(4.0)));
            for t in [0.0, 0.25, 1.0, -1.0] {
                let before = x;
                let l = x.lerped(&y, sc(t));
                wantb("the source", x == before, true)?;
                let mut z = x;
                z.lerp(&y, sc(t));
                wantb("lerp and lerped", z == l, true)?;
                let mix = |p: &[f64], q: &[f64]| p.iter().zip(q).map(|(u, v)| u + (v - u) * t).collect::<Vec<f64>>();
                wantv("position", l.pos(), &mix(a, b), tol)?;
                wantv("normal", l.normal(), &mix(b, a), tol)?;
                wantv("uv", l.uv(), &mix(&[1.0, 2.0], &[-1.0, 4.0]), tol)?;
            }
            Ok(())
        });
    });
}
fn m02_arcs<S: ScalarPlus, const D: usize>(ctx: &Ctx, ty: &str, w: i64) {
    let b = (2 * w + 1) as u64;
    let n = b.pow(D as u32);
    let eps = f(S::EPS);
    ctx.par(n * n, 500, |i| {
        let x: Vec<i64> = digits(i % n, b, D).iter().map(|q| q - w).collect();
        let y: Vec<i64> = digits(i / n, b, D).iter().map(|q| q - w).collect();
        if x.iter().all(|q| *q == 0) || y.iter().all(|q| *q == 0) {
            return;
        }
        ctx.states.fetch_add(1, SeqCst);
        step(ctx, || format!("arc {} {:?} {:?}", ty, x, y).replace(' ', ""), || {
            let (lx, ly) = ((x.iter().map(|q| q * q).sum::<i64>() as f64).sqrt(), (y.iter().map(|q| q * q).sum::<i64>() as f64).sqrt());
            for (kx, ky) in [(1.0, 1.0), (0.0078125, 64.0)] {
                let t = <NdAffine<S, D> as TransformTrait<S, D>>::from_rotation_arc(vn::<S, D>(&x, kx), vn::<S, D>(&y, ky));
                let u = NdAffine::<S, D>::from_rotation(NdRotate::from_rotation_arc(vn::<S, D>(&x, kx), vn::<S, D>(&y, ky)));
                let tol = 64.0 * eps.sqrt() * if eps < 1e-10 { 1e-2 } else { 1.0 };
                for t in [t, u] {
                    let got = t.apply(vn::<S, D>(&x, 1.0));
                    let exp: Vec<f64> = y.iter().map(|q| *q as f64 / ly * lx).collect();
                    wantv("the rotated start direction", &got, &exp, tol)?;
                    // a proper rotation: orthonormal with determinant 1
                    let col: Vec<Vec<f64>> = (0..D)
                        .map(|c| {
                            let mut e = vec![0i64; D];
                            e[c] = 1;
                            let q = t.apply_vec(vn::<S, D>(&e, 1.0));
                            (0..D).map(|r| f(q[r])).collect()
                        })
                        .collect();
                    for a in 0..D {
                        for b in 0..D {
                            let d: f64 = (0..D).map(|k| col[a][k] * col[b][k]).sum();
                            want("orthonormality", d, if a == b { 1.0 } else { 0.0 }, tol)?;
                        }
                    }
                    let det = if D == 2 {
                        col[0][0] * col[1][1] - col[0][1] * col[1][0]
                    } else {
                        col[0][0] * (col[1][1] * col[2][2] - col[1][2] * col[2][1]) - col[0][1] * (col[1][0] * col[2][2] - col[1][2] * col[2][0])
                            + col[0][2] * (col[1][0] * col[2][1] - col[1][1] * col[2][0])
                    };
                    want("determinant", det, 1.0, tol)?;
                    wantv("the rotated origin", &t.apply(<VecN<S, D> as HasZero>::zero()), &vec![0.0; D], 0.0)?;
                    // the arc is the shortest: nothing orthogonal to both moves (3d)
                    if D == 3 {
                        let c = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]];
                        if c != [0, 0, 0] {
                            let cf: Vec<f64> = c.iter().map(|q| *q as f64).collect();
                            wantv("the rotated axis", &t.apply(dv::<S, D>(&cf)), &cf, tol)?;
                        }
                    }
                }
            }
            Ok(())
        });
    });
}
/// the connectivity, ids included
pub fn conn<T: HalfEdgeImplMeshType>(m: &HalfEdgeMeshImpl<T>) -> crate::topo::Raw {
    crate::topo::snap_with::<T>(m, |_| 0, |_| 0, |_| 0).expect("readable mesh")
}
fn pn(v: &[f64]) -> Vec3<f64> {
    Vec3::new(v[0], v[1], v[2])
}
/// meshes that are transformed as a whole: connectivity, ids and payloads must survive
fn m02_meshes(ctx: &Ctx) {
    let mut meshes: Vec<(&str, Mesh3d64)> = vec![];
    meshes.push(("cube", Mesh3d64::cube(1.0)));
    meshes.push(("pentagon", Mesh3d64::regular_polygon(1.0, 5)));
    let mut m = Mesh3d64::cube(2.0);
    let fs: Vec<usize> = m.face_ids().collect();
    MeshBuilder::<MeshType3d64PNU>::remove_face(&mut m, fs[1]);
    MeshBuilder::<MeshType3d64PNU>::remove_face(&mut m, fs[3]);
    MeshBuilder::<MeshType3d64PNU>::add_vertex(&mut m, VertexPayloadPNU::from_pos(Vec3::new(7.0, 8.0, 9.0)));
    meshes.push(("open cube with an isolated vertex", m));
    meshes.push(("empty", Mesh3d64::new()));
    for (_, m) in &mut meshes {
        let mut k = 1.0;
        for v in m.vertices_mut() {
            v.payload_mut().set_normal(Vec3::new(k, -1.0, 0.5 * k));
            k += 1.0;
        }
    }
    let g = gens(3);
    let n = g.len() as u64;
    for (name, m) in &meshes {
        for l in 0..=2 {
            ctx.par(n.pow(l), 4, |i| {
                let w: Vec<&Gen> = digits(i, n, l as usize).iter().map(|k| &g[*k as usize]).collect();
                ctx.states.fetch_add(1, SeqCst);
                step(ctx, || format!("mesh {} {:?}", name, w).replace(' ', ""), || {
                    let raw = conn::<MeshType3d64PNU>(m);
                    let mut a = m.clone();
                    let mut b = m.clone();
                    let mut e = Aff::id(3);
                    for x in &w {
                        let src = b.clone();
                        let t = trans::<f64, 3>(x);
                        e = e.then(&x.aff(3));
                        match x {
                            Gen::Translate(v) => {
                                a.translate(&pn(v));
                                b = src.translated(&pn(v));
                            }
                            Gen::Scale(v) => {
                                a.scale(&pn(v));
                                b = src.scaled(&pn(v));
                            }
                            _ => {
                                a.rotate(&rot(x));
                                b = src.rotated(&rot(x));
                            }
                        }
                        let c = src.transformed(&t);
                        for (v, u) in c.vertices().zip(b.vertices()) {
                            wantv("transformed", &v.pos(), u.pos().as_slice(), 1e-12)?;
                        }
                    }
                    for x in [&a, &b] {
                        wantb("the connectivity is unchanged", conn::<MeshType3d64PNU>(x) == raw, true)?;
                        for v in m.vertices() {
                            let u = x.vertex(v.id());
                            wantv("a position", &u.pos(), &e.apply(v.pos().as_slice()), 1e-12)?;
                            wantv("a normal", u.payload().normal(), &e.vec(v.payload().normal().as_slice()), 1e-12)?;
                        }
                    }
                    Ok(())
                });
            });
        }
    }
    // control points of curved edges move with the mesh
    let g = gens(2);
    let n = g.len() as u64;
    ctx.bound("curved meshes", format!("{} transforms each twice, control points apart, equal, in a corner, and each where the transform puts the other", n * n));
    ctx.par(n * n * 6, 4, |i| {
        let w: Vec<&Gen> = digits(i / 6, n, 2).iter().map(|k| &g[*k as usize]).collect();
        let kind = i % 6;
        step(ctx, || format!("curved mesh {} {:?}", kind, w).replace(' ', ""), || {
            let mut c = Mesh2d64Curved::new();
            let p = Vec2::new(1.0, 3.0);
            let t = w[0].aff(2).apply(p.as_slice());
            let t = Vec2::new(t[0], t[1]);
            let (c0, c1, c2) = match kind {
                0 => (Vec2::new(3.0, 1.0), p, Vec2::new(0.5, 1.0)),
                1 => (p, p, p),
                2 => (t, p, t),
                3 => (p, t, p),
                4 => (Vec2::new(2.0, 0.0), Vec2::new(0.0, 2.0), Vec2::new(2.0, 2.0)),
                _ => (Vec2::new(2.0, 2.0), Vec2::new(2.0, 2.0), Vec2::new(0.0, 2.0)),
            };
            PathBuilder::<MeshType2d64PNUCurved, NdAffine<f64, 2>>::start(&mut c, Vec2::new(0.0, 0.0)).line(Vec2::new(2.0, 0.0)).quad(c0, Vec2::new(2.0, 2.0)).cubic(c1, c2, Vec2::new(0.0, 2.0)).close(Default::default());
            let mut a = c.clone();
            let mut e = Aff::id(2);
            for x in &w {
                e = e.then(&x.aff(2));
                match x {
                    Gen::Translate(v) => a.translate(&dv(v)),
                    Gen::Scale(v) => a.scale(&dv(v)),
                    _ => a.rotate(&rot(x)),
                };
            }
            wantb("the connectivity is unchanged", conn::<MeshType2d64PNUCurved>(&a) == conn::<MeshType2d64PNUCurved>(&c), true)?;
            for v in c.vertices() {
                wantv("a position", &a.vertex(v.id()).pos(), &e.apply(v.pos().as_slice()), 1e-12)?;
            }
            for x in c.edges() {
                match (x.curve_type(), a.edge(x.id()).curve_type()) {
                    (CurvedEdgeType::Linear, CurvedEdgeType::Linear) => {}
                    (CurvedEdgeType::QuadraticBezier(p), CurvedEdgeType::QuadraticBezier(q)) => wantv("a control point", &q, &e.apply(p.as_slice()), 1e-12)?,
                    (CurvedEdgeType::CubicBezier(p, r), CurvedEdgeType::CubicBezier(q, s)) => {
                        wantv("a control point", &q, &e.apply(p.as_slice()), 1e-12)?;
                        wantv("a control point", &s, &e.apply(r.as_slice()), 1e-12)?;
                    }
                    (p, q) => return Err(format!("the curve {:?} became {:?}", p, q)),
                }
            }
            Ok(())
        });
    });
}
/// a payload that only is a place in space
#[derive(Clone, Copy, Debug, PartialEq, Default)]
struct Spot([f64; 3]);
impl Eq for Spot {}
impl Transformable<3> for Spot {
    type Trans = NdAffine<f64, 3>;
    type Rot = NdRotate<f64, 3>;
    type Vec = Vec3<f64>;
    type S = f64;
    fn transform(&mut self, t: &Self::Trans) -> &mut Self {
        let p = t.apply(Vec3::new(self.0[0], self.0[1], self.0[2]));
        self.0 = [p[0], p[1], p[2]];
        self
    }
    fn lerp(&mut self, o: &Self, t: f64) -> &mut Self {
        for i in 0..3 {
            self.0[i] += (o.0[i] - self.0[i]) * t;
        }
        self
    }
}
impl EdgePayload for Spot {
    fn allocate() -> Self {
        Spot::default()
    }
    fn is_empty(&self) -> bool {
        false
    }
}
impl FacePayload for Spot {
    fn allocate() -> Self {
        Spot::default()
    }
}
impl MeshPayload<Spots> for Spot {}
/// a mesh type whose edge, face and mesh payloads are places, too
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
struct Spots;
impl MeshType for Spots {
    type E = usize;
    type V = usize;
    type F = usize;
    type EP = Spot;
    type VP = VertexPayloadPNU<f64, 3>;
    type FP = Spot;
    type MP = Spot;
    type Mesh = HalfEdgeMeshImpl<Self>;
    type Face = HalfEdgeFaceImpl<Self>;
    type Edge = HalfEdgeImpl<Self>;
    type Vertex = HalfEdgeVertexImpl<Self>;
}
impl EuclideanMeshType<3> for Spots {
    type S = f64;
    type Vec = Vec3<f64>;
    type Vec2 = Vec2<f64>;
    type Trans = NdAffine<f64, 3>;
    type Rot = NdRotate<f64, 3>;
    type Poly = Polygon2d<f64>;
}
impl HalfEdgeImplMeshType for Spots {}
/// every payload of a mesh moves exactly once, whatever it belongs to
fn m02_payloads(ctx: &Ctx) {
    type M = HalfEdgeMeshImpl<Spots>;
    let at = |kind: u32, i: u32| Spot([kind as f64 * 10.0 + i as f64, 1.0 - i as f64 * 0.5, (i * i % 11) as f64 + 0.25]);
    let vert = |s: Spot| VertexPayloadPNU::from_pos(pn(&s.0));
    let mut meshes: Vec<(String, M)> = vec![("empty".into(), M::new())];
    let mut l = crate::shapes::larger(6);
    l.retain(|x| x.1.ne() <= 40);
    for (name, raw) in l {
        for gap in [false, true] {
            let mut m = crate::realize::realize_ids::<Spots>(&raw, |v| vert(at(0, v)), |e| at(1, e), |f| at(2, f));
            if gap {
                let f = m.face_ids().nth(raw.nf() / 2).unwrap();
                MeshBuilder::<Spots>::remove_face(&mut m, f);
                MeshBuilder::<Spots>::add_vertex(&mut m, vert(at(0, 77)));
            }
            *m.payload_mut() = at(3, 5);
            meshes.push((format!("{} gap {}", name, gap), m));
        }
    }
    let g = gens(3);
    let n = g.len() as u64;
    ctx.bound("payloads of meshes", format!("{} meshes with places as vertex, edge, face and mesh payload, chains of up to two of {} transforms", meshes.len(), n));
    ctx.par(meshes.len() as u64, 1, |k| {
        let (name, m) = &meshes[k as usize];
        type All = Vec<(String, [f64; 3])>;
        let all = |m: &M| -> All {
            let mut r: All = vec![("the mesh".into(), m.payload().0)];
            r.extend(m.vertices().map(|x| (format!("vertex {}", x.id()), (*x.payload().pos()).into())));
            r.extend(m.edges().map(|x| (format!("half-edge {}", x.id()), x.payload().0)));
            r.extend(m.faces().map(|x| (format!("face {}", x.id()), x.payload().0)));
            r
        };
        let before = all(m);
        for len in 1..=2 {
            for i in 0..n.pow(len) {
                let w: Vec<&Gen> = digits(i, n, len as usize).iter().map(|k| &g[*k as usize]).collect();
                step(ctx, || format!("payloads of {} {:?}", name, w).replace(' ', ""), || {
                    let (mut a, mut b, mut c) = (m.clone(), m.clone(), m.clone());
                    let mut e = Aff::id(3);
                    for x in &w {
                        e = e.then(&x.aff(3));
                        let t = trans::<f64, 3>(x);
                        a.transform(&t);
                        match x {
                            Gen::Translate(v) => {
                                b.translate(&pn(v));
                                c = c.translated(&pn(v));
                            }
                            Gen::Scale(v) => {
                                b.scale(&pn(v));
                                c = c.scaled(&pn(v));
                            }
                            _ => {
                                b.rotate(&rot(x));
                                c = c.rotated(&rot(x));
                            }
                        }
                    }
                    let d = m.transformed(&w.iter().fold(NdAffine::from_translation(Vec3::new(0.0, 0.0, 0.0)), |t: NdAffine<f64, 3>, x| t.chain(&trans::<f64, 3>(x))));
                    for (what, x) in [("transform", &a), ("by kind", &b), ("by kind, copied", &c), ("chained", &d)] {
                        wantb("the connectivity is unchanged", conn::<Spots>(x) == conn::<Spots>(m), true)?;
                        let after = all(x);
                        for ((n, p), (_, q)) in before.iter().zip(&after) {
                            let r = e.apply(p);
                            wantv::<f64, 3>(&format!("{}: the payload of {}", what, n), &dv(q), &r, 1e-12)?;
                        }
                    }
                    Ok(())
                });
            }
        }
    });
}
pub fn m02(ctx: &Ctx) {
    ctx.bound("chains", format!("all sequences of up to {} (2d), {} (3d), {} (4d) translations, scalings and rotations from 9 to 21 generators, applied to all points of a 3^d grid", ctx.b(5, 6), ctx.b(4, 5), ctx.b(2, 3)));
    m02_chains::<f64, 2>(ctx, "f64 2d", ctx.b(5, 6));
    m02_chains::<f32, 2>(ctx, "f32 2d", 3);
    m02_chains::<f64, 3>(ctx, "f64 3d", ctx.b(4, 5));
    m02_chains::<f32, 3>(ctx, "f32 3d", 2);
    m02_chains::<f64, 4>(ctx, "f64 4d", ctx.b(2, 3));
    m02_arcs::<f64, 2>(ctx, "f64 2d", 5);
    m02_arcs::<f32, 2>(ctx, "f32 2d", 5);
    m02_arcs::<f64, 3>(ctx, "f64 3d", ctx.b(2, 3));
    m02_arcs::<f32, 3>(ctx, "f32 3d", 2);
    m02_meshes(ctx);
    m02_payloads(ctx);
    ctx.sample(|| "transform f64 3d [Scale, Turn, Translate] applied to 27 points by chain, with_*, payloads, vectors".into());
}
