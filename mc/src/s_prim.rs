//! S10: primitives are valid, complete, of the requested size and outward oriented.
use crate::engine::*;
use crate::poly::*;
use crate::s_loft::Base;
use crate::s_sub::{at3, snap3, Expect};
use crate::shapes::*;
use crate::topo::*;
use procedural_modelling::{extensions::nalgebra::*, math::*, prelude::*, primitives::*};
use std::collections::BTreeMap;
use std::f64::consts::PI;
use std::sync::atomic::Ordering::SeqCst;

type VP = VertexPayloadPNU<f64, 3>;
type P3 = [f64; 3];

fn sub(a: P3, b: P3) -> P3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn dot(a: P3, b: P3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: P3, b: P3) -> P3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn len(a: P3) -> f64 {
    dot(a, a).sqrt()
}
fn vp(p: P3) -> VP {
    VP::from_pos(V3::new(p[0], p[1], p[2]))
}
fn eq(what: &str, got: f64, exp: f64, tol: f64) -> Result<(), String> {
    if (got - exp).abs() <= tol {
        Ok(())
    } else {
        Err(format!("{} is {} instead of {}", what, got, exp))
    }
}
/// a closed solid that came out of a constructor
struct Solid {
    raw: Raw,
    pos: BTreeMap<u32, P3>,
    /// length of the largest position, for tolerances
    size: f64,
}
#[derive(Clone, Copy, PartialEq)]
enum Shape {
    /// every face in a plane with the whole solid on its inner side
    Convex,
    /// every face seen from the origin is turned outward
    Star,
}
impl Solid {
    fn new(m: &Mesh3d64) -> Result<Self, String> {
        let raw = snap3(m)?;
        raw.validate()?;
        m.check()?;
        let pos: BTreeMap<u32, P3> = raw.vids().iter().map(|v| (*v, at3(m)(*v))).collect();
        if let Some((v, p)) = pos.iter().find(|(_, p)| p.iter().any(|c| !c.is_finite())) {
            return Err(format!("vertex {} is at {:?}", v, p));
        }
        if raw.fids().iter().any(|f| raw.ff(*f).curved) {
            return Err("a flat face is marked as curved".into());
        }
        let size = pos.values().map(|p| len(*p)).fold(0.0, f64::max);
        Ok(Solid { raw, pos, size })
    }
    fn face(&self, f: u32) -> Vec<P3> {
        self.raw.lp(self.raw.ff(f).edge).iter().map(|e| self.pos[&self.raw.origin(*e)]).collect()
    }
    /// counts, sizes of faces, closed and connected, orientation and positive volume
    fn solid(&self, nv: usize, sizes: &[(usize, usize)], shape: Shape) -> Result<(), String> {
        let r = &self.raw;
        let mut h: BTreeMap<usize, usize> = BTreeMap::new();
        for f in r.fids() {
            *h.entry(r.lp(r.ff(f).edge).len()).or_insert(0) += 1;
        }
        let mut e: BTreeMap<usize, usize> = BTreeMap::new();
        for (s, n) in sizes {
            if *n > 0 {
                *e.entry(*s).or_insert(0) += n;
            }
        }
        if r.nv() != nv || h != e {
            return Err(format!("{} vertices and faces {:?} (corners: number) instead of {} and {:?}", r.nv(), h, nv, e));
        }
        if r.eids().iter().any(|e| r.face(*e) == NONE) {
            return Err("the solid is not closed".into());
        }
        let ne: usize = e.iter().map(|(s, n)| s * n).sum();
        if r.ne() != ne || nv as i64 - ne as i64 / 2 + r.nf() as i64 != 2 {
            return Err(format!("{} half-edges instead of {}", r.ne(), ne));
        }
        let mut comp: Vec<u32> = r.components().values().copied().collect();
        comp.dedup();
        if comp.len() != 1 || r.vids().iter().any(|v| r.vv(*v).edge == NONE) {
            return Err("the solid is not in one piece".into());
        }
        let mut vol = 0.0;
        for f in r.fids() {
            let p = self.face(f);
            let n = p.len();
            let mut nn = [0.0; 3];
            for i in 1..n - 1 {
                let c = cross(sub(p[i], p[0]), sub(p[i + 1], p[0]));
                for k in 0..3 {
                    nn[k] += c[k];
                }
                vol += dot(p[0], cross(p[i], p[i + 1]));
            }
            let l = len(nn);
            let ext = p.iter().map(|q| len(sub(*q, p[0]))).fold(0.0, f64::max);
            if l <= 1e-9 * ext * ext {
                return Err(format!("face {} {:?} has no area", f, p));
            }
            let u = nn.map(|c| c / l);
            let tol = 1e-9 * self.size;
            match shape {
                Shape::Convex => {
                    let mut inner = false;
                    for (v, q) in &self.pos {
                        let d = dot(u, sub(*q, p[0]));
                        inner |= d < -tol;
                        if d > tol {
                            return Err(format!("vertex {} is {} outside of face {} {:?}", v, d, f, p));
                        }
                    }
                    if !inner {
                        return Err("the solid is flat".into());
                    }
                    for q in &p {
                        if dot(u, sub(*q, p[0])).abs() > tol {
                            return Err(format!("face {} {:?} is not planar", f, p));
                        }
                    }
                }
                Shape::Star => {
                    if dot(u, p[0]) <= tol {
                        return Err(format!("face {} {:?} is turned inward", f, p));
                    }
                }
            }
        }
        if vol <= 0.0 {
            return Err(format!("the signed volume is {}", vol / 6.0));
        }
        Ok(())
    }
    fn volume(&self) -> f64 {
        let mut vol = 0.0;
        for f in self.raw.fids() {
            let p = self.face(f);
            for i in 1..p.len() - 1 {
                vol += dot(p[0], cross(p[i], p[i + 1]));
            }
        }
        vol / 6.0
    }
    fn tol(&self) -> f64 {
        1e-11 * self.size
    }
    fn radius(&self, r: f64) -> Result<(), String> {
        for (v, p) in &self.pos {
            eq(&format!("the distance of vertex {} from the origin", v), len(*p), r, self.tol())?;
        }
        Ok(())
    }
    fn edges(&self, l: f64) -> Result<(), String> {
        for e in self.raw.eids() {
            eq(&format!("the length of edge {}", e), len(sub(self.pos[&self.raw.origin(e)], self.pos[&self.raw.target(e)])), l, self.tol())?;
        }
        Ok(())
    }
    fn centred(&self) -> Result<(), String> {
        for k in 0..3 {
            eq("the centroid", self.pos.values().map(|p| p[k]).sum::<f64>() / self.pos.len() as f64, 0.0, self.tol())?;
        }
        Ok(())
    }
    /// the corners at height y: `n` on a circle of radius r around the y axis, evenly spaced
    fn ring(&self, y: f64, r: f64, n: usize) -> Result<(), String> {
        let ps: Vec<P3> = self.pos.values().copied().filter(|p| (p[1] - y).abs() <= self.tol() && (p[0].hypot(p[2]) - r).abs() <= self.tol()).collect();
        if ps.len() != n {
            return Err(format!("{} corners at height {} and distance {} from the axis instead of {}", ps.len(), y, r, n));
        }
        let mut a: Vec<f64> = ps.iter().map(|p| p[2].atan2(p[0])).collect();
        a.sort_by(f64::total_cmp);
        for i in 0..n {
            let d = if i + 1 < n { a[i + 1] - a[i] } else { a[0] + 2.0 * PI - a[n - 1] };
            eq("the angle between neighbouring corners", d, 2.0 * PI / n as f64, 1e-9)?;
        }
        Ok(())
    }
}
fn run(ctx: &Ctx, name: String, mk: &dyn Fn() -> Mesh3d64, f: &dyn Fn(&Solid) -> Result<(), String>) {
    ctx.states.fetch_add(1, SeqCst);
    ctx.transitions.fetch_add(1, SeqCst);
    ctx.sample(|| name.clone());
    ctx.case(
        || name.clone(),
        || {
            let m = mk();
            f(&Solid::new(&m)?)?;
            ctx.traces.fetch_add(1, SeqCst);
            Ok(())
        },
    );
}
fn side(r: f64, n: usize) -> f64 {
    2.0 * r * (PI / n as f64).sin()
}
fn round(ctx: &Ctx, r: f64, h: f64, n: usize) {
    let k = |s: &str| format!("{}({}, {}, {})", s, r, h, n);
    use Shape::*;
    run(ctx, k("regular_prism"), &|| Mesh3d64::regular_prism(r, h, n), &|s| {
        s.solid(2 * n, &[(4, n), (n, 2)], Convex)?;
        s.ring(0.0, r, n)?;
        s.ring(h, r, n)
    });
    run(ctx, k("regular_antiprism"), &|| Mesh3d64::regular_antiprism(r, h, n), &|s| {
        s.solid(2 * n, &[(3, 2 * n), (n, 2)], Convex)?;
        s.ring(0.0, r, n)?;
        s.ring(h, r, n)?;
        let mut l: Vec<f64> = s.raw.eids().iter().map(|e| len(sub(s.pos[&s.raw.origin(*e)], s.pos[&s.raw.target(*e)]))).collect();
        l.sort_by(f64::total_cmp);
        // the 2n slanted edges are equally long
        let d = (side(r, 2 * n).powi(2) + h * h).sqrt();
        if l.iter().filter(|x| (**x - d).abs() <= s.tol()).count() < 4 * n {
            return Err(format!("the slanted edges are not all {} long: {:?}", d, l));
        }
        Ok(())
    });
    for (what, m) in [("regular_pyramid", (&|| Mesh3d64::regular_pyramid(r, h, n)) as &dyn Fn() -> Mesh3d64), ("cone", &|| Mesh3d64::cone(r, h, n))] {
        run(ctx, k(what), m, &|s| {
            s.solid(n + 1, &[(3, n), (n, 1)], Convex)?;
            s.ring(0.0, r, n)?;
            s.ring(h, 0.0, 1).or_else(|_| if s.pos.values().any(|p| len(sub(*p, [0.0, h, 0.0])) <= s.tol()) { Ok(()) } else { Err("no apex".to_string()) })
        });
    }
    run(ctx, k("cylinder"), &|| Mesh3d64::cylinder(r, h, n), &|s| {
        s.solid(2 * n, &[(4, n), (n, 2)], Convex)?;
        s.ring(0.0, r, n)?;
        s.ring(h, r, n)
    });
    for q in [0.25, 1.0, 1.5, 4.0] {
        run(ctx, format!("regular_frustum({}, {}, {}, {})", r, r * q, h, n), &|| Mesh3d64::regular_frustum(r, r * q, h, n, false), &|s| {
            s.solid(2 * n, &[(4, n), (n, 2)], Convex)?;
            s.ring(0.0, r, n)?;
            s.ring(h, r * q, n)
        });
    }
}
fn uniform(ctx: &Ctx, r: f64, n: usize) {
    use Shape::*;
    run(ctx, format!("uniform_prism({}, {})", r, n), &|| Mesh3d64::uniform_prism(r, n), &|s| {
        s.solid(2 * n, &[(4, n), (n, 2)], Convex)?;
        s.edges(side(r, n))?;
        s.ring(0.0, r, n)
    });
    run(ctx, format!("uniform_antiprism({}, {})", r, n), &|| Mesh3d64::uniform_antiprism(r, n), &|s| {
        s.solid(2 * n, &[(3, 2 * n), (n, 2)], Convex)?;
        s.ring(0.0, r, n)?;
        s.edges(side(r, n))
    });
    ctx.case(
        || format!("sidelength and area {} {}", r, n),
        || {
            eq("the side length", regular_polygon_sidelength(r, n), side(r, n), 1e-12 * r)?;
            eq("the area", regular_polygon_area(r, n), 0.5 * n as f64 * r * r * (2.0 * PI / n as f64).sin(), 1e-12 * n as f64 * r * r)
        },
    );
}
fn platonic(ctx: &Ctx, r: f64) {
    use Shape::*;
    run(ctx, format!("regular_tetrahedron({})", r), &|| Mesh3d64::regular_tetrahedron(r), &|s| {
        s.solid(4, &[(3, 4)], Convex)?;
        s.centred()?;
        s.edges(r)?;
        eq("the volume", s.volume(), r.powi(3) / (6.0 * 2f64.sqrt()), 1e-9 * r.powi(3))
    });
    for (what, m) in [("cube", (&|| Mesh3d64::cube(r)) as &dyn Fn() -> Mesh3d64), ("regular_hexahedron", &|| Mesh3d64::regular_hexahedron(r))] {
        run(ctx, format!("{}({})", what, r), m, &|s| {
            s.solid(8, &[(4, 6)], Convex)?;
            s.centred()?;
            s.edges(r)?;
            eq("the volume", s.volume(), r.powi(3), 1e-9 * r.powi(3))
        });
    }
    run(ctx, format!("regular_octahedron({})", r), &|| Mesh3d64::regular_octahedron(r), &|s| {
        s.solid(6, &[(3, 8)], Convex)?;
        s.centred()?;
        s.radius(r)?;
        s.edges(r * 2f64.sqrt())
    });
    run(ctx, format!("dodecahedron({})", r), &|| Mesh3d64::dodecahedron(r), &|s| {
        s.solid(20, &[(5, 12)], Convex)?;
        s.centred()?;
        s.radius(r)?;
        s.edges(r * 4.0 / (3f64.sqrt() * (1.0 + 5f64.sqrt())))
    });
    run(ctx, format!("regular_icosahedron({})", r), &|| Mesh3d64::regular_icosahedron(r), &|s| {
        s.solid(12, &[(3, 20)], Convex)?;
        s.centred()?;
        s.radius(r * (2.0 * PI / 5.0).sin())?;
        s.edges(r)
    });
    ctx.case(
        || format!("icosahedron radius and edge {}", r),
        || {
            eq("icosahedron_a2r", icosahedron_a2r(r), r * (2.0 * PI / 5.0).sin(), 1e-12 * r)?;
            eq("icosahedron_r2a", icosahedron_r2a(r), r / (2.0 * PI / 5.0).sin(), 1e-12 * r)
        },
    );
    for n in [1, 2, 4, 8] {
        if n == 8 && !ctx.thorough && r != 1.0 {
            continue;
        }
        for (what, v, f, m) in [
            ("geodesic_icosahedron", 12, 20, (&|| Mesh3d64::geodesic_icosahedron(r, n)) as &dyn Fn() -> Mesh3d64),
            ("icosphere", 12, 20, &|| Mesh3d64::icosphere(r, n)),
            ("geodesic_octahedron", 6, 8, &|| Mesh3d64::geodesic_octahedron(r, n)),
            ("geodesic_tetrahedron", 4, 4, &|| Mesh3d64::geodesic_tetrahedron(r, n)),
        ] {
            run(ctx, format!("{}({}, {})", what, r, n), m, &|s| {
                // Euler: V = 2 + F / 2
                let _ = v;
                s.solid(2 + f * n * n / 2, &[(3, f * n * n)], Star)?;
                s.radius(r)
            });
        }
    }
}
fn uv(ctx: &Ctx, r: f64, n: usize, m: usize) {
    run(ctx, format!("uv_sphere({}, {}, {})", r, n, m), &|| Mesh3d64::uv_sphere(r, n, m), &|s| {
        s.solid(2 + (n - 1) * m, &[(3, 2 * m), (4, (n - 2) * m)], Shape::Convex)?;
        s.radius(r)?;
        for i in 1..n {
            let phi = PI * i as f64 / n as f64;
            s.ring(r * phi.cos(), r * phi.sin(), m)?;
        }
        if [1.0, -1.0].iter().any(|y| !s.pos.values().any(|p| len(sub(*p, [0.0, y * r, 0.0])) <= s.tol())) {
            return Err("a pole is missing".into());
        }
        Ok(())
    });
}
fn cuboids(ctx: &Ctx) {
    let l = [0.001, 1.0, 2.5, 700.0];
    for x in l {
        for y in l {
            for z in l {
                run(ctx, format!("cuboid({}, {}, {})", x, y, z), &|| Mesh3d64::cuboid(V3::new(x, y, z)), &|s| {
                    s.solid(8, &[(4, 6)], Shape::Star)?;
                    for (v, p) in &s.pos {
                        for (a, b) in p.iter().zip([x, y, z]) {
                            eq(&format!("a coordinate of vertex {}", v), a.abs(), b / 2.0, 1e-12 * b)?;
                        }
                    }
                    eq("the volume", s.volume(), x * y * z, 1e-9 * x * y * z)
                });
            }
        }
    }
}
/// polygons and stars in any dimension
fn flat<const D: usize>(ctx: &Ctx, n: usize, r1: f64, r2: f64)
where
    MeshNd64<D>: Make2dShape<MeshTypeNd64PNU<D>>,
{
    let check = |m: &MeshNd64<D>, e: Option<usize>| -> Result<(), String> {
        let raw = snap_with::<MeshTypeNd64PNU<D>>(m, |_| 0, |_| 0, |_| 0)?;
        raw.validate()?;
        if raw.nv() != n || raw.ne() != 2 * n || raw.nf() != 1 {
            return Err(format!("{} vertices, {} half-edges, {} faces", raw.nv(), raw.ne(), raw.nf()));
        }
        let f = raw.lp(raw.ff(raw.fids()[0]).edge);
        if f.len() != n {
            return Err(format!("a face with {} corners", f.len()));
        }
        if let Some(e) = e {
            if raw.face(e as u32) != NONE {
                return Err("the returned edge is not outside".into());
            }
        }
        let p: Vec<[f64; D]> = f
            .iter()
            .map(|e| {
                let q: VecN<f64, D> = m.vertex(raw.origin(*e) as usize).pos();
                std::array::from_fn(|i| q[i])
            })
            .collect();
        let big = r1.max(r2);
        let mut k = [0, 0];
        let mut area = 0.0;
        for i in 0..n {
            let (a, b) = (p[i], p[(i + 1) % n]);
            let d = a[0].hypot(a[1]);
            if a[2..].iter().any(|c| *c != 0.0) {
                return Err(format!("corner {:?} is not in the plane", a));
            }
            if (d - r1).abs() <= 1e-12 * big {
                k[0] += 1;
            } else if (d - r2).abs() <= 1e-12 * big {
                k[1] += 1;
            } else {
                return Err(format!("corner {:?} is at distance {}", a, d));
            }
            area += a[0] * b[1] - a[1] * b[0];
            let ang = (a[0] * b[1] - a[1] * b[0]).atan2(a[0] * b[0] + a[1] * b[1]);
            eq("the angle between neighbours", ang, 2.0 * PI / n as f64, 1e-12)?;
        }
        if r1 != r2 && (k[0] != n - n / 2 || k[1] != n / 2) {
            return Err(format!("{} corners at the inner, {} at the outer radius", k[0], k[1]));
        }
        let exp = if n % 2 == 0 { n as f64 * r1 * r2 } else { (n as f64 - 1.0) * r1 * r2 + r1 * r1 } * (2.0 * PI / n as f64).sin();
        eq("twice the area", area, exp, 1e-11 * n as f64 * big * big)
    };
    ctx.states.fetch_add(1, SeqCst);
    for what in ["regular_star", "insert_regular_star", "regular_polygon"] {
        if what == "regular_polygon" && r1 != r2 {
            continue;
        }
        ctx.transitions.fetch_add(1, SeqCst);
        ctx.traces.fetch_add(1, SeqCst);
        ctx.case(
            || format!("{}({}, {}, {}) in {} dimensions", what, r1, r2, n, D),
            || match what {
                "regular_star" => check(&MeshNd64::<D>::regular_star(r1, r2, n), None),
                "regular_polygon" => check(&MeshNd64::<D>::regular_polygon(r1, n), None),
                _ => {
                    let mut m = MeshNd64::<D>::new();
                    let e = m.insert_regular_star(r1, r2, n);
                    check(&m, Some(e))
                }
            },
        );
    }
}
/// constructors taking corners: over every small polygon in several planes, into empty and filled meshes
fn given(ctx: &Ctx, bases: &[Base], polys: &[Vec<P>], planes: &[((i64, i64, i64), (i64, i64, i64))]) {
    ctx.bound("constructors from corners", format!("{} polygons in {} planes, into {} meshes, 3 heights", polys.len(), planes.len(), bases.len()));
    ctx.par(polys.len() as u64, 4, |i| {
        let p = &polys[i as usize];
        let n = p.len();
        for (k, (u, v)) in planes.iter().enumerate() {
            let b = &bases[(i as usize + k) % bases.len()];
            let nv = b.raw.nv();
            ctx.states.fetch_add(1, SeqCst);
            let c = cross3(*u, *v);
            let nn = (dot3(c, c) as f64).sqrt();
            let h = [1.0, 0.125, 40.0][(i as usize + k) % 3];
            let up: P3 = [c.0 as f64 / nn * h, c.1 as f64 / nn * h, c.2 as f64 / nn * h];
            let lo: Vec<P3> = p.iter().map(|q| [(q.0 * u.0 + q.1 * v.0 + 7000) as f64, (q.0 * u.1 + q.1 * v.1) as f64, (q.0 * u.2 + q.1 * v.2) as f64]).collect();
            let add = |a: P3, b: P3| [a[0] + b[0], a[1] + b[1], a[2] + b[2]];
            let hi: Vec<P3> = lo.iter().map(|q| add(*q, up)).collect();
            let mid: Vec<P3> = (0..n).map(|i| std::array::from_fn(|k| (hi[i][k] + hi[(i + 1) % n][k]) / 2.0)).collect();
            // an irregular second polygon
            let odd: Vec<P3> = (0..n).map(|i| add(hi[i], [i as f64 * 0.25, 0.5, (i * i) as f64])).collect();
            let apex = add(hi[0], [0.5, 0.25, 3.0]);
            let vps = |q: &[P3]| q.iter().map(|x| vp(*x)).collect::<Vec<_>>();
            let base: Vec<usize> = (0..n).rev().map(|i| nv + i).collect();
            let go = |what: &str, new: Vec<P3>, faces: Vec<Vec<usize>>, tol: f64, op: &dyn Fn(&mut Mesh3d64) -> usize, fresh: &dyn Fn() -> Mesh3d64| {
                ctx.transitions.fetch_add(1, SeqCst);
                ctx.case(
                    || format!("{} {:?} in {:?} {:?} height {} into {}", what, p, u, v, h, b.name).replace(' ', ""),
                    || {
                        let mut m = b.mesh.clone();
                        let e = op(&mut m);
                        b.check(&m, &vps(&new), faces.clone(), vec![], None, tol)?;
                        let raw = snap3(&m)?;
                        if !raw.he(e as u32) || raw.origin(e as u32) < nv as u32 || raw.target(e as u32) < nv as u32 {
                            return Err(format!("the returned edge {} is none of the new ones", e));
                        }
                        if what == "polygon" && (raw.face(e as u32) != NONE || raw.face(raw.twin(e as u32)) == NONE) {
                            return Err(format!("the returned edge {} is not on the outside of the polygon", e));
                        }
                        let m = fresh();
                        let ex = Expect { pos: new.clone(), faces: faces.iter().map(|f| f.iter().map(|v| v - nv).collect()).collect(), extra: vec![] };
                        ex.compare(&snap3(&m)?, at3(&m), tol)?;
                        ctx.traces.fetch_add(1, SeqCst);
                        Ok(())
                    },
                );
            };
            let with = |mut f: Vec<Vec<usize>>| {
                f.push(base.clone());
                f
            };
            let x = |i: usize| nv + i % n;
            let y = |i: usize| nv + n + i % n;
            let both = |q: &Vec<P3>| [lo.clone(), q.clone()].concat();
            go("polygon", lo.clone(), with(vec![]), 0.0, &|m| m.insert_polygon(vps(&lo)), &|| Mesh3d64::polygon(vps(&lo)));
            go("dihedron", lo.clone(), with(vec![(0..n).map(x).collect()]), 0.0, &|m| m.insert_dihedron(vps(&lo)), &|| Mesh3d64::dihedron(vps(&lo)));
            let mut quads: Vec<Vec<usize>> = (0..n).map(|i| vec![x(i), x(i + 1), y(i + 1), y(i)]).collect();
            quads.push((0..n).map(y).collect());
            let mut tris: Vec<Vec<usize>> = (0..n).flat_map(|i| [vec![x(i), x(i + 1), y(i)], vec![x(i + 1), y(i + 1), y(i)]]).collect();
            tris.push((0..n).map(y).collect());
            let tol = 1e-9;
            go("prism", both(&hi), with(quads.clone()), tol, &|m| m.insert_prism(vps(&lo), h), &|| Mesh3d64::prism(vps(&lo), h));
            go("antiprism", both(&mid), with(tris.clone()), tol, &|m| m.insert_antiprism(vps(&lo), h), &|| Mesh3d64::antiprism(vps(&lo), h));
            go("antiprism_iter", both(&odd), with(tris.clone()), 0.0, &|m| m.insert_antiprism_iter(vps(&lo), vps(&odd)), &|| Mesh3d64::antiprism_iter(vps(&lo), vps(&odd)));
            go("frustum", both(&odd), with(quads.clone()), 0.0, &|m| m.insert_frustum(vps(&lo), vps(&odd), false), &|| Mesh3d64::frustum(vps(&lo), vps(&odd), false));
            let mut py: Vec<Vec<usize>> = (0..n).map(|i| vec![x(i), x(i + 1), nv + n]).collect();
            py.push(base.clone());
            go("pyramid", [lo.clone(), vec![apex]].concat(), py, 0.0, &|m| m.insert_pyramid(vps(&lo), vp(apex)), &|| Mesh3d64::pyramid(vps(&lo), vp(apex)));
        }
    });
}
fn misc(ctx: &Ctx) {
    for n in (2..=ctx.b(300usize, 1500)).step_by(2) {
        ctx.states.fetch_add(1, SeqCst);
        ctx.transitions.fetch_add(1, SeqCst);
        ctx.case(
            || format!("generate_zigzag({})", n),
            || {
                let p: Vec<Vec2<f64>> = generate_zigzag::<Vec2<f64>>(n).collect();
                if p.len() != n {
                    return Err(format!("{} corners", p.len()));
                }
                if let Some(q) = p.iter().find(|q| !(q.x.is_finite() && q.y.is_finite())) {
                    return Err(format!("a corner at {:?}", q.as_slice()));
                }
                if n >= 4 {
                    // simple: exact after scaling x to integers
                    let k = (n / 2) as f64 / 2.0;
                    let q: Vec<P> = p.iter().map(|q| (((q.x + 1.0) * k * 8.0).round() as i64, (q.y * 8.0).round() as i64)).collect();
                    if !is_simple(&q) {
                        return Err(format!("the polygon is not simple: {:?}", q));
                    }
                    // one reflex corner after the other: the two chains alternate in height
                    for c in q.windows(2).filter(|c| c[0].1 == c[1].1) {
                        return Err(format!("no zigzag between {:?}", c));
                    }
                }
                Ok(())
            },
        );
    }
    for n in 3..=ctx.b(200usize, 1000) {
        for r in [0.5f32, 1.0, 1000.0] {
            ctx.states.fetch_add(1, SeqCst);
            ctx.transitions.fetch_add(1, SeqCst);
            ctx.case(
                || format!("random_star({}, {}, {}, {})", n, n, r, r),
                || {
                    let p: Vec<Vec2<f64>> = random_star::<Vec2<f64>>(n, n, r, r).collect();
                    if p.len() != n {
                        return Err(format!("{} corners", p.len()));
                    }
                    for i in 0..n {
                        let (a, b) = (p[i], p[(i + 1) % n]);
                        eq("the radius", a.norm(), r as f64, 1e-5 * r as f64)?;
                        eq("the angle between neighbours", (a.x * b.y - a.y * b.x).atan2(a.dot(&b)).abs(), 2.0 * PI / n as f64, 1e-4)?;
                    }
                    Ok(())
                },
            );
        }
    }
    ctx.assume("random_star is only run with equal bounds, where it leaves no choice");
}
pub fn s10(ctx: &Ctx) {
    let t = ctx.thorough;
    let rs: Vec<f64> = if t { vec![1.0, 0.5, 0.001, 3.7, 1000.0, 1e6, 1e-5, 77.125] } else { vec![1.0, 0.5, 0.001, 3.7, 1000.0] };
    let hs: Vec<f64> = if t { vec![1.0, 0.01, 2.5, 640.0, 1e5] } else { vec![1.0, 0.01, 2.5, 640.0] };
    let nmax = ctx.b(72, 300);
    ctx.bound("round solids", format!("radii {:?}, heights {:?} (at most a million times more or less), 3..={} sides", rs, hs, nmax));
    let many: Vec<usize> = if t { vec![400, 512, 700, 1025] } else { vec![127, 130, 200, 257, 300] };
    ctx.bound("many sides", format!("{:?} sides, radius 1 and 3.7", many));
    let mut jobs: Vec<(f64, f64, usize)> = vec![];
    for n in &many {
        for r in [1.0, 3.7] {
            jobs.push((r, -1.0, *n));
            jobs.push((r, 2.5, *n));
        }
    }
    for r in &rs {
        for n in 3..=nmax {
            jobs.push((*r, -1.0, n));
            for h in hs.iter().filter(|h| *h / r <= 1e6 && r / *h <= 1e6) {
                jobs.push((*r, *h, n));
            }
        }
    }
    ctx.par(jobs.len() as u64, 4, |i| {
        let (r, h, n) = jobs[i as usize];
        if h < 0.0 {
            uniform(ctx, r, n);
            for q in [1.0, 0.8, 0.25, 2.0] {
                if n >= 3 {
                    flat::<2>(ctx, n, r, r * q);
                    flat::<3>(ctx, n, r, r * q);
                    flat::<4>(ctx, n, r, r * q);
                }
            }
        } else {
            round(ctx, r, h, n);
        }
    });
    ctx.par(rs.len() as u64, 1, |i| platonic(ctx, rs[i as usize]));
    cuboids(ctx);
    let (un, um) = (ctx.b(20, 48), ctx.b(20, 48));
    ctx.bound("uv spheres", format!("2..={} rings, 3..={} columns, radii {:?}", un, um, rs));
    ctx.par((un as u64 - 1) * (um as u64 - 2) * rs.len() as u64, 4, |i| {
        let k = i as usize / rs.len();
        uv(ctx, rs[i as usize % rs.len()], 2 + k % (un - 1), 3 + k / (un - 1));
    });
    let tall: Vec<(usize, usize)> = vec![(3, 150), (150, 3), (70, 40), (33, 130)];
    ctx.bound("large uv spheres", format!("rings and columns {:?}", tall));
    ctx.par(tall.len() as u64, 1, |i| uv(ctx, 1.0, tall[i as usize].0, tall[i as usize].1));
    let mut polys = vec![];
    polygons(&grid(3, 3), 3, ctx.b(8, 9), false, true, &mut polys);
    let mut pl: Vec<_> = planes().into_iter().step_by(ctx.b(3, 1)).collect();
    pl.extend(skew_planes());
    let bases = vec![
        Base::new("nothing".into(), Mesh3d64::new()),
        Base::new("two triangles".into(), mesh3(&from_faces(4, &[vec![0, 1, 2], vec![2, 1, 3]]), |v| V3::new(v as f64, (v * v) as f64, 5.0))),
        Base::new(
            "a removed face".into(),
            {
                let mut m = mesh3(&from_faces(4, &[vec![0, 1, 2], vec![2, 1, 3]]), |v| V3::new(v as f64, (v * v) as f64, 5.0));
                MeshBuilder::<MeshType3d64PNU>::remove_face(&mut m, 0);
                m
            },
        ),
    ];
    given(ctx, &bases, &polys, &pl);
    misc(ctx);
}
