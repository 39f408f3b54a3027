//! T09: face normals, planarity, convexity, centres and smooth vertex normals.
use crate::engine::*;
use crate::poly::*;
use crate::shapes::*;
use crate::topo::*;
use procedural_modelling::{extensions::nalgebra::*, math::*, prelude::*};
use std::sync::atomic::Ordering::SeqCst;

type I3 = (i64, i64, i64);
fn near(what: &str, got: V3, exp: [f64; 3], tol: f64) -> Result<(), String> {
    if (0..3).all(|i| (got[i] - exp[i]).abs() <= tol) {
        Ok(())
    } else {
        Err(format!("{} is {:?} instead of {:?}", what, got.as_slice(), exp))
    }
}
fn unit(a: I3) -> [f64; 3] {
    let l = (dot3(a, a) as f64).sqrt();
    [a.0 as f64 / l, a.1 as f64 / l, a.2 as f64 / l]
}
fn place(p: P, pl: (I3, I3), o: I3) -> I3 {
    let (u, v) = pl;
    (o.0 + p.0 * u.0 + p.1 * v.0, o.1 + p.0 * u.1 + p.1 * v.1, o.2 + p.0 * u.2 + p.1 * v.2)
}
fn faces(ctx: &Ctx, fam: &str, polys: &[Vec<P>], planes: &[(I3, I3)], starts: usize) {
    let places: [(I3, f64); 6] = [((0, 0, 0), 1.0), ((1000, -500, 250), 1.0), ((3, 5, -7), 0.0009765625), ((-3, 2, 1), 512.0), ((3, 5, -7), 0.1), ((0, 0, 0), 1.0 / 3.0)];
    ctx.bound(&format!("polygons {}", fam), format!("{} polygons in {} planes at 6 places and scales", polys.len(), planes.len()));
    ctx.par(polys.len() as u64, 8, |i| {
        ctx.states.fetch_add(1, SeqCst);
        for (k, pl) in planes.iter().enumerate() {
            for s in crate::t_tri::rotations(polys[i as usize].len(), starts) {
                let (o, scale) = places[(k + s + i as usize) % 6];
                let mut p = polys[i as usize].clone();
                p.rotate_left(s);
                ctx.transitions.fetch_add(1, SeqCst);
                ctx.traces.fetch_add(1, SeqCst);
                let key = || format!("face {:?} in {:?} at {:?} scale {}", p, pl, o, scale).replace(' ', "");
                ctx.sample(key);
                ctx.case(key, || {
                    let q: Vec<I3> = p.iter().map(|x| place(*x, *pl, o)).collect();
                    let m = crate::t_tri::face_mesh(&q.iter().map(|x| i3(*x) * scale).collect::<Vec<_>>())?;
                    let f = m.face(0);
                    let nrm = unit(cross3(pl.0, pl.1));
                    if !f.is_planar2(&m) {
                        return Err("a planar face is reported not planar".into());
                    }
                    let got = Face3d::normal(f, &m);
                    near("the direction of the normal", got / got.norm(), nrm, 1e-9)?;
                    let rev = Face3d::normal(f, &m).normalize();
                    near("the normalised normal", rev, nrm, 1e-9)?;
                    if !has_straight(&p) {
                        if f.is_convex(&m) != strictly_convex(&p) {
                            return Err(format!("is_convex is {}", f.is_convex(&m)));
                        }
                        if strictly_convex(&p) {
                            let n = f.normal_naive(&m);
                            near("normal_naive", n / n.norm(), nrm, 1e-9)?;
                        }
                    }
                    let n = p.len() as f64;
                    let mean = |g: &dyn Fn(&I3) -> i64| q.iter().map(g).sum::<i64>() as f64 / n * scale;
                    let tol = 1e-12 * 4000.0 * scale;
                    near("the centroid", Face::centroid(f, &m), [mean(&|x| x.0), mean(&|x| x.1), mean(&|x| x.2)], tol)?;
                    near("the centroid of the mesh", m.centroid(), [mean(&|x| x.0), mean(&|x| x.1), mean(&|x| x.2)], tol)?;
                    for e in m.edges() {
                        let (a, b) = (q[e.origin_id()], q[e.target_id(&m)]);
                        near("the centre of an edge", e.centroid(&m), [(a.0 + b.0) as f64 * 0.5 * scale, (a.1 + b.1) as f64 * 0.5 * scale, (a.2 + b.2) as f64 * 0.5 * scale], tol)?;
                    }
                    // the same loop seen from the other side
                    let m2 = crate::t_tri::face_mesh(&q.iter().rev().map(|x| i3(*x) * scale).collect::<Vec<_>>())?;
                    let got = Face3d::normal(m2.face(0), &m2);
                    near("the normal of the reversed face", got / got.norm(), nrm.map(|x| -x), 1e-9)?;
                    if !has_straight(&p) && m2.face(0).is_convex(&m2) != strictly_convex(&p) {
                        return Err(format!("is_convex of the reversed face is {}", m2.face(0).is_convex(&m2)));
                    }
                    // each vertex moved out of the plane
                    let w = cross3(pl.0, pl.1);
                    for v in 0..q.len() {
                        let mut q = q.clone();
                        q[v] = (q[v].0 + w.0, q[v].1 + w.1, q[v].2 + w.2);
                        let planar = coplanar(&q);
                        let m = crate::t_tri::face_mesh(&q.iter().map(|x| i3(*x) * scale).collect::<Vec<_>>())?;
                        let got = m.face(0).is_planar(&m, 1e-6 * scale);
                        if got != planar {
                            return Err(format!("is_planar is {} after vertex {} moved to {:?}", got, v, q[v]));
                        }
                    }
                    Ok(())
                });
            }
        }
    });
}
fn coplanar(q: &[I3]) -> bool {
    let mut n = (0, 0, 0);
    for i in 1..q.len() {
        for j in 1..i {
            let c = cross3(sub3(q[i], q[0]), sub3(q[j], q[0]));
            if c != (0, 0, 0) {
                n = c;
            }
        }
    }
    q.iter().all(|x| dot3(sub3(*x, q[0]), n) == 0)
}
/// smooth normals of a mesh with planar faces
fn smooth(ctx: &Ctx, name: &dyn Fn() -> String, pos: &[I3], fs: &[Vec<u32>], scale: f64) {
    ctx.states.fetch_add(1, SeqCst);
    ctx.transitions.fetch_add(1, SeqCst);
    ctx.traces.fetch_add(1, SeqCst);
    ctx.case(
        || name(),
        || {
            let raw = marked(from_faces(pos.len() as u32, fs));
            for ids in 0..2 {
            let at = |v: u32| i3(pos[v as usize]) * scale;
            let mut m = if ids == 0 { mesh3(&raw, at) } else { mesh3_edges_renumbered(&raw, fs.len() % 2, at) };
            let before = crate::m_math::conn::<MeshType3d64PNU>(&m);
            for (i, v) in m.vertices_mut().enumerate() {
                v.payload_mut().set_normal(V3::new(0.0, i as f64, 1.0));
            }
            m.generate_smooth_normals();
            if crate::m_math::conn::<MeshType3d64PNU>(&m) != before {
                return Err("the connectivity changed".into());
            }
            for v in 0..pos.len() as u32 {
                let x = m.vertex(v as usize);
                let p: V3 = x.pos();
                near("a position", p, (i3(pos[v as usize]) * scale).into(), 0.0)?;
                let n: V3 = *x.payload().normal();
                if !n.iter().all(|c| c.is_finite()) {
                    return Err(format!("vertex {} got the normal {:?}", v, n.as_slice()));
                }
                let mut sum = [0.0; 3];
                let mut k = 0;
                for f in fs {
                    if f.contains(&v) {
                        let mut nn = (0, 0, 0);
                        for i in 1..f.len() - 1 {
                            let c = cross3(sub3(pos[f[i] as usize], pos[f[0] as usize]), sub3(pos[f[i + 1] as usize], pos[f[0] as usize]));
                            nn = (nn.0 + c.0, nn.1 + c.1, nn.2 + c.2);
                        }
                        let u = unit(nn);
                        for j in 0..3 {
                            sum[j] += u[j];
                        }
                        k += 1;
                    }
                }
                let l = (sum[0] * sum[0] + sum[1] * sum[1] + sum[2] * sum[2]).sqrt();
                if k > 0 && l > 1e-6 {
                    near(&format!("the normal of vertex {}", v), n, sum.map(|c| c / l), 1e-9)?;
                }
            }
            }
            Ok(())
        },
    );
}
pub fn t09(ctx: &Ctx) {
    let t = ctx.thorough;
    let mut small = vec![];
    polygons(&grid(3, 3), 3, 9, true, true, &mut small);
    let mut all = planes();
    all.extend(skew_planes());
    faces(ctx, "3x3 grid, <= 9 corners", &small, &all, ctx.b(0, 0));
    let mut big = vec![];
    polygons(&grid(4, 3), 3, ctx.b(9, 12), true, true, &mut big);
    polygons(&grid(4, 4), 3, ctx.b(6, 8), true, true, &mut big);
    let mut some: Vec<(I3, I3)> = planes().into_iter().step_by(5).collect();
    some.extend(skew_planes());
    faces(ctx, "4x3 and 4x4 grid", &big, &some, 1);
    let mut gen = vec![];
    polygons(&general(8, 1), 3, 8, true, false, &mut gen);
    faces(ctx, "8 points in general position", &gen, &skew_planes(), 2);
    // smooth normals
    for s in solids() {
        let n = s.faces.len();
        ctx.bound(&format!("smooth normals: {}", s.name), format!("all {} sets of faces, two sizes, with an isolated vertex", 1u64 << n));
        ctx.par(1 << n, 8, |k| {
            let fs: Vec<Vec<u32>> = (0..n).filter(|i| k >> i & 1 == 1).map(|i| s.faces[i].clone()).collect();
            let mut pos = s.pos.clone();
            pos.push((9, 9, 9));
            for scale in [1.0, 0.0078125] {
                smooth(ctx, &|| format!("smooth {} faces {:b} scale {}", s.name, k, scale), &pos, &fs, scale);
            }
        });
    }
    // prisms over large convex polygons, fans and larger fields
    let mut l: Vec<Solid> = vec![];
    for k in 2..=ctx.b(8, 16) {
        for (name, p) in large(k, false, 200) {
            l.push(prism(&format!("{} {}", name, k), &p, 3 * k));
            // pyramid
            let n = p.len() as u32;
            let mut pos: Vec<I3> = p.iter().map(|q| (q.0, q.1, 0)).collect();
            pos.push((1, 2, 9));
            let mut faces: Vec<Vec<u32>> = vec![(0..n).rev().collect()];
            faces.extend((0..n).map(|i| vec![i, (i + 1) % n, n]));
            l.push(Solid { name: format!("pyramid over {} {}", name, k), pos, faces });
        }
    }
    ctx.bound("smooth normals: prisms and pyramids over large polygons", l.len());
    ctx.par(l.len() as u64 * 3, 1, |i| {
        let s = &l[i as usize / 3];
        let mut fs = s.faces.clone();
        match i % 3 {
            1 => {
                fs.remove(0);
            }
            2 => {
                fs.remove(fs.len() / 2);
            }
            _ => {}
        }
        smooth(ctx, &|| format!("smooth {} without face variant {}", s.name, i % 3), &s.pos, &fs, 1.0);
    });
    // the other large families, with uneven corners
    let h: Vec<(String, Raw)> = huge(t).into_iter().chain(larger(ctx.b(10, 14))).collect();
    ctx.bound("smooth normals: huge meshes", format!("{} meshes cut into triangles, with up to {} vertices", h.len(), h.iter().map(|x| x.1.nv()).max().unwrap()));
    ctx.par(h.len() as u64, 1, |i| {
        let (name, raw) = &h[i as usize];
        let pos: Vec<I3> = (0..raw.nv() as i64).map(|v| (v * v % 31 * 3, v * 7 % 29 * 4 + v % 2, v * v * v % 37)).collect();
        let mut fs: Vec<Vec<u32>> = vec![];
        for f in raw.fids() {
            let c: Vec<u32> = raw.lp(raw.ff(f).edge).iter().map(|e| raw.origin(*e)).collect();
            for i in 1..c.len() - 1 {
                fs.push(vec![c[0], c[i], c[i + 1]]);
            }
        }
        let flat = |f: &Vec<u32>| {
            let p = |k: usize| pos[f[k] as usize];
            cross3(sub3(p(1), p(0)), sub3(p(2), p(0))) == (0, 0, 0)
        };
        fs.retain(|f| !flat(f));
        smooth(ctx, &|| format!("smooth {}", name), &pos, &fs, 1.0);
    });
    // height fields over a triangulated 3x3 grid
    let mut tri: Vec<Vec<u32>> = vec![];
    for y in 0..2u32 {
        for x in 0..2u32 {
            let a = y * 3 + x;
            tri.push(vec![a, a + 1, a + 4]);
            tri.push(vec![a, a + 4, a + 3]);
        }
    }
    let sets: Vec<u64> = if t { (0..256).collect() } else { (0..256).step_by(5).collect() };
    ctx.bound("smooth normals: height fields", format!("all 512 heights over a 3x3 grid, {} sets of triangles", sets.len()));
    ctx.par(512 * sets.len() as u64, 64, |i| {
        let (h, k) = (i % 512, sets[(i / 512) as usize]);
        let pos: Vec<I3> = (0..9).map(|v| (v % 3 * 2, v / 3 * 3, (h as i64 >> v & 1) * 5)).collect();
        let fs: Vec<Vec<u32>> = (0..8).filter(|i| k >> i & 1 == 1).map(|i| tri[i].clone()).collect();
        smooth(ctx, &|| format!("smooth heights {:b} faces {:b}", h, k), &pos, &fs, 1.0);
    });
    let mut cs = complexes(5, &[3], ctx.b(6, 8));
    cs.retain(|c| one_star(&from_faces(5, c)));
    ctx.bound("smooth normals: complexes", format!("all {} oriented complexes of <= {} triangles over 5 vertices", cs.len(), ctx.b(6, 8)));
    ctx.par(cs.len() as u64, 16, |i| {
        let pos = [(0, 0, 0), (5, 0, 1), (1, 6, 0), (0, 1, 7), (4, 3, 5)];
        smooth(ctx, &|| format!("smooth complex {:?}", cs[i as usize]).replace(' ', ""), &pos, &cs[i as usize], 1.0);
    });
}
