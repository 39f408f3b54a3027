//! S12: curved edges evaluate and flatten to their curves.
use crate::engine::*;
use crate::topo::*;
use procedural_modelling::{extensions::nalgebra::*, math::*, prelude::*};
use std::collections::HashMap;
use std::sync::atomic::Ordering::SeqCst;

pub type C = MeshType2d64PNUCurved;
pub type K = CurvedEdgeType<2, C>;
pub type Q = (f64, f64);

fn v2(p: Q) -> VecN<f64, 2> {
    VecN::<f64, 2>::new(p.0, p.1)
}
fn q(p: &VecN<f64, 2>) -> Q {
    (p[0], p[1])
}
fn mix(a: Q, b: Q, t: f64) -> Q {
    (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t)
}
fn d2(a: Q, b: Q) -> f64 {
    (a.0 - b.0) * (a.0 - b.0) + (a.1 - b.1) * (a.1 - b.1)
}
/// the curve as its full control polygon
pub fn control(a: Q, k: &K, b: Q) -> Vec<Q> {
    match k {
        CurvedEdgeType::Linear => vec![a, b],
        CurvedEdgeType::QuadraticBezier(c) => vec![a, q(c), b],
        CurvedEdgeType::CubicBezier(c, d) => vec![a, q(c), q(d), b],
    }
}
pub fn quad(c: Q) -> K {
    CurvedEdgeType::QuadraticBezier(v2(c))
}
pub fn cubic(c: Q, d: Q) -> K {
    CurvedEdgeType::CubicBezier(v2(c), v2(d))
}
/// de Casteljau
pub fn eval(p: &[Q], t: f64) -> Q {
    let mut b = [(0.0, 0.0); 4];
    b[..p.len()].copy_from_slice(p);
    for n in (1..p.len()).rev() {
        for i in 0..n {
            b[i] = mix(b[i], b[i + 1], t);
        }
    }
    b[0]
}
fn to_segment(p: Q, a: Q, b: Q) -> f64 {
    let l = d2(a, b);
    if l == 0.0 {
        return d2(p, a).sqrt();
    }
    let t = (((p.0 - a.0) * (b.0 - a.0) + (p.1 - a.1) * (b.1 - a.1)) / l).clamp(0.0, 1.0);
    d2(p, mix(a, b, t)).sqrt()
}
/// how far the piece of the curve is from its chord
fn deviation(p: &[Q], s: f64, t: f64) -> f64 {
    let (a, b) = (eval(p, s), eval(p, t));
    let n = 24;
    (1..n).map(|i| to_segment(eval(p, s + (t - s) * i as f64 / n as f64), a, b)).fold(0.0, f64::max)
}
/// parameters at which the curve passes through `x`
fn params(p: &[Q], x: Q) -> Vec<f64> {
    let n = 256;
    let f = |t: f64| d2(eval(p, t), x);
    let v: Vec<f64> = (0..=n).map(|i| f(i as f64 / n as f64)).collect();
    let mut r = vec![];
    for i in 0..=n {
        if (i > 0 && v[i - 1] < v[i]) || (i < n && v[i + 1] < v[i]) {
            continue;
        }
        let mut t = i as f64 / n as f64;
        if v[i] > 1e-24 {
            let (mut a, mut b) = ((t - 1.0 / n as f64).max(0.0), (t + 1.0 / n as f64).min(1.0));
            for _ in 0..60 {
                let (c, d) = (b - (b - a) * 0.6180339887498949, a + (b - a) * 0.6180339887498949);
                if f(c) < f(d) {
                    b = d;
                } else {
                    a = c;
                }
            }
            t = (a + b) / 2.0;
        }
        if f(t) < 1e-12 {
            r.push(t);
        }
    }
    r
}
/// whether the points lie on the curve in increasing order and the polyline through them stays within `tol`
pub fn follows(p: &[Q], pts: &[Q], tol: f64) -> Result<(), String> {
    // the last parameters that can be reached
    let mut last = vec![0.0f64];
    for (i, x) in pts.iter().enumerate() {
        let c = params(p, *x);
        if c.is_empty() {
            return Err(format!("point {} {:?} is not on the curve {:?}; all: {:?}", i, x, p, pts));
        }
        let later: Vec<f64> = c.iter().copied().filter(|t| last.iter().any(|s| *s <= *t + 1e-7)).collect();
        if later.is_empty() {
            return Err(format!("point {} {:?} at {:?} comes before its predecessor at {:?} on {:?}; all: {:?}", i, x, c, last, p, pts));
        }
        last = later.iter().copied().filter(|t| last.iter().any(|s| *s <= *t + 1e-7 && deviation(p, *s, t.max(*s)) <= tol + 1e-7)).collect();
        if last.is_empty() {
            return Err(format!("the segment to point {} {:?} at {:?} deviates by more than {} from {:?}; all: {:?}", i, x, later, tol, p, pts));
        }
    }
    let d = last.iter().map(|s| deviation(p, *s, 1.0)).fold(f64::MAX, f64::min);
    if d > tol + 1e-7 {
        return Err(format!("the last segment deviates by {} > {} from {:?}; all: {:?}", d, tol, p, pts));
    }
    Ok(())
}
pub fn face_mesh(pts: &[Q], faces: &[Vec<u32>]) -> Mesh2d64Curved {
    let r = crate::shapes::marked(crate::shapes::from_faces(pts.len() as u32, faces));
    crate::realize::realize::<C>(&r, |v| VertexPayloadPNU::<f64, 2>::from_pos(v2(pts[v as usize])), |_| Default::default(), |_| Default::default())
}
fn loop_mesh(pts: &[Q]) -> Mesh2d64Curved {
    face_mesh(pts, &[(0..pts.len() as u32).collect()])
}
/// `uniform`: numbers of uniform segments
fn edge_ok(a: Q, b: Q, k: K, uniform: &[usize], tols: &[f64]) -> Result<(), String> {
    let mut m = loop_mesh(&[a, b, (5.0, 7.0)]);
    let ids: Vec<usize> = (0..3).collect();
    let e = m.shared_edge_id(ids[0], ids[1]).ok_or("no edge")?;
    m.edge_mut(e).set_curve_type(k);
    let edge = m.edge(e);
    if edge.curve_type() != k {
        return Err("curve type is not what was set".into());
    }
    let p = control(a, &k, b);
    let near = |x: Q, y: Q| d2(x, y) < 1e-20;
    for i in 0..=16 {
        let t = i as f64 / 16.0;
        let x = q(&edge.curve_type().point_at(edge, &m, t));
        if !near(x, eval(&p, t)) || (i == 0 && x != a) || (i == 16 && x != b) {
            return Err(format!("{:?} at {} instead of {:?}", x, t, eval(&p, t)));
        }
    }
    for n in uniform.iter().copied() {
        let u: Vec<Q> = edge.flatten_uniform(n, &m).iter().map(q).collect();
        if u.len() != n - 1 || u.iter().enumerate().any(|(i, x)| !near(*x, eval(&p, (i + 1) as f64 / n as f64))) {
            return Err(format!("{} uniform segments: {:?}", n, u));
        }
    }
    for tol in tols.iter().copied() {
        let u: Vec<Q> = edge.flatten_casteljau(tol, &m).iter().map(q).collect();
        if p.len() == 2 && !u.is_empty() {
            return Err(format!("a straight edge is flattened to {:?}", u));
        }
        follows(&p, &u, tol)?;
    }
    Ok(())
}
/// checks `post` against `pre` flattened with `tol`
fn flat_ok(pre: &Mesh2d64Curved, post: &Mesh2d64Curved, tol: f64) -> Result<(), String> {
    let snap = |m: &Mesh2d64Curved| snap_with::<C>(m, |_| 0, |_| 0, |_| 0);
    let (r, s) = (snap(pre)?, snap(post)?);
    s.validate()?;
    if r.nf() > 0 {
        post.check().map_err(|e| format!("check: {:?}", e))?;
    }
    if post.has_curved_edges() || post.edges().any(|e| e.curve_type() != CurvedEdgeType::Linear) {
        return Err("there are still curved edges".into());
    }
    if s.nf() != r.nf() {
        return Err(format!("{} faces instead of {}", s.nf(), r.nf()));
    }
    for v in r.vids() {
        if !s.hv(v) || pre.vertex(v as usize).payload() != post.vertex(v as usize).payload() {
            return Err(format!("vertex {} changed", v));
        }
    }
    let pos = |v: u32| q(&post.vertex(v as usize).pos());
    let old = |v: u32| r.hv(v);
    let mut chains: HashMap<(u32, u32), Vec<u32>> = HashMap::new();
    let mut used = 0;
    for e in r.eids() {
        let (v, w) = (r.origin(e), r.target(e));
        let mut found = vec![];
        for mut o in s.out_edges(v) {
            let mut c = vec![];
            while !old(s.target(o)) && c.len() < 10_000 {
                c.push(s.target(o));
                if s.out_edges(s.target(o)).len() != 2 {
                    return Err(format!("new vertex {} has {} edges", s.target(o), s.out_edges(s.target(o)).len()));
                }
                o = s.next(o);
            }
            if s.target(o) == w {
                found.push(c);
            }
        }
        if found.len() != 1 {
            return Err(format!("{} chains from {} to {}", found.len(), v, w));
        }
        used += found[0].len();
        chains.insert((v, w), found.pop().unwrap());
    }
    if r.nv() + used / 2 != s.nv() {
        return Err(format!("{} vertices but {} originally and {} in edges", s.nv(), r.nv(), used / 2));
    }
    for e in r.eids() {
        let (v, w) = (r.origin(e), r.target(e));
        let (c, mut back) = (&chains[&(v, w)], chains[&(w, v)].clone());
        back.reverse();
        if *c != back {
            return Err(format!("{} to {} through {:?} but {:?} back", v, w, c, back));
        }
        let k = pre.edge(e as usize).curve_type();
        let p: Vec<Q> = c.iter().map(|x| pos(*x)).collect();
        if k != CurvedEdgeType::Linear {
            follows(&control(pos(v), &k, pos(w)), &p, tol).map_err(|x| format!("edge {}-{}: {}", v, w, x))?;
        } else if pre.edge(r.twin(e) as usize).curve_type() == CurvedEdgeType::Linear && !p.is_empty() {
            return Err(format!("straight edge {}-{} got the points {:?}", v, w, p));
        }
    }
    // every loop is the old one with the chains, and has its face
    for l in r.loops() {
        let want: Vec<u32> = l.iter().flat_map(|e| std::iter::once(r.origin(*e)).chain(chains[&(r.origin(*e), r.target(*e))].iter().copied())).collect();
        let f = r.face(l[0]);
        let n = s.loops().iter().filter(|k| {
            let mut w: Vec<u32> = k.iter().map(|e| s.origin(*e)).collect();
            w.len() == want.len() && k.iter().all(|e| s.face(*e) == f) && (0..w.len()).any(|_| {
                w.rotate_left(1);
                w == want
            })
        }).count();
        if n != 1 {
            return Err(format!("{} loops with face {} along {:?}", n, f, want));
        }
    }
    Ok(())
}
/// the positions around every face
fn outlines<const D: usize>(m: &MeshNd64<D>) -> Vec<Vec<Vec<u64>>> {
    let mut r: Vec<Vec<Vec<u64>>> = m
        .faces()
        .map(|f| {
            let mut c: Vec<Vec<u64>> = f.vertices(m).map(|v| v.pos().iter().map(|x| (x + 0.0).to_bits()).collect()).collect();
            let k = (0..c.len()).min_by_key(|i| (0..c.len()).map(|j| c[(i + j) % c.len()].clone()).collect::<Vec<_>>()).unwrap();
            c.rotate_left(k);
            c
        })
        .collect();
    r.sort();
    r
}
fn nd_ok<const D: usize>(pre: &Mesh2d64Curved, flat: &Mesh2d64Curved, tol: f64) -> Result<(), String> {
    let m = pre.to_nd::<D>(tol);
    let s = snap_with::<MeshTypeNd64PNU<D>>(&m, |_| 0, |_| 0, |_| 0)?;
    s.validate()?;
    if (m.num_vertices(), m.num_edges(), m.num_faces()) != (flat.num_vertices(), flat.num_edges(), flat.num_faces()) {
        return Err(format!("{} dimensions: {} vertices, {} edges and {} faces instead of {}, {} and {}", D, m.num_vertices(), m.num_edges(), m.num_faces(), flat.num_vertices(), flat.num_edges(), flat.num_faces()));
    }
    let mut want: Vec<Vec<Vec<u64>>> = flat
        .faces()
        .map(|f| {
            let mut c: Vec<Vec<u64>> = f.vertices(flat).map(|v| (0..D).map(|i| (if i < 2 { v.pos()[i] } else { 0.0 } + 0.0).to_bits()).collect()).collect();
            let k = (0..c.len()).min_by_key(|i| (0..c.len()).map(|j| c[(i + j) % c.len()].clone()).collect::<Vec<_>>()).unwrap();
            c.rotate_left(k);
            c
        })
        .collect();
    want.sort();
    if outlines(&m) != want {
        return Err(format!("{} dimensions: the faces differ from those of the flattened mesh", D));
    }
    Ok(())
}
pub fn s12(ctx: &Ctx) {
    let t = ctx.thorough;
    let case = |key: &dyn Fn() -> String, f: &dyn Fn() -> Result<(), String>| {
        ctx.transitions.fetch_add(1, SeqCst);
        ctx.traces.fetch_add(1, SeqCst);
        ctx.sample(|| key());
        ctx.case(|| key(), || f());
    };
    let r = ctx.b(2i64, 3);
    let grid: Vec<Q> = (-r..=r).flat_map(|x| (-r..=r).map(move |y| (x as f64, y as f64))).collect();
    let n = grid.len() as u64;
    let starts: Vec<Q> = if t { vec![(0.0, 0.0), (3.0, -1.0), (0.1, 0.7), (-1.0, 2.0)] } else { vec![(0.0, 0.0), (3.0, -1.0)] };
    let few: Vec<usize> = (1..=40).collect();
    let tols = [2.0, 0.5, 0.125, 0.02];
    ctx.bound("single edges", format!("starts {:?}, end and control points in a {}x{} grid: straight, quadratic, cubic; 17 parameters, 1..40 uniform segments, tolerances 2, 0.5, 0.125, 0.02", starts, 2 * r + 1, 2 * r + 1));
    for s in &starts {
        ctx.par(n * n, 4, |i| {
            ctx.states.fetch_add(1, SeqCst);
            let (b, c) = (grid[(i / n) as usize], grid[(i % n) as usize]);
            if i % n == 0 {
                case(&|| format!("line {:?} {:?}", s, b), &|| edge_ok(*s, b, CurvedEdgeType::Linear, &few, &tols));
            }
            case(&|| format!("quad {:?} {:?} {:?}", s, c, b), &|| edge_ok(*s, b, quad(c), &few, &tols));
            for d in &grid {
                case(&|| format!("cubic {:?} {:?} {:?} {:?}", s, c, d, b), &|| edge_ok(*s, b, cubic(c, *d), &few, &tols));
            }
        });
    }
    // few curves, but many segments, fine tolerances, other sizes and places
    let small: Vec<Q> = (-1..=1).flat_map(|x| (-1..=1).map(move |y| (x as f64, y as f64))).collect();
    let many: Vec<usize> = (1..=130).chain([255, 256, 257, 1000]).collect();
    let places: Vec<(f64, Q)> = vec![(1.0, (0.0, 0.0)), (1.0, (-37.0, 11.0)), (250.0, (0.0, 0.0)), (0.01, (5.0, 5.0)), (1000.0, (-4000.0, 9000.0))];
    ctx.bound("few edges", format!("end and control points in a 3x3 grid, scale and offset {:?}, 1..130, 255..257 and 1000 uniform segments, tolerances down to a ten thousandth, for bent curves with one control point down to four millionths", places));
    let nn = small.len() as u64;
    ctx.par(nn * nn * places.len() as u64, 1, |i| {
        let (scale, off) = places[(i / (nn * nn)) as usize];
        let (b, c) = (small[(i % nn) as usize], small[(i / nn % nn) as usize]);
        let at = |p: Q| (p.0 * scale + off.0, p.1 * scale + off.1);
        let s = (0.0, 0.0);
        let tols: Vec<f64> = [1.0, 0.05, 0.001, 0.0001, 0.000004].iter().map(|x| x * scale).collect();
        // where the curve turns back its parameter cannot be found exactly
        let bent = b.0 * c.1 != b.1 * c.0;
        if bent {
            case(&|| format!("fine cubic {:?} {:?} {:?} times {} from {:?}", s, c, b, scale, off), &|| edge_ok(at(s), at(b), cubic(at(c), at(c)), &few, &tols));
        }
        case(&|| format!("quad {:?} {:?} {:?} times {} from {:?}", s, c, b, scale, off), &|| edge_ok(at(s), at(b), quad(at(c)), &many, if bent { &tols } else { &tols[..4] }));
        for d in &small {
            case(&|| format!("cubic {:?} {:?} {:?} {:?} times {} from {:?}", s, c, d, b, scale, off), &|| edge_ok(at(s), at(b), cubic(at(c), at(*d)), &few, &tols[..3]));
        }
    });
    // whole meshes
    let kinds: Vec<K> = vec![
        CurvedEdgeType::Linear,
        quad((1.0, 2.0)),
        quad((0.5, 0.25)),
        cubic((3.0, 1.0), (-1.0, 2.0)),
        cubic((0.25, 0.0), (2.0, 0.25)),
        quad((-3.0, 4.0)),
        cubic((-1.0, -1.0), (0.0, 3.0)),
    ];
    let shapes: Vec<(&str, Mesh2d64Curved)> = vec![
        ("triangle", loop_mesh(&[(0.0, 0.0), (4.0, 0.0), (0.0, 3.0)])),
        ("square", loop_mesh(&[(0.0, 0.0), (2.0, 0.0), (2.0, 2.0), (0.0, 2.0)])),
        ("open path", {
            let pts = [(0.0, 0.0), (4.0, 0.0), (0.0, 3.0), (1.0, 5.0)];
            let mut m = Mesh2d64Curved::new();
            let v: Vec<usize> = pts.iter().map(|p| m.add_vertex(VertexPayloadPNU::<f64, 2>::from_pos(v2(*p)))).collect();
            for i in 0..3 {
                m.insert_edge_between(v[i], Default::default(), v[i + 1], Default::default());
            }
            m
        }),
        ("two triangles", face_mesh(&[(0.0, 0.0), (2.0, 0.0), (2.0, 2.0), (0.0, 2.0)], &[vec![0, 1, 2], vec![0, 2, 3]])),
    ];
    for (name, m) in shapes {
        let raw = snap_with::<C>(&m, |_| 0, |_| 0, |_| 0).unwrap();
        let es: Vec<u32> = raw.eids().into_iter().filter(|e| *e < raw.twin(*e)).collect();
        let k = if es.len() > 4 { ctx.b(4, 6) } else { ctx.b(5, kinds.len()) };
        let per = 2 * k as u64 - 1;
        let total = per.pow(es.len() as u32);
        ctx.bound(name, format!("{} edges, each straight or one of {} curves on either half-edge: {} meshes, tolerances 1, 0.05", es.len(), k - 1, total));
        ctx.par(total, 8, |mut i| {
            ctx.states.fetch_add(1, SeqCst);
            let id = i;
            let mut pre = m.clone();
            for e in &es {
                let c = (i % per) as usize;
                i /= per;
                let h = if c % 2 == 0 { *e } else { raw.twin(*e) };
                pre.edge_mut(h as usize).set_curve_type(kinds[(c + 1) / 2]);
            }
            for tol in [1.0, 0.05] {
                case(&|| format!("flatten {} {} tolerance {}", name, id, tol), &|| {
                    let mut post = pre.clone();
                    if pre.has_curved_edges() != (id != 0) {
                        return Err(format!("has_curved_edges is {}", pre.has_curved_edges()));
                    }
                    post.flatten_curved_edges(tol);
                    flat_ok(&pre, &post, tol)?;
                    nd_ok::<2>(&pre, &post, tol)?;
                    nd_ok::<3>(&pre, &post, tol)
                });
            }
        });
    }
    // larger meshes and ids the builders do not assign: one curved edge, or all of them
    let l: Vec<(String, Raw)> = crate::shapes::larger(ctx.b(6, 10)).into_iter().filter(|x| x.1.ne() <= 60 && !x.0.starts_with("torus")).collect();
    ctx.bound("larger meshes", format!("{} meshes, ids as built or renumbered, each single edge or all edges with each of {} curves on either half-edge, tolerances 1, 0.05", l.len(), kinds.len() - 1));
    ctx.par(l.len() as u64 * 3, 1, |i| {
        let (name, raw) = &l[i as usize / 3];
        let raw = if i % 3 == 0 { raw.clone() } else { crate::realize::scramble(raw, i as usize % 3 - 1) };
        let base = crate::realize::realize_ids::<C>(
            &raw,
            |v| VertexPayloadPNU::<f64, 2>::from_pos(v2(((v * v % 7) as f64, (v * 5 % 11) as f64 + v as f64 / 8.0))),
            |_| Default::default(),
            |_| Default::default(),
        );
        let es = raw.eids();
        for (c, kind) in kinds.iter().enumerate().skip(1) {
            for j in 0..=es.len() + 1 {
                case(&|| format!("flatten {} ids {} curve {} on {}", name, i % 3, c, j), &|| {
                    let mut pre = base.clone();
                    if j < es.len() {
                        pre.edge_mut(es[j] as usize).set_curve_type(*kind);
                    } else {
                        for e in &es {
                            if (*e < raw.twin(*e)) == (j == es.len()) {
                                pre.edge_mut(*e as usize).set_curve_type(*kind);
                            }
                        }
                    }
                    for tol in if j < es.len() { vec![0.05] } else { vec![1.0, 0.05] } {
                        let mut post = pre.clone();
                        post.flatten_curved_edges(tol);
                        flat_ok(&pre, &post, tol)?;
                        nd_ok::<2>(&pre, &post, tol)?;
                        nd_ok::<3>(&pre, &post, tol)?;
                    }
                    Ok(())
                });
            }
        }
    });
    // huge meshes: all edges curved, or one in seven
    let l: Vec<(String, Raw)> = crate::shapes::huge(ctx.thorough).into_iter().filter(|x| x.1.ne() <= ctx.b(400, 800) && !x.0.starts_with("torus")).collect();
    ctx.bound("huge meshes", format!("{} meshes of up to {} edges, all edges (of at most 125) or every seventh with each of {} curves on either half-edge, tolerances 1, 0.2", l.len(), l.iter().map(|x| x.1.ne() / 2).max().unwrap(), kinds.len() - 1));
    ctx.par((l.len() * (kinds.len() - 1) * 4) as u64, 1, |i| {
        let i = i as usize;
        let (how, c) = (i % 4, 1 + i / 4 % (kinds.len() - 1));
        let (name, raw) = &l[i / 4 / (kinds.len() - 1)];
        case(&|| format!("flatten {} curve {} how {}", name, c, how), &|| {
            let mut pre = crate::realize::realize_ids::<C>(
                raw,
                |v| VertexPayloadPNU::<f64, 2>::from_pos(v2(((v * v % 37) as f64, (v * 5 % 41) as f64 + v as f64 / 8.0))),
                |_| Default::default(),
                |_| Default::default(),
            );
            for (j, e) in raw.eids().into_iter().filter(|e| (*e < raw.twin(*e)) == (how % 2 == 0)).enumerate() {
                if how < 2 && raw.ne() < 250 || j % 7 == 3 {
                    pre.edge_mut(e as usize).set_curve_type(kinds[c]);
                }
            }
            for tol in [1.0, 0.2] {
                let mut post = pre.clone();
                post.flatten_curved_edges(tol);
                flat_ok(&pre, &post, tol)?;
                nd_ok::<2>(&pre, &post, tol)?;
            }
            Ok(())
        });
    });
}
