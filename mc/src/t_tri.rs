//! T01-T06: triangulation algorithms on every polygon of exhaustively enumerated families.
use crate::engine::*;
use crate::poly::*;
use procedural_modelling::{extensions::nalgebra::*, prelude::*, tesselate::*};
use procedural_modelling::halfedge::*;
use procedural_modelling::mesh::*;
use std::sync::atomic::Ordering::SeqCst;

/// 32 bit numbers and narrow indices of three different widths
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct N3;
impl MeshType for N3 {
    type E = u32;
    type V = u16;
    type F = u8;
    type EP = EmptyEdgePayload<Self>;
    type VP = VertexPayloadPNU<f32, 3>;
    type FP = EmptyFacePayload<Self>;
    type MP = EmptyMeshPayload<Self>;
    type Mesh = HalfEdgeMeshImpl<N3>;
    type Face = HalfEdgeFaceImpl<Self>;
    type Edge = HalfEdgeImpl<Self>;
    type Vertex = HalfEdgeVertexImpl<Self>;
}
impl EuclideanMeshType<3> for N3 {
    type S = f32;
    type Vec = VecN<f32, 3>;
    type Vec2 = VecN<f32, 2>;
    type Trans = NdAffine<f32, 3>;
    type Rot = NdRotate<f32, 3>;
    type Poly = Polygon2d<f32>;
}
impl HalfEdgeImplMeshType for N3 {}
impl MeshTypeHalfEdge for N3 {}
impl MeshType3D for N3 {}
type Narrow = HalfEdgeMeshImpl<N3>;
type NAlgo<'a> = &'a (dyn Fn(&Narrow, &mut Triangulation<u16>) + Sync);
fn narrow(algo: TriangulationAlgorithm) -> impl Fn(&Narrow, &mut Triangulation<u16>) + Sync {
    move |m, t| triangulate_face::<N3>(m.face(0), m, t, algo, &mut TesselationMeta::default())
}
fn narrow_mesh(pts: &[P]) -> Result<Narrow, String> {
    let at = |k: usize| Vec3::new(pts[k].0 as f32, pts[k].1 as f32, 0.0);
    let mut m = Narrow::new();
    MeshBuilder::<N3>::insert_loop(&mut m, (0..pts.len()).map(|k| VertexPayloadPNU::from_pos(at(k))));
    let n = pts.len();
    if let Some(e) = m.shared_edge_id(0, 1) {
        let f = MeshBuilder::<N3>::close_hole(&mut m, e, Default::default(), false);
        let ids: Vec<u16> = m.face(f).vertices(&m).map(|v| v.id()).take(n + 1).collect();
        if let Some(s) = ids.iter().position(|i| *i == 0) {
            if ids.len() == n
                && (0..n).all(|k| ids[(s + k) % n] as usize == k && *m.vertex(k as u16).payload().pos() == at(k))
            {
                return Ok(m);
            }
        }
    }
    // insert_loop numbers its vertices in another order
    let r = crate::shapes::from_faces(n as u32, &[(0..n as u32).collect()]);
    Ok(crate::realize::realize_ids::<N3>(&r, |v| VertexPayloadPNU::from_pos(at(v as usize)), |_| Default::default(), |_| Default::default()))
}
fn narrow_run(m: &Narrow, algo: NAlgo) -> Result<Vec<[usize; 3]>, String> {
    let mut ind = vec![5u16, 6, 7];
    let mut tri = Triangulation::new(&mut ind);
    algo(m, &mut tri);
    if ind[..3] != [5, 6, 7] || ind.len() % 3 != 0 {
        return Err(format!("the index buffer became {:?}", ind));
    }
    Ok(ind[3..].chunks(3).map(|c| [c[0] as usize, c[1] as usize, c[2] as usize]).collect())
}

pub type M3 = MeshType3d64PNU;
pub type Algo<'a> = &'a (dyn Fn(&Mesh3d64, &mut Triangulation<usize>) + Sync);

/// one face whose loop is exactly `pts`, in order; returns the mesh
pub fn face_mesh(pts: &[Vec3<f64>]) -> Result<Mesh3d64, String> {
    let mut m = Mesh3d64::new();
    MeshBuilder::<M3>::insert_loop(&mut m, pts.iter().map(|p| VertexPayloadPNU::from_pos(*p)));
    let n = pts.len();
    if let Some(e) = m.shared_edge_id(0, 1) {
        let f = MeshBuilder::<M3>::close_hole(&mut m, e, Default::default(), false);
        let ids: Vec<usize> = m.face(f).vertices(&m).map(|v| v.id()).take(n + 1).collect();
        if let Some(s) = ids.iter().position(|i| *i == 0) {
            if ids.len() == n
                && (0..n).all(|k| ids[(s + k) % n] == k && *m.vertex(k).payload().pos() == pts[k])
            {
                return Ok(m);
            }
        }
    }
    // insert_loop numbers its vertices in another order
    let r = crate::shapes::from_faces(n as u32, &[(0..n as u32).collect()]);
    Ok(crate::realize::realize_ids::<M3>(&r, |v| VertexPayloadPNU::from_pos(pts[v as usize]), |_| Default::default(), |_| Default::default()))
}
/// runs a triangulation behind two foreign triangles that must stay untouched
pub fn run(m: &Mesh3d64, algo: Algo) -> Result<Vec<[usize; 3]>, String> {
    let pre = vec![7usize, 8, 9, 1, 0, 2];
    let mut ind = pre.clone();
    let mut tri = Triangulation::new(&mut ind);
    algo(m, &mut tri);
    if ind[..pre.len()] != pre[..] || ind.len() % 3 != 0 {
        return Err(format!("the index buffer became {:?}", ind));
    }
    Ok(ind[pre.len()..].chunks(3).map(|c| [c[0], c[1], c[2]]).collect())
}
fn flat(p: &[P], scale: f64) -> Vec<Vec3<f64>> {
    p.iter().map(|q| Vec3::new(q.0 as f64 * scale, q.1 as f64 * scale, 0.0)).collect()
}
pub const NMAX: usize = 300;
pub struct Family {
    pub name: &'static str,
    pub polys: Vec<Vec<P>>,
    /// how many different start vertices are tried (0: all)
    pub starts: usize,
    pub scales: &'static [f64],
}
pub fn families(ctx: &Ctx, straight: bool, nmax: usize) -> Vec<Family> {
    let t = ctx.thorough;
    let mut r = vec![];
    let mut add = |name, pts: Vec<P>, nmax, anchored, starts, scales| {
        let mut out = vec![];
        polygons(&pts, 3, nmax, straight, anchored, &mut out);
        ctx.count(&format!("polygons: {}", name), out.len() as u64);
        ctx.bound(&format!("family {}", name), format!("all simple polygons with <= {} vertices of {} points", nmax, pts.len()));
        r.push(Family { name, polys: out, starts, scales });
    };
    add("3x3 grid", grid(3, 3), 9, true, 0, &[1.0, 0.0009765625, 1024.0][..]);
    add("4x3 grid", grid(4, 3), 12, true, 0, &[1.0][..]);
    add("3x4 grid", grid(3, 4), 12, true, 0, &[1.0][..]);
    add("4x4 grid", grid(4, 4), if t { 10 } else { 7 }, true, if t { 3 } else { 0 }, &[1.0][..]);
    add("5x5 grid", grid(5, 5), if t { 7 } else { 5 }, true, 3, &[1.0][..]);
    add("8 points in general position", general(8, 1), 8, false, 0, &[1.0, 0.0009765625][..]);
    add("9 points in general position", general(9, 2), 9, false, 3, &[1.0][..]);
    let moved = |w, h, x, y| -> Vec<P> { grid(w, h).iter().map(|p| (p.0 + x, p.1 + y)).collect() };
    add("3x3 grid around the origin", moved(3, 3, -1, -1), 9, false, 0, &[1.0, 0.001953125][..]);
    add("4x3 grid with negative coordinates", moved(4, 3, -2, -7), 8, false, 2, &[1.0][..]);
    add("3x3 grid far away", moved(3, 3, -100000, 200000), 9, false, 0, &[1.0, 0.00390625][..]);
    if t {
        add("10 points in general position", general(10, 3), 10, false, 2, &[1.0][..]);
        add("5x3 grid", grid(5, 3), 10, true, 2, &[1.0][..]);
        add("3x5 grid", grid(3, 5), 10, true, 2, &[1.0][..]);
    }
    let turn = |v: &[Vec<P>]| -> Vec<Vec<P>> { v.iter().map(|p| p.iter().map(|q| (-q.1, q.0)).collect()).collect() };
    let mut st = vec![];
    for k in 2..=if t { 6 } else { 5 } {
        strips(k, 3, &mut st);
    }
    let mut co = vec![];
    for k in 1..=if t { 4 } else { 3 } {
        combs(k, if k < 3 { 3 } else { 2 }, &mut co);
    }
    if !straight {
        st.retain(|p| !has_straight(p));
        co.retain(|p| !has_straight(p));
    }
    let spirals: Vec<Vec<P>> = (2..=if t { 12 } else { 8 }).flat_map(spiral).collect();
    for (name, name2, v) in [("strips", "turned strips", st), ("combs", "turned combs", co), ("spirals", "turned spirals", spirals)] {
        ctx.count(&format!("polygons: {}", name), 2 * v.len() as u64);
        let u = turn(&v);
        r.push(Family { name, polys: v, starts: 2, scales: &[1.0] });
        r.push(Family { name: name2, polys: u, starts: 2, scales: &[1.0] });
    }
    // many vertices: regular constructions in every size
    let mut big = vec![];
    for k in 1..nmax as i64 {
        if k > 12 && !t && !(k < 40 && (k % 8 == 0 || k % 11 == 0)) && k % 35 != 0 {
            continue;
        }
        let ps = large(k, straight, nmax).into_iter().map(|x| x.1).chain(if k < 40 { spiral(k) } else { vec![] });
        big.extend(ps.flat_map(|p| TURNS.iter().map(|m| map(&p, m)).collect::<Vec<_>>()));
    }
    ctx.count("polygons: large", big.len() as u64);
    ctx.bound("family large", format!("fans, lenses, arches, saws, corridors, stars, stairs, combs, and spirals with up to {} vertices in 6 orientations", nmax));
    r.push(Family { name: "large", polys: big, starts: 2, scales: &[1.0] });
    r
}
/// rectangular spiral corridors and their mirror images, sheared so that no two corners are level
fn spiral(k: i64) -> Vec<Vec<P>> {
    // centre line corners of a spiral with k arms
    let mut c = vec![(0i64, 0i64)];
    let d = [(1, 0), (0, 1), (-1, 0), (0, -1)];
    let mut p = (0, 0);
    for i in 0..k {
        let l = 4 * (i / 2 + 1);
        p = (p.0 + d[(i % 4) as usize].0 * l, p.1 + d[(i % 4) as usize].1 * l);
        c.push(p);
    }
    // offset both sides by one
    let n = c.len();
    let off = |s: i64| -> Vec<P> {
        (0..n)
            .map(|i| {
                let a = if i == 0 { None } else { Some(d[((i - 1) % 4) as usize]) };
                let b = if i == n - 1 { None } else { Some(d[(i % 4) as usize]) };
                let nrm = |q: (i64, i64)| (-q.1 * s, q.0 * s);
                let (mut x, mut y) = c[i];
                for q in [a, b].into_iter().flatten() {
                    let m = nrm(q);
                    x += m.0;
                    y += m.1;
                }
                (x, y)
            })
            .collect()
    };
    let mut l = off(-1);
    let mut r = off(1);
    r.reverse();
    l.extend(r);
    let shear: Vec<P> = l.iter().map(|q| (q.0 * 50 + q.1, q.1 * 50 + 3 * q.0)).collect();
    let mut out = vec![];
    for p in [l, shear] {
        let mut mir: Vec<P> = p.iter().map(|q| (-q.0, q.1)).collect();
        mir.reverse();
        for q in [p, mir] {
            if is_simple(&q) && area2(&q) > 0 {
                out.push(q);
            }
        }
    }
    out
}
pub fn rotations(n: usize, starts: usize) -> Vec<usize> {
    if starts == 0 || starts >= n {
        (0..n).collect()
    } else {
        (0..starts).map(|i| i * n / starts).collect()
    }
}
pub fn each(ctx: &Ctx, fams: &[Family], filter: &(dyn Fn(&[P]) -> bool + Sync), f: &(dyn Fn(&[P], f64, &[Vec3<f64>]) -> Result<(), String> + Sync)) {
    for fam in fams {
        ctx.par(fam.polys.len() as u64, 16, |i| {
            let p = &fam.polys[i as usize];
            if !filter(p) {
                return;
            }
            ctx.states.fetch_add(1, SeqCst);
            for s in rotations(p.len(), fam.starts) {
                let mut q = p.clone();
                q.rotate_left(s);
                for sc in fam.scales {
                    ctx.transitions.fetch_add(1, SeqCst);
                    ctx.traces.fetch_add(1, SeqCst);
                    let key = || format!("{:?} scale {}", q, sc).replace(' ', "");
                    ctx.sample(key);
                    ctx.case(key, || f(&q, *sc, &flat(&q, *sc)));
                }
            }
        });
    }
}
fn ids(n: usize) -> Vec<usize> {
    (0..n).collect()
}
/// which triangles without area the library tolerates, and which winding is accepted
#[derive(Clone, Copy, PartialEq)]
enum Rule {
    /// every triangle has positive area
    Strict,
    /// triangles without area may occur, and all triangles may be turned over together (see the winding case of T01)
    Turned,
}
type More<'a> = &'a (dyn Fn(&str, &[P], &[[usize; 3]], f64) -> Result<(), String> + Sync);
fn judge(name: &str, p: &[P], rule: Rule, eps: f64, more: More, f: impl FnOnce() -> Result<Vec<[usize; 3]>, String>) -> Result<(), String> {
    let mut t = guarded(f).map_err(|e| format!("{}: panic: {}", name, e))?.map_err(|e| format!("{}: {}", name, e))?;
    if rule == Rule::Turned && t.iter().any(|x| cross(p[x[0] % p.len()], p[x[1] % p.len()], p[x[2] % p.len()]) < 0) {
        t.iter_mut().for_each(|x| x.swap(1, 2));
    }
    tiles(&ids(p.len()), p, &t, rule != Rule::Strict).map_err(|e| format!("{}: {}", name, e))?;
    more(name, p, &t, eps).map_err(|e| format!("{}: {}", name, e))
}
/// `reach`: largest coordinate for which the 32 bit runs are exact
fn tiling(ctx: &Ctx, fams: &[Family], filter: &(dyn Fn(&[P]) -> bool + Sync), rule: Rule, reach: i64, algos: &[(&str, Algo)], nalgos: &[(&str, NAlgo)], more: More) {
    each(ctx, fams, filter, &|p, _, v| {
        let m = face_mesh(v)?;
        for (name, a) in algos {
            judge(name, p, rule, 1e-7, more, || run(&m, a))?;
        }
        Ok(())
    });
    ctx.bound("32 bit numbers, narrow indices", format!("the same families with coordinates up to {}, first start vertex", reach));
    for fam in fams {
        ctx.par(fam.polys.len() as u64, 16, |i| {
            let p = &fam.polys[i as usize];
            if !filter(p) || p.iter().any(|q| q.0.abs() > reach || q.1.abs() > reach) || p.len() > 250 {
                return;
            }
            ctx.traces.fetch_add(1, SeqCst);
            ctx.case(
                || format!("32 bit {:?}", p).replace(' ', ""),
                || {
                    let m = narrow_mesh(p)?;
                    for (name, a) in nalgos {
                        judge(name, p, rule, 1e-3, more, || narrow_run(&m, a))?;
                    }
                    Ok(())
                },
            );
        });
    }
}
fn via(algo: TriangulationAlgorithm) -> impl Fn(&Mesh3d64, &mut Triangulation<usize>) + Sync {
    move |m, t| triangulate_face::<M3>(m.face(0), m, t, algo, &mut TesselationMeta::default())
}
macro_rules! lt01 {
    ($T:ty, $S:ty, $V:ty, $via:ident) => {
        &[
            ("ear_clipping", &|m, t| ear_clipping::<$T>(m.face(Default::default()), m, t, false)),
            ("ear_clipping randomized", &|m, t| ear_clipping::<$T>(m.face(Default::default()), m, t, true)),
            ("ear_clipping_direct", &|m, t| {
                let v: Vec<(Vec2<$S>, $V)> = m.face(Default::default()).vertices_2d(m).collect();
                ear_clipping_direct(&v, t, false)
            }),
            ("triangulate_face EarClipping", &$via(TriangulationAlgorithm::EarClipping)),
        ]
    };
}
pub fn t01(ctx: &Ctx) {
    let fams = families(ctx, true, NMAX);
    tiling(
        ctx,
        &fams,
        &|_| true,
        Rule::Turned,
        1000,
        lt01!(M3, f64, usize, via),
        lt01!(N3, f32, u16, narrow),
        &|_, _, _, _| Ok(()),
    );
    ctx.case(
        || "winding of ear_clipping".into(),
        || {
            let m = face_mesh(&flat(&[(0, 0), (2, 0), (3, 2), (1, 3), (0, 2)], 1.0))?;
            let t = run(&m, &|m, t| ear_clipping::<M3>(m.face(0), m, t, false))?;
            let p = [(0, 0), (2, 0), (3, 2), (1, 3), (0, 2)];
            if t.iter().any(|x| cross(p[x[0]], p[x[1]], p[x[2]]) < 0) {
                return Err(format!("the triangles run against the direction of the face: {:?}", t));
            }
            Ok(())
        },
    );
}
macro_rules! lt02 {
    ($T:ty, $S:ty, $V:ty, $via:ident) => {
        &[
            ("sweep_line", &|m, t| sweep_line::<$T, LinearMonoTriangulator<$V, Vec2<$S>>>(m.face(Default::default()), m, t, &mut TesselationMeta::default())),
            ("triangulate_face Sweep", &$via(TriangulationAlgorithm::Sweep)),
            ("sweep_line delaunay", &|m, t| sweep_line::<$T, DelaunayMonoTriangulator<$V, Vec2<$S>>>(m.face(Default::default()), m, t, &mut TesselationMeta::default())),
            ("triangulate_face SweepDelaunay", &$via(TriangulationAlgorithm::SweepDelaunay)),
        ]
    };
}
pub fn t02(ctx: &Ctx) {
    let fams = families(ctx, true, NMAX);
    tiling(
        ctx,
        &fams,
        &|_| true,
        Rule::Strict,
        1000,
        lt02!(M3, f64, usize, via),
        lt02!(N3, f32, u16, narrow),
        &|_, _, _, _| Ok(()),
    );
}
/// no corner is a split or merge vertex for a sweep along y, and no two vertices are level
fn y_monotone(p: &[P]) -> bool {
    let n = p.len();
    let mut ys: Vec<i64> = p.iter().map(|q| q.1).collect();
    ys.sort();
    ys.windows(2).all(|w| w[0] != w[1]) && (0..n).filter(|i| p[*i].1 > p[(*i + 1) % n].1 && p[*i].1 > p[(*i + n - 1) % n].1).count() == 1
}
macro_rules! lt03 {
    ($T:ty, $S:ty, $V:ty, $via:ident) => {
        &[
            ("sweep_line dynamic", &|m, t| {
                sweep_line::<$T, DynamicMonoTriangulator<$V, Vec2<$S>, Polygon2d<$S>>>(m.face(Default::default()), m, t, &mut TesselationMeta::default())
            }),
            ("triangulate_face SweepDynamic", &$via(TriangulationAlgorithm::SweepDynamic)),
        ]
    };
}
pub fn t03(ctx: &Ctx) {
    let fams = families(ctx, true, NMAX / 2);
    tiling(
        ctx,
        &fams,
        &|_| true,
        Rule::Strict,
        1000,
        lt03!(M3, f64, usize, via),
        lt03!(N3, f32, u16, narrow),
        &|_, p, t, eps| {
            if y_monotone(p) {
                ctx.count("monotone polygons compared with the optimum", 1);
                let (w, o) = (diagonals_weight(&ids(p.len()), p, t), min_weight(p));
                if w > o * (1.0 + eps) + eps {
                    return Err(format!("diagonals of length {} although {} is possible: {:?}", w, o, t));
                }
            }
            Ok(())
        },
    );
}
macro_rules! lt04 {
    ($T:ty, $S:ty, $V:ty, $via:ident) => {
        &[
            ("minweight_dynamic", &|m, t| minweight_dynamic::<$T>(m.face(Default::default()), m, t)),
            ("minweight_dynamic_direct", &|m, t| {
                let v = m.face(Default::default()).vec2s(m);
                if v.len() >= 4 {
                    minweight_dynamic_direct::<$V, Vec2<$S>, Polygon2d<$S>>(&v, t)
                } else {
                    try_min_weight_small_direct::<$V, Vec2<$S>, Polygon2d<$S>>(&v, t);
                }
            }),
            ("triangulate_face MinWeight", &$via(TriangulationAlgorithm::MinWeight)),
        ]
    };
}
pub fn t04(ctx: &Ctx) {
    let fams = families(ctx, true, NMAX / 2);
    tiling(
        ctx,
        &fams,
        &|_| true,
        Rule::Strict,
        1000,
        lt04!(M3, f64, usize, via),
        lt04!(N3, f32, u16, narrow),
        &|_, p, t, eps| {
            let (w, o) = (diagonals_weight(&ids(p.len()), p, t), min_weight(p));
            if w > o * (1.0 + eps) + eps {
                return Err(format!("diagonals of length {} although {} is possible: {:?}", w, o, t));
            }
            Ok(())
        },
    );
}
macro_rules! lt05 {
    ($T:ty, $S:ty, $V:ty, $via:ident) => {
        &[
            ("delaunay_triangulation", &|m, t| delaunay_triangulation::<$T>(m.face(Default::default()), m, t)),
            ("triangulate_face Delaunay", &$via(TriangulationAlgorithm::Delaunay)),
            ("triangulate_face Auto", &$via(TriangulationAlgorithm::Auto)),
        ]
    };
}
pub fn t05(ctx: &Ctx) {
    let fams = families(ctx, true, NMAX);
    tiling(
        ctx,
        &fams,
        &|_| true,
        Rule::Strict,
        40,
        lt05!(M3, f64, usize, via),
        lt05!(N3, f32, u16, narrow),
        &|name, p, t, _| if p.len() > 4 || name == "delaunay_triangulation" { locally_delaunay(&ids(p.len()), p, t) } else { Ok(()) },
    );
}
macro_rules! lt06 {
    ($T:ty, $S:ty, $V:ty, $via:ident) => {
        &[
            ("fan_triangulation", &|m, t| fan_triangulation::<$T>(m.face(Default::default()), m, t)),
        ]
    };
}
pub fn t06(ctx: &Ctx) {
    let fams = families(ctx, false, NMAX);
    tiling(
        ctx,
        &fams,
        &|p| strictly_convex(p),
        Rule::Strict,
        1000,
        lt06!(M3, f64, usize, via),
        lt06!(N3, f32, u16, narrow),
        &|_, _, t, _| {
            let c: Vec<usize> = (0..3).map(|i| t[0][i]).filter(|v| t.iter().all(|x| x.contains(v))).collect();
            if c.is_empty() {
                return Err(format!("no common vertex: {:?}", t));
            }
            Ok(())
        },
    );
}
