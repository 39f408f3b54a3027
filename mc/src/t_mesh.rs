//! T07: triangulating whole meshes: several faces, any plane, foreign edges between a face's own vertices,
//! removed faces, and the variant with one vertex copy per face.
use crate::engine::*;
use crate::poly::*;
use crate::shapes::*;
use procedural_modelling::{extensions::nalgebra::*, math::*, prelude::*, tesselate::*};
use std::sync::atomic::Ordering::SeqCst;

type I3 = (i64, i64, i64);
type M3 = MeshType3d64PNU;
use TriangulationAlgorithm as A;
const ALGOS: [A; 8] = [A::EarClipping, A::Sweep, A::SweepDynamic, A::SweepDelaunay, A::MinWeight, A::Delaunay, A::Auto, A::Fan];

/// a face that must be tiled: its vertices and its exact outline in its own plane
#[derive(Clone, Debug)]
struct Want {
    ids: Vec<usize>,
    poly: Vec<P>,
    normal: [f64; 3],
    /// distances in the plane are proportional to those of the outline
    iso: bool,
}
fn unit(a: I3) -> [f64; 3] {
    let l = (dot3(a, a) as f64).sqrt();
    [a.0 as f64 / l, a.1 as f64 / l, a.2 as f64 / l]
}
fn place(p: P, pl: (I3, I3), o: I3) -> I3 {
    let (u, v) = pl;
    (o.0 + p.0 * u.0 + p.1 * v.0, o.1 + p.0 * u.1 + p.1 * v.1, o.2 + p.0 * u.2 + p.1 * v.2)
}
fn iso(pl: (I3, I3)) -> bool {
    dot3(pl.0, pl.1) == 0 && dot3(pl.0, pl.0) == dot3(pl.1, pl.1)
}
/// whether `t` tiles the face `w`
fn face_ok(w: &Want, t: &[[usize; 3]], algo: A, exact: bool) -> Result<(), String> {
    let mut t = t.to_vec();
    let pos = |v: usize| w.ids.iter().position(|i| *i == v);
    if algo == A::EarClipping {
        // see the known finding of T01
        if t.iter().any(|x| match (pos(x[0]), pos(x[1]), pos(x[2])) {
            (Some(a), Some(b), Some(c)) => cross(w.poly[a], w.poly[b], w.poly[c]) < 0,
            _ => false,
        }) {
            t.iter_mut().for_each(|x| x.swap(1, 2));
        }
    }
    // placing the face rounds: three vertices on a line may just make a triangle
    let flat = collinear(&w.poly) || matches!(algo, A::EarClipping);
    tiles(&w.ids, &w.poly, &t, flat)?;
    if w.iso && exact {
        if matches!(algo, A::Delaunay | A::Auto) && w.poly.len() > 4 {
            locally_delaunay(&w.ids, &w.poly, &t)?;
        }
        if algo == A::MinWeight {
            let (x, o) = (diagonals_weight(&w.ids, &w.poly, &t), min_weight(&w.poly));
            if x > o + 1e-7 {
                return Err(format!("diagonals of length {} although {} is possible", x, o));
            }
        }
    }
    Ok(())
}
fn collinear(p: &[P]) -> bool {
    let n = p.len();
    (0..n).any(|a| (a + 1..n).any(|b| (b + 1..n).any(|c| cross(p[a], p[b], p[c]) == 0)))
}
fn orders(n: usize) -> Vec<Vec<usize>> {
    crate::realize::permutations(n).into_iter().map(|p| p.into_iter().map(|x| x as usize).collect()).collect()
}
/// checks both exports of a mesh against the faces it must consist of
fn mesh_ok(m: &Mesh3d64, want: &[Want], algos: &[A], exact: bool) -> Result<(), String> {
    let n = m.num_vertices();
    let perms = orders(want.len());
    for algo in algos {
        if *algo == A::Fan && want.iter().any(|w| w.poly.len() > 4 && !strictly_convex(&w.poly)) {
            continue;
        }
        let (ind, vs) = match guarded(|| m.triangulate(*algo, &mut TesselationMeta::default())) {
            // ear clipping may refuse vertices on a line when placing them rounds
            Err(e) if *algo == A::EarClipping && e.contains("nearly collinear") && want.iter().any(|w| collinear(&w.poly)) => continue,
            r => r.map_err(|e| format!("{:?}: panic: {}", algo, e))?,
        };
        let fail = |e: String| format!("{:?}: {} in {:?}", algo, e, ind);
        if vs.len() != n {
            return Err(fail(format!("{} vertices instead of {}", vs.len(), n)));
        }
        for (i, v) in m.vertices().enumerate() {
            if vs[i] != *v.payload() {
                return Err(fail(format!("vertex {} of the list is not vertex {}", i, v.id())));
            }
        }
        if ind.len() != want.iter().map(|w| 3 * (w.poly.len() - 2)).sum::<usize>() {
            return Err(fail(format!("{} indices", ind.len())));
        }
        let tri: Vec<[usize; 3]> = ind.chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
        let mut last = String::new();
        // the faces may come in any order
        let ok = perms.iter().rev().any(|p| {
            let mut k = 0;
            p.iter().all(|f| {
                let l = want[*f].poly.len() - 2;
                k += l;
                match face_ok(&want[*f], &tri[k - l..k], *algo, exact) {
                    Ok(()) => true,
                    Err(e) => {
                        if last.is_empty() {
                            last = e;
                        }
                        false
                    }
                }
            })
        });
        if !ok {
            return Err(fail(last));
        }
        // one copy of every vertex per face
        let (ind, vs) = guarded(|| m.triangulate_and_generate_flat_normals_post(*algo, &mut TesselationMeta::default())).map_err(|e| format!("flat {:?}: panic: {}", algo, e))?;
        let fail = |e: String| format!("flat {:?}: {} in {:?}", algo, e, ind);
        if vs.len() != want.iter().map(|w| w.poly.len()).sum::<usize>() {
            return Err(fail(format!("{} vertices", vs.len())));
        }
        if ind.len() != tri.len() * 3 || ind.iter().any(|i| *i >= vs.len()) {
            return Err(fail("wrong indices".into()));
        }
        let tri: Vec<[usize; 3]> = ind.chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
        let ok = perms.iter().rev().any(|p| {
            let (mut k, mut b) = (0, 0);
            p.iter().all(|f| {
                let w = &want[*f];
                let l = w.poly.len();
                let block = &vs[b..b + l];
                let base = b;
                b += l;
                k += l - 2;
                // the copies of this face: the same positions with the face's normal
                let mut local = w.clone();
                for i in 0..l {
                    let orig = m.vertex(w.ids[i]).payload();
                    let Some(j) = block.iter().position(|x| x.pos() == orig.pos() && x.uv() == orig.uv()) else {
                        last = format!("no copy of vertex {} for its face", w.ids[i]);
                        return false;
                    };
                    local.ids[i] = base + j;
                    if (0..3).any(|c| (block[j].normal()[c] - w.normal[c]).abs() > 1e-9) {
                        last = format!("the copy of vertex {} has the normal {:?} instead of {:?}", w.ids[i], block[j].normal().as_slice(), w.normal);
                        return false;
                    }
                }
                match face_ok(&local, &tri[k - (l - 2)..k], *algo, exact) {
                    Ok(()) => true,
                    Err(e) => {
                        if last.is_empty() {
                            last = e;
                        }
                        false
                    }
                }
            })
        });
        if !ok {
            return Err(fail(last));
        }
    }
    Ok(())
}
fn build(pos: &[I3], faces: &[Vec<u32>], scale: f64) -> Mesh3d64 {
    build_ids(pos, faces, scale, 0)
}
/// `ids`: 0 as the builders number edges and faces, otherwise another numbering
fn build_ids(pos: &[I3], faces: &[Vec<u32>], scale: f64, ids: usize) -> Mesh3d64 {
    let raw = marked(from_faces(pos.len() as u32, faces));
    let at = |v: u32| i3(pos[v as usize]) * scale;
    let mut m = if ids == 0 { mesh3(&raw, at) } else { mesh3_edges_renumbered(&raw, ids - 1, at) };
    for (i, v) in m.vertices_mut().enumerate() {
        v.payload_mut().set_uv(Vec2::new(i as f64, -(i as f64)));
        v.payload_mut().set_normal(V3::new(0.0, 3.0, i as f64));
    }
    m
}
fn case(ctx: &Ctx, key: &dyn Fn() -> String, f: &dyn Fn() -> Result<(), String>) {
    ctx.transitions.fetch_add(1, SeqCst);
    ctx.traces.fetch_add(1, SeqCst);
    ctx.sample(|| key());
    ctx.case(|| key(), || f());
}
fn want(ids: &[u32], poly: &[P], pl: (I3, I3)) -> Want {
    Want { ids: ids.iter().map(|i| *i as usize).collect(), poly: poly.to_vec(), normal: unit(cross3(pl.0, pl.1)), iso: iso(pl) }
}
const PLACES: [(I3, f64); 4] = [((0, 0, 0), 1.0), ((100, -50, 25), 1.0), ((3, 5, -7), 0.0009765625), ((-3, 2, 1), 512.0)];

/// a face alone in every plane and place
fn placed(ctx: &Ctx, name: &str, polys: &[Vec<P>], planes: &[(I3, I3)], exact: bool) {
    ctx.bound(&format!("placed {}", name), format!("{} polygons in {} planes at 4 places and scales, {} algorithms", polys.len(), planes.len(), ALGOS.len()));
    ctx.par(polys.len() as u64, 4, |i| {
        ctx.states.fetch_add(1, SeqCst);
        let p = &polys[i as usize];
        for (k, pl) in planes.iter().enumerate() {
            let (o, scale) = PLACES[(i as usize + k) % 4];
            case(ctx, &|| format!("placed {:?} plane {:?} at {:?} scale {}", p, pl, o, scale).replace(' ', ""), &|| {
                let ids: Vec<u32> = (0..p.len() as u32).collect();
                let m = build(&p.iter().map(|q| place(*q, *pl, o)).collect::<Vec<_>>(), &[ids.clone()], scale);
                mesh_ok(&m, &[want(&ids, p, *pl)], &ALGOS, exact)
            });
        }
    });
}
/// two faces in different planes, a third one removed in between, an isolated vertex
fn several(ctx: &Ctx, polys: &[Vec<P>], planes: &[(I3, I3)]) {
    let n = polys.len();
    ctx.bound("several faces", format!("{} pairs of polygons, every choice of removed faces", 3 * n));
    ctx.par(3 * n as u64, 4, |i| {
        ctx.states.fetch_add(1, SeqCst);
        let (a, b) = (&polys[i as usize % n], &polys[(i as usize * 7 + i as usize / n * 13 + 1) % n]);
        let (pa, pb) = (planes[i as usize % planes.len()], planes[(i as usize / 2 + 1) % planes.len()]);
        for removed in 0..7u32 {
            case(ctx, &|| format!("several {:?} {:?} planes {:?} {:?} removed {:b}", a, b, pa, pb, removed).replace(' ', ""), &|| {
                // an extra triangle first, between and last
                let mut pos: Vec<I3> = vec![(50, 0, 0), (51, 0, 0), (50, 1, 0), (60, 60, 60)];
                let mut faces: Vec<Vec<u32>> = vec![];
                let s = [(0, 0), (1, 0), (0, 1)];
                let mut ws = vec![];
                faces.push(vec![0, 1, 2]);
                ws.push(want(&[0, 1, 2], &s, ((1, 0, 0), (0, 1, 0))));
                for (p, pl, o) in [(a, pa, (0, 0, 0)), (b, pb, (20, 30, -10))] {
                    let f = pos.len() as u32;
                    pos.extend(p.iter().map(|q| place(*q, pl, o)));
                    let ids: Vec<u32> = (f..pos.len() as u32).collect();
                    ws.push(want(&ids, p, pl));
                    faces.push(ids);
                }
                let mut m = build(&pos, &faces, 1.0);
                let fids: Vec<usize> = m.face_ids().collect();
                let mut keep = vec![];
                for k in 0..3 {
                    if removed >> k & 1 == 1 {
                        MeshBuilder::<M3>::remove_face(&mut m, fids[k]);
                    } else {
                        keep.push(ws[k].clone());
                    }
                }
                mesh_ok(&m, &keep, &ALGOS, true)
            });
        }
    });
}
/// other faces whose edges connect vertices of the face: tents over every chord, split and whole backs
fn foreign(ctx: &Ctx, name: &str, polys: &[Vec<P>], planes: &[(I3, I3)]) {
    ctx.bound(&format!("foreign edges {}", name), format!("{} polygons, every chord as an edge of a tent on either side, every diagonal as a split of the back or the front, a whole back", polys.len()));
    let algos = [A::Delaunay, A::Sweep, A::MinWeight, A::EarClipping];
    ctx.par(polys.len() as u64, 4, |i| {
        ctx.states.fetch_add(1, SeqCst);
        let p = &polys[i as usize];
        let n = p.len();
        let pl = planes[i as usize % planes.len()];
        let nrm = cross3(pl.0, pl.1);
        let back = (pl.1, pl.0);
        let pos: Vec<I3> = p.iter().map(|q| place(*q, pl, (0, 0, 0))).collect();
        let ids: Vec<u32> = (0..n as u32).collect();
        let flip = |q: &[P]| -> Vec<P> { q.iter().rev().map(|x| (x.1, x.0)).collect() };
        let rev: Vec<u32> = ids.iter().rev().copied().collect();
        case(ctx, &|| format!("two sided {:?} {:?}", p, pl).replace(' ', ""), &|| {
            let m = build_ids(&pos, &[ids.clone(), rev.clone()], 1.0, i as usize % 3);
            mesh_ok(&m, &[want(&ids, p, pl), want(&rev, &flip(p), back)], &algos, true)
        });
        for a in 0..n {
            for b in a + 2..n {
                if a == 0 && b == n - 1 {
                    continue;
                }
                for turned in [false, true] {
                    case(ctx, &|| format!("tent over {}-{} turned {} of {:?} {:?}", a, b, turned, p, pl).replace(' ', ""), &|| {
                        let mut pos = pos.clone();
                        let mid = (pos[a].0 + nrm.0, pos[a].1 + nrm.1, pos[a].2 + nrm.2);
                        pos.push(mid);
                        let f = if turned { vec![b as u32, a as u32, n as u32] } else { vec![a as u32, b as u32, n as u32] };
                        let q = |v: u32| pos[v as usize];
                        let tn = cross3(sub3(q(f[1]), q(f[0])), sub3(q(f[2]), q(f[0])));
                        for first in [true, false] {
                            let faces = if first { vec![f.clone(), ids.clone()] } else { vec![ids.clone(), f.clone()] };
                            let m = build_ids(&pos, &faces, 1.0, (a + b + first as usize) % 3);
                            let mut t = want(&f, &[(0, 0), (1, 0), (0, 1)], pl);
                            t.normal = unit(tn);
                            mesh_ok(&m, &[want(&ids, p, pl), t], &algos, true)?;
                        }
                        Ok(())
                    });
                }
                if is_diagonal(p, a, b) {
                    let f: Vec<u32> = (a as u32..=b as u32).collect();
                    let g: Vec<u32> = (b as u32..n as u32).chain(0..=a as u32).collect();
                    let poly = |x: &[u32]| x.iter().map(|v| p[*v as usize]).collect::<Vec<P>>();
                    let (pf, pg) = (poly(&f), poly(&g));
                    case(ctx, &|| format!("split {}-{} of {:?} {:?}", a, b, p, pl).replace(' ', ""), &|| {
                        let m = build_ids(&pos, &[g.clone(), f.clone()], 1.0, b % 3);
                        mesh_ok(&m, &[want(&f, &pf, pl), want(&g, &pg, pl)], &algos, true)
                    });
                    case(ctx, &|| format!("back split {}-{} of {:?} {:?}", a, b, p, pl).replace(' ', ""), &|| {
                        let r = |x: &[u32]| x.iter().rev().copied().collect::<Vec<u32>>();
                        let m = build_ids(&pos, &[r(&f), ids.clone(), r(&g)], 1.0, a % 3);
                        mesh_ok(&m, &[want(&r(&f), &flip(&pf), back), want(&ids, p, pl), want(&r(&g), &flip(&pg), back)], &algos, true)
                    });
                }
            }
        }
    });
}
fn solids_ok(ctx: &Ctx) {
    for s in solids() {
        let n = s.faces.len();
        if n > 8 {
            continue;
        }
        ctx.bound(&format!("solid {}", s.name), format!("all {} sets of removed faces, three numberings", 1u32 << n));
        ctx.par(3 << n, 4, |k| {
            ctx.states.fetch_add(1, SeqCst);
            let (k, ids) = (k / 3, k as usize % 3);
            case(ctx, &|| format!("solid {} removed {:b} ids {}", s.name, k, ids), &|| solid_ok(&s, k as u32, ids));
        });
    }
    // prisms over large polygons: faces with many corners next to small ones
    let mut l: Vec<(String, Vec<P>)> = vec![];
    for k in 2..=ctx.b(5, 12) {
        for (name, p) in large(k, false, ctx.b(40, 120)) {
            l.push((format!("{} {}", name, k), p));
        }
    }
    ctx.bound("prisms over large polygons", format!("{} prisms with up to {} faces, three numberings", l.len(), l.iter().map(|p| p.1.len() + 2).max().unwrap()));
    ctx.par(3 * l.len() as u64, 1, |i| {
        ctx.states.fetch_add(1, SeqCst);
        let ((name, p), ids) = (&l[i as usize / 3], i as usize % 3);
        let s = prism(name, p, 3);
        for k in [0, 1, 2, 0x15, 1 << 20] {
            case(ctx, &|| format!("prism {} removed {:b} ids {}", s.name, k, ids), &|| solid_ok(&s, k, ids));
        }
    });
}
fn solid_ok(s: &Solid, k: u32, ids: usize) -> Result<(), String> {
    let n = s.faces.len();
    let gone = |i: usize| i < 32 && k >> i & 1 == 1;
    let mut m = build_ids(&s.pos, &s.faces, 1.0, ids);
    let set = |v: &mut dyn Iterator<Item = usize>| v.collect::<std::collections::BTreeSet<usize>>();
    for i in (0..n).filter(|i| gone(*i)) {
        let c = set(&mut s.faces[i].iter().map(|v| *v as usize));
        let f = m.faces().find(|f| set(&mut f.vertices(&m).map(|v| v.id())) == c).ok_or("harness: no such face")?.id();
        MeshBuilder::<M3>::remove_face(&mut m, f);
    }
    // exact outlines: project along the largest component of the normal
    let ws: Vec<Want> = (0..n)
        .filter(|i| !gone(*i))
        .map(|i| {
            let f = &s.faces[i];
            let q: Vec<I3> = f.iter().map(|v| s.pos[*v as usize]).collect();
            let mut nn = (0, 0, 0);
            for j in 1..q.len() - 1 {
                let c = cross3(sub3(q[j], q[0]), sub3(q[j + 1], q[0]));
                nn = (nn.0 + c.0, nn.1 + c.1, nn.2 + c.2);
            }
            let poly: Vec<P> = q
                .iter()
                .map(|x| {
                    if nn.0.abs() >= nn.1.abs().max(nn.2.abs()) {
                        if nn.0 > 0 { (x.1, x.2) } else { (x.2, x.1) }
                    } else if nn.1.abs() >= nn.2.abs() {
                        if nn.1 > 0 { (x.2, x.0) } else { (x.0, x.2) }
                    } else if nn.2 > 0 {
                        (x.0, x.1)
                    } else {
                        (x.1, x.0)
                    }
                })
                .collect();
            Want { ids: f.iter().map(|v| *v as usize).collect(), poly, normal: unit(nn), iso: false }
        })
        .collect();
    // chunks in the order of the faces only (there are too many faces to try all orders)
    for algo in [A::Delaunay, A::Sweep, A::MinWeight, A::SweepDynamic] {
        let (ind, vs) = m.triangulate(algo, &mut TesselationMeta::default());
        if vs.len() != s.pos.len() || ind.len() != ws.iter().map(|w| 3 * (w.poly.len() - 2)).sum::<usize>() {
            return Err(format!("{:?}: {} vertices, {} indices", algo, vs.len(), ind.len()));
        }
        let tri: Vec<[usize; 3]> = ind.chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
        for w in &ws {
            // every triangle of a convex or flat solid belongs to the one face containing its corners
            let mine: Vec<[usize; 3]> = tri.iter().filter(|t| t.iter().all(|v| w.ids.contains(v))).copied().collect();
            face_ok(w, &mine, algo, true).map_err(|e| format!("{:?}: face {:?}: {}", algo, w.ids, e))?;
        }
    }
    Ok(())
}
pub fn t07(ctx: &Ctx) {
    let t = ctx.thorough;
    let mut all = planes();
    all.extend(skew_planes());
    let get = |pts: Vec<P>, n: usize, straight: bool, anchored: bool| {
        let mut v = vec![];
        polygons(&pts, 3, n, straight, anchored, &mut v);
        v
    };
    // away from the axes rounding decides whether three vertices on a line make a corner
    let free = |v: Vec<Vec<P>>| v.into_iter().filter(|p| !collinear(p)).collect::<Vec<_>>();
    placed(ctx, "3x3 grid, axis-parallel planes", &get(grid(3, 3), ctx.b(8, 9), true, true), &planes(), true);
    placed(ctx, "4x4 grid, axis-parallel planes", &get(grid(4, 4), ctx.b(6, 7), false, true), &planes().into_iter().step_by(if t { 1 } else { 7 }).collect::<Vec<_>>(), true);
    placed(ctx, "4x4 grid without collinear vertices", &free(get(grid(4, 4), 8, false, true)), &all, true);
    placed(ctx, "5x5 grid without collinear vertices", &free(get(grid(5, 5), ctx.b(5, 7), false, true)), &skew_planes(), true);
    placed(ctx, "general position", &get(general(8, 1), 8, false, false), &all[..].iter().copied().step_by(if t { 1 } else { 4 }).collect::<Vec<_>>(), true);
    several(ctx, &get(grid(3, 3), ctx.b(7, 9), true, true), &planes());
    foreign(ctx, "3x3 grid", &get(grid(3, 3), 9, true, true), &planes());
    foreign(ctx, "general position", &get(general(8, 1), ctx.b(7, 8), false, false), &all);
    solids_ok(ctx);
    fields(ctx);
}
/// meshes with more vertices than fit small integer types
fn fields(ctx: &Ctx) {
    let sizes = [(1u32, 1u32), (20, 12), (16, 15), (70, 60), (257, 255), (40, 1700)];
    ctx.bound("large fields", format!("cells {:?}, three numberings, {} algorithms", sizes, ALGOS.len()));
    ctx.par(sizes.len() as u64 * 3, 1, |i| {
        ctx.states.fetch_add(1, SeqCst);
        let ((w, h), ids) = (sizes[sizes.len() - 1 - i as usize / 3], i as usize % 3);
        if w * h > 60000 && ids == 2 && !ctx.thorough {
            return;
        }
        case(ctx, &|| format!("field {}x{} ids {}", w, h, ids), &|| {
            let (pos, faces) = field(w, h);
            let raw = marked(from_faces(pos.len() as u32, &faces));
            let at = |v: u32| i3(pos[v as usize]);
            let mut m = if ids == 0 { crate::realize::realize_ids::<M3>(&raw, |v| VertexPayloadPNU::from_pos(at(v)), |_| Default::default(), |_| Default::default()) } else { mesh3_edges_renumbered(&raw, ids - 1, at) };
            for (i, v) in m.vertices_mut().enumerate() {
                v.payload_mut().set_uv(Vec2::new(i as f64, -(i as f64)));
            }
            for algo in ALGOS {
                ctx.transitions.fetch_add(1, SeqCst);
                let tag = |e: String| format!("{:?}: {}", algo, e);
                let (ind, vs) = guarded(|| m.triangulate(algo, &mut TesselationMeta::default())).map_err(|e| tag(format!("panic: {}", e)))?;
                if vs.len() != pos.len() || ind.len() != (w * h * 6) as usize || ind.iter().any(|i| *i >= vs.len()) {
                    return Err(tag(format!("{} vertices and {} indices", vs.len(), ind.len())));
                }
                if let Some((i, _)) = m.vertices().enumerate().find(|(i, v)| vs[*i] != *v.payload()) {
                    return Err(tag(format!("vertex {} of the list is another one", i)));
                }
                let plane = |i: usize| (pos[i].0, pos[i].1);
                let t: Vec<_> = ind.chunks(3).map(|c| [plane(c[0]), plane(c[1]), plane(c[2])]).collect();
                field_ok(w, h, &t).map_err(tag)?;
                if w * h > 60000 && algo != A::Auto && algo != A::Sweep && !ctx.thorough {
                    continue;
                }
                let tag = |e: String| format!("flat {:?}: {}", algo, e);
                let (ind, vs) = guarded(|| m.triangulate_and_generate_flat_normals_post(algo, &mut TesselationMeta::default())).map_err(|e| tag(format!("panic: {}", e)))?;
                if vs.len() != faces.iter().map(|f| f.len()).sum::<usize>() || ind.len() != (w * h * 6) as usize || ind.iter().any(|i| *i >= vs.len()) {
                    return Err(tag(format!("{} vertices and {} indices", vs.len(), ind.len())));
                }
                let up = V3::new(-2.0, -3.0, 1.0) / 14f64.sqrt();
                if let Some((i, v)) = vs.iter().enumerate().find(|(_, v)| (*v.normal() - up).norm() > 1e-6) {
                    return Err(tag(format!("copy {} has the normal {:?}", i, v.normal())));
                }
                let plane = |i: usize| (vs[i].pos().x as i64, vs[i].pos().y as i64);
                let t: Vec<_> = ind.chunks(3).map(|c| [plane(c[0]), plane(c[1]), plane(c[2])]).collect();
                field_ok(w, h, &t).map_err(tag)?;
            }
            Ok(())
        });
    });
}
