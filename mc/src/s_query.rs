//! S04 queries, S05 flips, S06 edge splitting, N01 paths, N02 matrices, N03 isomorphism, C01 conversions:
//! all evaluated on every mesh reachable by bounded construction sequences.
use crate::engine::*;
use crate::explore::*;
use crate::ops::*;
use crate::realize::*;
use crate::shapes::{huge, larger};
use crate::topo::*;
use procedural_modelling::{extensions::nalgebra::*, prelude::*};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::Ordering::SeqCst;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

fn gen(max_v: usize, max_e: usize, depth: usize) -> Bounds {
    Bounds { max_v, max_e, depth, al: Alphabet::generate_only(), reps: true }
}
fn bound(ctx: &Ctx, b: &Bounds) {
    ctx.bound("meshes", format!("all meshes with <= {} vertices, <= {} edges reachable by <= {} operations, up to renaming of ids", b.max_v, b.max_e, b.depth));
}
fn rot_eq<T: PartialEq + Clone>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && (a.is_empty() || (0..a.len()).any(|i| (0..a.len()).all(|j| a[(i + j) % a.len()] == b[j])))
}
fn sorted(mut v: Vec<u32>) -> Vec<u32> {
    v.sort();
    v
}

/// the visit of every explored mesh and of larger families, both as built and with all ids renumbered
fn everywhere(ctx: &Ctx, b: &Bounds, large: u32, visit: &(dyn Fn(&Node) -> Result<(), String> + Sync)) {
    let renumbered = |n: &Node, k: usize| -> Result<(), String> {
        let raw = scramble(&n.raw, k);
        if !dense_v(&raw) {
            return Ok(());
        }
        let mesh = tag_mesh(&raw);
        raw.same_as(&snap(&mesh)?).map_err(|e| format!("harness: {}", e))?;
        ctx.count("renumbered copies", 1);
        visit(&Node { mesh, raw, path: n.path.clone() }).map_err(|e| format!("with ids renumbered ({}): {}", k, e))
    };
    explore(ctx, b, false, &|n| {
        visit(n)?;
        renumbered(n, 0)
    });
    let l = larger(large);
    ctx.bound("larger meshes", format!("{}: polygons, fans, wheels, grids, tubes, tori, solids with up to {} vertices", l.len(), l.iter().map(|x| x.1.nv()).max().unwrap()));
    let h = huge(ctx.thorough);
    ctx.bound("huge meshes", format!("{}: the same families with up to {} vertices, {} half-edges", h.len(), h.iter().map(|x| x.1.nv()).max().unwrap(), h.iter().map(|x| x.1.ne()).max().unwrap()));
    // the big ones first
    let all: Vec<&(String, Raw)> = h.iter().rev().chain(l.iter()).collect();
    ctx.par(all.len() as u64, 1, |i| {
        let (name, raw) = all[i as usize];
        ctx.case(
            || name.clone(),
            || {
                ctx.states.fetch_add(1, SeqCst);
                let mesh = tag_mesh(raw);
                raw.same_as(&snap(&mesh)?).map_err(|e| format!("harness: {}", e))?;
                let n = Node { mesh, raw: raw.clone(), path: vec![] };
                visit(&n)?;
                if i as usize >= h.len() {
                    renumbered(&n, 0)?;
                }
                renumbered(&n, 1)
            },
        );
    });
}
fn tag_mesh(r: &Raw) -> TagMesh {
    realize_ids::<TagMT>(r, |v| Tag(r.vv(v).tag), |e| Tag(r.ee(e).tag), |f| Tag(r.ff(f).tag))
}

/// exact size hints at every stage of an iterator; returns the collected items
fn staged<I: Iterator>(mut it: I, n: usize, what: &str) -> Result<Vec<I::Item>, String> {
    let mut r = vec![];
    for k in 0..=n {
        let (lo, hi) = it.size_hint();
        ensure!(lo == n - k && hi == Some(n - k), "{}: size hint ({}, {:?}) with {} items left", what, lo, hi, n - k);
        match it.next() {
            Some(x) => r.push(x),
            None => {
                ensure!(k == n, "{}: ended after {} of {} items", what, k, n);
                let (lo, hi) = it.size_hint();
                ensure!(lo == 0 && hi == Some(0), "{}: size hint ({}, {:?}) after the end", what, lo, hi);
                return Ok(r);
            }
        }
    }
    Err(format!("{}: more than {} items", what, n))
}
/// collects at most `cap` items so that a runaway iterator is reported instead of hanging
fn cap<I: Iterator>(it: I, cap: usize) -> Vec<I::Item> {
    it.take(cap + 1).collect()
}

pub fn queries(m: &TagMesh, r: &Raw) -> Result<(), String> {
    let n_e = r.ne();
    let (vids, eids, fids) = (r.vids(), r.eids(), r.fids());
    ensure!(m.num_vertices() == r.nv() && m.num_edges() == n_e && m.num_faces() == r.nf(), "counts are wrong");
    ensure!(m.is_open() == eids.iter().any(|e| r.face(*e) == NONE), "is_open is {}", m.is_open());
    ensure!(m.max_vertex_index() == r.v.len(), "max_vertex_index is {}", m.max_vertex_index());
    for v in 0..r.v.len() as u32 + 2 {
        ensure!(m.has_vertex(v) == r.hv(v), "has_vertex({}) is {}", v, m.has_vertex(v));
    }
    ensure!(m.has_consecutive_vertex_ids() == (0..vids.len() as u32).eq(vids.iter().copied()), "has_consecutive_vertex_ids is wrong");
    ensure!(m.vertex_ids().collect::<Vec<_>>() == vids, "vertex_ids");
    ensure!(m.edge_ids().map(ix).collect::<Vec<_>>() == eids, "edge_ids");
    ensure!(m.face_ids().map(ix).collect::<Vec<_>>() == fids, "face_ids");
    {
        let mut c = m.clone();
        ensure!(c.vertices_mut().map(|v| v.id()).collect::<Vec<_>>() == vids, "vertices_mut");
        ensure!(c.edges_mut().map(|v| ix(v.id())).collect::<Vec<_>>() == eids, "edges_mut");
        ensure!(c.faces_mut().map(|v| ix(v.id())).collect::<Vec<_>>() == fids, "faces_mut");
        for &e in &eids {
            let h = c.edge(e as u16).clone();
            let l: Vec<u32> = cap(h.edges_face_mut(&mut c), n_e).into_iter().map(|x| ix(x.id())).collect();
            ensure!(l == r.lp(e), "edges_face_mut({}) gives {:?} instead of {:?}", e, l, r.lp(e));
        }
    }
    let tw: Vec<(u32, u32)> = m.twin_edges().map(|(a, b)| (ix(a.id()), ix(b.id()))).collect();
    let want: Vec<(u32, u32)> = eids.iter().filter(|e| **e < r.twin(**e)).map(|e| (*e, r.twin(*e))).collect();
    ensure!(tw == want, "twin_edges gives {:?}, expected {:?}", tw, want);
    for &e in &eids {
        let h = m.edge(e as u16);
        let l = r.lp(e);
        let mut back = vec![e];
        back.extend(l[1..].iter().rev());
        ensure!(ix(h.id()) == e, "edge({}) has id {}", e, h.id());
        ensure!(ix(h.next(m).id()) == r.next(e) && ix(h.prev(m).id()) == r.prev(e) && ix(h.twin(m).id()) == r.twin(e), "next/prev/twin of {}", e);
        ensure!(h.origin(m).id() == r.origin(e) && h.origin_id() == r.origin(e), "origin of {}", e);
        ensure!(h.target(m).id() == r.target(e) && h.target_id(m) == r.target(e), "target of {}", e);
        ensure!(h.is_boundary_self() == (r.face(e) == NONE), "is_boundary_self of {}", e);
        ensure!(h.is_boundary(m) == (r.face(e) == NONE || r.face(r.twin(e)) == NONE), "is_boundary of {}", e);
        ensure!(h.face(m).map(|f| ix(f.id())).unwrap_or(NONE) == r.face(e), "face of {}", e);
        ensure!(h.other_face(m).map(|f| ix(f.id())).unwrap_or(NONE) == r.face(r.twin(e)), "other_face of {}", e);
        let fs: Vec<u32> = h.face_ids(m).map(ix).collect();
        let want: Vec<u32> = [r.face(e), r.face(r.twin(e))].into_iter().filter(|f| *f != NONE).collect();
        ensure!(sorted(fs.clone()) == sorted(want.clone()), "face_ids of edge {}: {:?} expected {:?}", e, fs, want);
        ensure!(h.payload().0 == r.ee(e).tag, "payload of {}", e);
        for (what, got) in [
            ("edges_face", staged(h.edges_face(m), l.len(), "edges_face")?),
            ("edges_from", staged(m.edges_from(e as u16), l.len(), "edges_from")?),
        ] {
            let got: Vec<u32> = got.into_iter().map(|x| ix(x.id())).collect();
            ensure!(got == l, "{}({}) gives {:?}, expected {:?}", what, e, got, l);
        }
        for (what, got) in [("edges_face_back", cap(h.edges_face_back(m), n_e)), ("edges_back_from", cap(m.edges_back_from(e as u16), n_e))] {
            let got: Vec<u32> = got.into_iter().map(|x| ix(x.id())).collect();
            ensure!(got == back, "{}({}) gives {:?}, expected {:?}", what, e, got, back);
        }
        for &v in &vids {
            let want = l.iter().any(|x| r.origin(*x) == v);
            ensure!(h.same_face(m, v) == want, "same_face({}, {}) is {}", e, v, !want);
            ensure!(h.same_face_back(m, v) == want, "same_face_back({}, {}) is {}", e, v, !want);
        }
    }
    for &v in &vids {
        let x = m.vertex(v);
        ensure!(x.id() == v && x.payload().0 == r.vv(v).tag, "vertex {}", v);
        let rep = r.vv(v).edge;
        ensure!(x.edge(m).map(|e| ix(e.id())).unwrap_or(NONE) == rep, "edge of vertex {}", v);
        // clockwise wheel starting at the representative
        let mut wheel = vec![];
        if rep != NONE {
            let mut c = rep;
            loop {
                wheel.push(c);
                c = r.next(r.twin(c));
                if c == rep {
                    break;
                }
            }
        }
        let out: Vec<u32> = cap(x.edges_out(m), n_e).into_iter().map(|e| ix(e.id())).collect();
        ensure!(rot_eq(&out, &wheel), "edges_out of {}: {:?} expected {:?}", v, out, wheel);
        let inn: Vec<u32> = cap(x.edges_in(m), n_e).into_iter().map(|e| ix(e.id())).collect();
        ensure!(rot_eq(&inn, &wheel.iter().map(|e| r.twin(*e)).collect::<Vec<_>>()), "edges_in of {}: {:?}", v, inn);
        let nb: Vec<u32> = cap(x.neighbor_ids(m), n_e);
        ensure!(rot_eq(&nb, &wheel.iter().map(|e| r.target(*e)).collect::<Vec<_>>()), "neighbors of {}: {:?}", v, nb);
        let nb: Vec<u32> = cap(x.vertices(m), n_e).into_iter().map(|w| w.id()).collect();
        ensure!(rot_eq(&nb, &wheel.iter().map(|e| r.target(*e)).collect::<Vec<_>>()), "vertices around {}: {:?}", v, nb);
        let fs: Vec<u32> = cap(x.faces(m), n_e).into_iter().map(|w| ix(w.id())).collect();
        ensure!(
            rot_eq(&fs, &wheel.iter().map(|e| r.face(*e)).filter(|f| *f != NONE).collect::<Vec<_>>()),
            "faces around {}: {:?}",
            v,
            fs
        );
        ensure!(x.degree(m) == wheel.len(), "degree of {} is {}", v, x.degree(m));
        ensure!(x.has_only_one_edge(m) == (wheel.len() == 1), "has_only_one_edge of {}", v);
        let bd = wheel.iter().any(|e| r.face(*e) == NONE || r.face(r.twin(*e)) == NONE);
        ensure!(x.is_boundary(m) == bd, "is_boundary of vertex {} is {}", v, !bd);
        let b = r.boundary_out(v);
        if b.len() == 1 {
            ensure!(x.outgoing_boundary_edge(m).map(ix) == Some(b[0]), "outgoing boundary edge of {}: {:?}", v, x.outgoing_boundary_edge(m));
            ensure!(x.ingoing_boundary_edge(m).map(ix) == Some(r.prev(b[0])), "ingoing boundary edge of {}: {:?}", v, x.ingoing_boundary_edge(m));
        }
        for &w in &vids {
            if v != w {
                let e = r.find(v, w);
                ensure!(m.shared_edge(v, w).map(|e| ix(e.id())) == e, "shared_edge({}, {})", v, w);
                ensure!(m.shared_edge_id(v, w).map(ix) == e, "shared_edge_id({}, {})", v, w);
            }
            let fv: BTreeSet<u32> = r.out_edges(v).iter().map(|e| r.face(*e)).filter(|f| *f != NONE).collect();
            let fw: BTreeSet<u32> = r.out_edges(w).iter().map(|e| r.face(*e)).filter(|f| *f != NONE).collect();
            let common: Vec<u32> = fv.intersection(&fw).copied().collect();
            let got = m.shared_face(v, w).map(ix);
            match got {
                None => ensure!(common.is_empty(), "shared_face({}, {}) is none but {:?} are shared", v, w, common),
                Some(f) => ensure!(common.contains(&f), "shared_face({}, {}) is {} but shared are {:?}", v, w, f, common),
            }
        }
    }
    for &f in &fids {
        let x = m.face(f as u8);
        let l = r.lp(r.ff(f).edge);
        ensure!(ix(x.id()) == f && x.payload().0 == r.ff(f).tag && x.may_be_curved() == r.ff(f).curved, "face {}", f);
        ensure!(ix(x.edge(m).id()) == ix(x.edge_id()) && r.face(ix(x.edge_id())) == f, "edge of face {}", f);
        ensure!(x.num_edges(m) == l.len() && x.num_vertices(m) == l.len(), "face {}: num_edges {}", f, x.num_edges(m));
        ensure!(x.num_triangles(m) == (l.len() - 2) * 3, "face {}: num_triangles {}", f, x.num_triangles(m));
        ensure!(!x.has_holes(), "has_holes");
        let es: Vec<u32> = staged(x.edges(m), l.len(), "face edges")?.into_iter().map(|e| ix(e.id())).collect();
        ensure!(rot_eq(&es, &l), "edges of face {}: {:?}", f, es);
        let es: Vec<u32> = cap(x.edge_ids(m), n_e).into_iter().map(ix).collect();
        ensure!(rot_eq(&es, &l), "edge_ids of face {}: {:?}", f, es);
        let want: Vec<u32> = l.iter().map(|e| r.origin(*e)).collect();
        let vs: Vec<u32> = staged(x.vertices(m), l.len(), "face vertices")?.into_iter().map(|e| e.id()).collect();
        ensure!(rot_eq(&vs, &want), "vertices of face {}: {:?} expected {:?}", f, vs, want);
        ensure!(x.vertices(m).len() == l.len(), "vertices().len()");
        let vs: Vec<u32> = cap(x.vertex_ids(m), n_e);
        ensure!(rot_eq(&vs, &want), "vertex_ids of face {}: {:?}", f, vs);
    }
    // compacted vertex list
    let mut idx: Vec<u32> = vids.clone();
    let d = m.dense_vertices(&mut idx);
    ensure!(d.len() == vids.len(), "dense_vertices has {} entries", d.len());
    for (k, &v) in vids.iter().enumerate() {
        ensure!(d[idx[k] as usize].0 == r.vv(v).tag, "dense_vertices: index of {} leads to another payload", v);
    }
    Ok(())
}

pub fn s04(ctx: &Ctx) {
    let b = gen(ctx.b(6, 7), ctx.b(6, 7), ctx.b(10, 12));
    bound(ctx, &b);
    everywhere(ctx, &b, 8, &|n| {
        ctx.sample(|| path_key(&n.path));
        ctx.traces.fetch_add(1, SeqCst);
        queries(&n.mesh, &n.raw)
    });
}

pub fn s05(ctx: &Ctx) {
    let b = gen(ctx.b(6, 7), ctx.b(5, 6), ctx.b(10, 12));
    bound(ctx, &b);
    everywhere(ctx, &b, 8, &|n| {
        ctx.sample(|| path_key(&n.path));
        ctx.traces.fetch_add(1, SeqCst);
        let r = &n.raw;
        let mut single: Vec<Vec<u32>> = r.eids().into_iter().map(|e| vec![e]).collect();
        let es = r.eids();
        let few = if es.len() > 100 { es.len() / 6 } else { 1 };
        for (i, a) in es.iter().enumerate() {
            for (j, c) in es.iter().enumerate() {
                if es.len() <= 100 || i % few == 0 && j % 17 == 0 || i % 17 == 0 && j % few == 0 {
                    single.push(vec![*a, *c]);
                }
            }
        }
        for es in single {
            ctx.transitions.fetch_add(1, SeqCst);
            let mut m = n.mesh.clone();
            let mut want = r.clone();
            for e in &es {
                m.flip_edge(*e as u16);
                want = spec_flip(&want, &[*e]);
            }
            let got = snap(&m)?;
            got.validate().map_err(|x| format!("flipping {:?}: {}", es, x))?;
            want.same_as(&got).map_err(|x| format!("flipping {:?}: {}", es, x))?;
        }
        let all: Vec<u32> = r.eids().into_iter().filter(|e| *e < r.twin(*e)).collect();
        let want = spec_flip(r, &all);
        let f = n.mesh.flipped();
        snap(&n.mesh)?.same_as(r).map_err(|x| format!("flipped() changed its source: {}", x))?;
        let g = snap(&f)?;
        g.validate().map_err(|x| format!("flipped(): {}", x))?;
        want.same_as(&g).map_err(|x| format!("flipped(): {}", x))?;
        let mut m = n.mesh.clone();
        m.flip();
        want.same_as(&snap(&m)?).map_err(|x| format!("flip(): {}", x))?;
        check_verdict(&m, &snap(&m)?)?;
        m.flip();
        let g = snap(&m)?;
        g.validate()?;
        r.same_as(&g).map_err(|x| format!("flipping twice: {}", x))?;
        Ok(())
    });
}

pub fn s06(ctx: &Ctx) {
    let b = gen(ctx.b(6, 7), ctx.b(6, 7), ctx.b(10, 12));
    bound(ctx, &b);
    let kmax = 3;
    ctx.bound("vertices per split", kmax);
    everywhere(ctx, &b, 8, &|n| {
        ctx.sample(|| path_key(&n.path));
        for e in n.raw.eids() {
            for k in 0..=kmax {
                ctx.transitions.fetch_add(1, SeqCst);
                let (_, r1) = step(n, &Op::SplitEdge(e, k)).map_err(|x| format!("SplitEdge({},{}): {}", e, k, x))?;
                ctx.traces.fetch_add(1, SeqCst);
                // degrees of the old vertices stay, new ones have degree two
                for v in r1.vids() {
                    let want = if n.raw.hv(v) { n.raw.out_edges(v).len() } else { 2 };
                    ensure!(r1.out_edges(v).len() == want, "SplitEdge({},{}): degree of {} is {}", e, k, v, r1.out_edges(v).len());
                }
            }
            step(n, &Op::Subdivide(e)).map_err(|x| format!("Subdivide({}): {}", e, x))?;
            // an edge whose twin was not subdivided has nothing to fix
            let mut m = n.mesh.clone();
            ensure!(m.subdivide_unsafe_try_fixup(e as u16, Tag(9)).is_none(), "fixup of edge {} found something to fix", e);
            ensure!(snap(&m)? == n.raw, "a fixup that does nothing changed the mesh");
        }
        Ok(())
    });
}

fn bfs(r: &Raw, s: u32) -> BTreeMap<u32, usize> {
    let mut d = BTreeMap::new();
    d.insert(s, 0);
    let mut q = VecDeque::from([s]);
    while let Some(x) = q.pop_front() {
        for e in r.out_edges(x) {
            let t = r.target(e);
            if !d.contains_key(&t) {
                d.insert(t, d[&x] + 1);
                q.push_back(t);
            }
        }
    }
    d
}
fn paths(m: &TagMesh, r: &Raw) -> Result<(), String> {
    for a in r.vids() {
        let d = bfs(r, a);
        for c in r.vids() {
            match m.shortest_path(a, c) {
                None => ensure!(!d.contains_key(&c), "no path from {} to {} found but distance is {}", a, c, d[&c]),
                Some(p) => {
                    ensure!(d.contains_key(&c), "path {:?} between unconnected {} and {}", p, a, c);
                    ensure!(p.first() == Some(&a) && p.last() == Some(&c), "path from {} to {} is {:?}", a, c, p);
                    for w in p.windows(2) {
                        ensure!(r.find(w[0], w[1]).is_some(), "path {:?} uses missing edge", p);
                    }
                    ensure!(p.len() == d[&c] + 1, "path {:?} has {} steps, shortest has {}", p, p.len() - 1, d[&c]);
                }
            }
        }
    }
    Ok(())
}
pub fn n01(ctx: &Ctx) {
    let b = gen(ctx.b(6, 7), ctx.b(6, 7), ctx.b(10, 12));
    bound(ctx, &b);
    everywhere(ctx, &b, 8, &|n| {
        ctx.sample(|| path_key(&n.path));
        ctx.traces.fetch_add(1, SeqCst);
        paths(&n.mesh, &n.raw)
    });
    // larger families: all graphs consisting of a cycle of length k with one chord, and ladders
    let kmax = ctx.b(10, 16);
    ctx.bound("families", format!("cycles up to {} vertices with every chord and every pendant path", kmax));
    for k in 3..=kmax {
        for a in 0..k {
            for c in 0..k {
                ctx.case(
                    || format!("cycle {} chord {} {}", k, a, c),
                    || {
                        let mut m = TagMesh::new();
                        let first = MeshBuilder::insert_loop(&mut m, (0..k).map(|i| Tag(i as u32 + 1)));
                        let _ = first;
                        let r = snap(&m)?;
                        let (va, vc) = (a as u32, c as u32);
                        if va != vc && r.find(va, vc).is_none() {
                            let ins = r.eids().into_iter().find(|e| r.target(*e) == va).unwrap();
                            let outs = r.lp(ins).into_iter().find(|e| r.target(*e) == vc).unwrap();
                            m.insert_edge(ins as u16, Tag(1), outs as u16, Tag(2));
                        }
                        // pendant path of length 2 at a
                        let r = snap(&m)?;
                        let e = r.eids().into_iter().find(|e| r.target(*e) == va).unwrap();
                        let (_, e1, e2) = m.add_vertex_via_edge(e as u16, r.next(e) as u16, Tag(90), Tag(1), Tag(1));
                        m.add_vertex_via_edge(e1, e2, Tag(91), Tag(1), Tag(1));
                        m.add_vertex(Tag(92));
                        ctx.states.fetch_add(1, SeqCst);
                        ctx.traces.fetch_add(1, SeqCst);
                        paths(&m, &snap(&m)?)
                    },
                );
            }
        }
    }
}

/// exactly representable positions with integer mutual distances along the axes
fn pos3(v: u32) -> Vec3<f64> {
    Vec3::new((v * v % 7) as f64, (3 * v % 5) as f64, v as f64)
}
pub fn realize3(r: &Raw) -> Mesh3d64 {
    realize_like::<MeshType3d64PNU>(r, |v| VertexPayloadPNU::from_pos(pos3(v)), |_| Default::default(), |_| Default::default())
}
fn dense_v(r: &Raw) -> bool {
    (0..r.nv() as u32).eq(r.vids())
}

pub fn n02(ctx: &Ctx) {
    let b = gen(ctx.b(6, 7), ctx.b(6, 7), ctx.b(10, 12));
    bound(ctx, &b);
    everywhere(ctx, &b, 8, &|n| {
        ctx.sample(|| path_key(&n.path));
        ctx.traces.fetch_add(1, SeqCst);
        let r = &n.raw;
        let nv = r.nv();
        let adj = |i: usize, j: usize| r.find(i as u32, j as u32).is_some();
        let deg = |i: usize| r.out_edges(i as u32).len();
        let a = n.mesh.adjacency_matrix::<f64>();
        let dm = n.mesh.degree_matrix::<f32>();
        let l = n.mesh.laplacian::<f64>();
        let ds: Vec<(u32, usize)> = n.mesh.degrees().collect();
        ensure!(ds == (0..nv as u32).map(|v| (v, deg(v as usize))).collect::<Vec<_>>(), "degrees: {:?}", ds);
        let m3 = realize3(r);
        let ae = m3.adjacency_matrix_euclidean::<3>();
        let le = m3.laplacian_euclidean::<3>();
        for (w, s) in [("adjacency", a.shape()), ("degree", dm.shape()), ("laplacian", l.shape()), ("weighted adjacency", ae.shape()), ("weighted laplacian", le.shape())] {
            ensure!(s == (nv, nv), "{} matrix has shape {:?}", w, s);
        }
        for i in 0..nv {
            let mut rowsum = 0.0;
            for j in 0..nv {
                let c = adj(i, j);
                ensure!(a[(i, j)] == if c { 1.0 } else { 0.0 }, "adjacency({},{}) = {}", i, j, a[(i, j)]);
                ensure!(dm[(i, j)] == if i == j { deg(i) as f32 } else { 0.0 }, "degree({},{}) = {}", i, j, dm[(i, j)]);
                let want = if i == j { deg(i) as f64 } else if c { -1.0 } else { 0.0 };
                ensure!(l[(i, j)] == want, "laplacian({},{}) = {}", i, j, l[(i, j)]);
                let d = (pos3(i as u32) - pos3(j as u32)).norm();
                let w = if c { d } else { 0.0 };
                ensure!((ae[(i, j)] - w).abs() < 1e-12, "weighted adjacency({},{}) = {}, expected {}", i, j, ae[(i, j)], w);
                if i != j {
                    ensure!((le[(i, j)] + w).abs() < 1e-12, "weighted laplacian({},{}) = {}, expected {}", i, j, le[(i, j)], -w);
                }
                rowsum += le[(i, j)];
            }
            ensure!(rowsum.abs() < 1e-9, "weighted laplacian row {} sums to {}", i, rowsum);
        }
        Ok(())
    });
}

fn cycles(r: &Raw, pv: &dyn Fn(u32) -> u32) -> Vec<Vec<u32>> {
    let mut c: Vec<Vec<u32>> = r
        .fids()
        .iter()
        .map(|f| {
            let l: Vec<u32> = r.lp(r.ff(*f).edge).iter().map(|e| pv(r.origin(*e))).collect();
            // least rotation
            (0..l.len()).map(|i| l[i..].iter().chain(&l[..i]).copied().collect::<Vec<_>>()).min().unwrap()
        })
        .collect();
    c.sort();
    c
}
fn edge_set(r: &Raw, pv: &dyn Fn(u32) -> u32) -> BTreeSet<(u32, u32)> {
    r.eids().iter().map(|e| (pv(r.origin(*e)), pv(r.target(*e)))).collect()
}

/// the comparison functions handed to the isomorphism checks: they are asked for exactly the corresponding elements,
/// and rejecting a single pair makes the meshes different
fn comparators(ctx: &Ctx, l: &[(String, Raw)]) {
    ctx.par(l.len() as u64, 1, |i| {
        // the big ones first
        let (name, r) = &l[l.len() - 1 - i as usize];
        let huge = r.nv() > 34;
        for k in if huge { 1..2 } else { 0..3 } {
            let s = if k == 2 { r.clone() } else { scramble(r, k) };
            let key = |w: &str| format!("{} copy {} compared with {}", name, k, w);
            let a = realize_ids::<TagMT>(r, |v| Tag(r.vv(v).tag), |e| Tag(r.ee(e).tag), |f| Tag(r.ff(f).tag));
            let b = realize_ids::<TagMT>(&s, |v| Tag(s.vv(v).tag), |e| Tag(s.ee(e).tag), |f| Tag(s.ff(f).tag));
            let iso = |x: &TagMesh, y: &TagMesh| x.find_payload_isomorphism::<TagMT, _>(y, |p, q| p.payload() == q.payload());
            ctx.case(
                || key("everything"),
                || {
                    for (x, y, rx, ry) in [(&a, &b, r, &s), (&b, &a, &s, r)] {
                        let m = iso(x, y)?;
                        ensure!(m.iter().count() == rx.nv(), "the vertex mapping has {} entries", m.iter().count());
                        for (v, w) in m.iter() {
                            ensure!(rx.vv(*v as u32).tag == ry.vv(*w as u32).tag, "vertex {} is mapped to {}", v, w);
                            ensure!(m.get(*v) == Some(w) && m.has(*v), "get({})", v);
                        }
                        let seen = std::cell::RefCell::new((BTreeSet::new(), BTreeSet::new(), BTreeSet::new()));
                        let d = x.is_isomorphic::<TagMT, _, _, _>(
                            y,
                            &m,
                            |p, q| {
                                seen.borrow_mut().0.insert(p.payload().0);
                                p.payload() == q.payload()
                            },
                            |p, q| {
                                seen.borrow_mut().1.insert(p.payload().0);
                                p.payload() == q.payload()
                            },
                            |p, q| {
                                seen.borrow_mut().2.insert(p.payload().0);
                                p.payload() == q.payload()
                            },
                        );
                        ensure!(d.eq() && !d.ne(), "reported {:?} for a renumbered copy", d);
                        let sn = seen.into_inner();
                        ensure!(sn.0.len() == rx.nv() && sn.1.len() == rx.ne() && sn.2.len() == rx.nf(), "compared {} vertices, {} halfedges, {} faces", sn.0.len(), sn.1.len(), sn.2.len());
                    }
                    let mut c = b.clone();
                    let nv = r.nv();
                    if nv > 0 {
                        let id = c.vertices().nth(nv / 2).unwrap().id();
                        *c.vertex_mut(id).payload_mut() = Tag(99999);
                        ensure!(iso(&a, &c).is_err(), "a vertex without partner is mapped");
                    }
                    // two vertices with the same partner
                    let vt: Vec<u32> = r.vids().iter().map(|v| r.vv(*v).tag).collect();
                    for (i, v) in vt.iter().enumerate() {
                        for (j, w) in vt.iter().enumerate() {
                            if i == j || nv > 30 && (i * 7 + j * 3) % (nv * nv / 100) != 0 {
                                continue;
                            }
                            let d = a.find_payload_isomorphism::<TagMT, _>(&b, |p, q| if p.payload().0 == *w { q.payload().0 == *v } else { p.payload() == q.payload() });
                            ensure!(d.is_err(), "the vertices {} and {} are mapped to the same one", v, w);
                            ctx.transitions.fetch_add(1, SeqCst);
                        }
                    }
                    if nv > 1 {
                        ensure!(a.find_payload_isomorphism::<TagMT, _>(&b, |_, _| true).is_err(), "all vertices are mapped to the same one");
                    }
                    Ok(())
                },
            );
            let m = match iso(&a, &b) {
                Ok(m) => m,
                Err(_) => continue,
            };
            let any = |t: u32, x: u32| x != t;
            for v in r.vids() {
                let t = r.vv(v).tag;
                ctx.case(
                    || key(&format!("vertex {} rejected", v)),
                    || {
                        ctx.transitions.fetch_add(1, SeqCst);
                        let d = a.is_isomorphic::<TagMT, _, _, _>(&b, &m, |p, _| any(t, p.payload().0), |_, _| true, |_, _| true);
                        ensure!(matches!(d, MeshEquivalenceDifference::DifferentVertices(x, y) if x as u32 == v && s.vv(y as u32).tag == t), "reported {:?}", d);
                        let d = a.is_isomorphic_by::<TagMT, _>(&b, |p, q| p.payload() == q.payload() && p.payload().0 != t);
                        ensure!(!d.eq(), "a vertex without partner is reported as {:?}", d);
                        Ok(())
                    },
                );
            }
            for e in r.eids() {
                let t = r.ee(e).tag;
                ctx.case(
                    || key(&format!("halfedge {} rejected", e)),
                    || {
                        ctx.transitions.fetch_add(1, SeqCst);
                        let d = a.is_isomorphic::<TagMT, _, _, _>(&b, &m, |_, _| true, |p, _| any(t, p.payload().0), |_, _| true);
                        ensure!(matches!(d, MeshEquivalenceDifference::DifferentEdges(x, y) if x as u32 == e && s.ee(y as u32).tag == t), "reported {:?}", d);
                        Ok(())
                    },
                );
            }
            for f in r.fids() {
                let t = r.ff(f).tag;
                ctx.case(
                    || key(&format!("face {} rejected", f)),
                    || {
                        ctx.transitions.fetch_add(1, SeqCst);
                        let d = a.is_isomorphic::<TagMT, _, _, _>(&b, &m, |_, _| true, |_, _| true, |p, _| any(t, p.payload().0));
                        ensure!(matches!(d, MeshEquivalenceDifference::DifferentFaces(x, y) if x as u32 == f && s.ff(y as u32).tag == t), "reported {:?}", d);
                        Ok(())
                    },
                );
            }
        }
        // identical ids
        let a = realize_ids::<TagMT>(r, |v| Tag(r.vv(v).tag), |e| Tag(r.ee(e).tag), |f| Tag(r.ff(f).tag));
        let ex = |c: &TagMesh, no: u32| {
            let cmp = |x: &Tag, y: &Tag| x == y && x.0 != no;
            a.is_trivially_isomorphic_ex(c, |x, y| cmp(x.payload(), y.payload()), |x, y| cmp(x.payload(), y.payload()), |x, y| cmp(x.payload(), y.payload()))
        };
        ctx.case(
            || format!("{} compared with itself by payload", name),
            || {
                ensure!(ex(&a.clone(), 0).eq(), "reported {:?}", ex(&a, 0));
                for t in r.vids().iter().map(|v| r.vv(*v).tag).chain(r.eids().iter().map(|e| r.ee(*e).tag)).chain(r.fids().iter().map(|f| r.ff(*f).tag)) {
                    let d = ex(&a, t);
                    ensure!(!d.eq(), "equal although the elements with payload {} differ", t);
                    let at = match d {
                        MeshEquivalenceDifference::DifferentVertices(x, y) if x == y => r.vv(x as u32).tag,
                        MeshEquivalenceDifference::DifferentEdges(x, y) if x == y => r.ee(x as u32).tag,
                        MeshEquivalenceDifference::DifferentFaces(x, y) if x == y => r.ff(x as u32).tag,
                        d => return Err(format!("reported {:?} for payload {}", d, t)),
                    };
                    ensure!(at == t, "reported a difference at payload {} instead of {}", at, t);
                    ctx.transitions.fetch_add(1, SeqCst);
                }
                Ok(())
            },
        );
        // identical ids, positions and control points
        let at = |v: u32| Vec2::new((v * v % 7) as f64, v as f64);
        let q = |e: u32, d: f64| Vec2::new(e as f64 + d, 1.0 - d);
        let kind = |e: u32, k: u32, d: (f64, f64)| match (e + k) % 3 {
            0 => CurvedEdgeType::Linear,
            1 => CurvedEdgeType::QuadraticBezier(q(e, d.0)),
            // beyond 3 both control points at the same place
            _ => CurvedEdgeType::CubicBezier(q(e, d.0), q(if k < 3 { e + 1 } else { e }, d.1)),
        };
        let base = realize_ids::<MeshType2d64PNUCurved>(r, |v| VertexPayloadPNU::from_pos(at(v)), |_| Default::default(), |_| Default::default());
        for off in if huge { 2..4u32 } else { 0..6u32 } {
            ctx.case(
                || format!("{} with curves {} compared", name, off),
                || {
                    let mut x = base.clone();
                    for e in r.eids() {
                        x.edge_mut(e as usize).set_curve_type(kind(e, off, (0.0, 0.0)));
                    }
                    let eq = |y: &Mesh2d64Curved| x.is_trivially_isomorphic_pos_curved::<2>(y, 1e-3).eq() && y.is_trivially_isomorphic_pos_curved::<2>(&x, 1e-3).eq();
                    let ne = |y: &Mesh2d64Curved| !x.is_trivially_isomorphic_pos_curved::<2>(y, 1e-3).eq() && !y.is_trivially_isomorphic_pos_curved::<2>(&x, 1e-3).eq();
                    ensure!(eq(&x.clone()), "different from itself");
                    for e in r.eids() {
                        let mut y = x.clone();
                        let mut with = |k: u32, d: (f64, f64)| {
                            y.edge_mut(e as usize).set_curve_type(kind(e, k, d));
                            (eq(&y), ne(&y))
                        };
                        ensure!(with(off, (9e-4, -9e-4)) == (true, false), "halfedge {}: control points within the tolerance are different", e);
                        ensure!((1..3).all(|k| with(off / 3 * 3 + (off + k) % 3, (0.0, 0.0)) == (false, true)), "halfedge {}: another type of curve is equal", e);
                        let bezier = (e + off) % 3;
                        if bezier > 0 {
                            ensure!(with(off, (1.5e-3, 0.0)) == (false, true) && with(off, (0.1, 0.0)) == (false, true), "halfedge {}: moved first control point is equal", e);
                        }
                        if bezier == 2 {
                            ensure!(with(off, (0.0, -1.5e-3)) == (false, true) && with(off, (0.0, 0.1)) == (false, true), "halfedge {}: moved second control point is equal", e);
                        }
                        ctx.transitions.fetch_add(5, SeqCst);
                    }
                    for v in r.vids() {
                        let mut y = x.clone();
                        for (d, same) in [(0.1, false), (1.5e-3, false), (-1.5e-3, false), (9e-4, true), (-1e-4, true)] {
                            for by in [Vec2::new(0.0, d), Vec2::new(d, 0.0), Vec2::new(d, -d)] {
                                y.vertex_mut(v as usize).payload_mut().set_pos(at(v) + by);
                                ensure!(if same { eq(&y) } else { ne(&y) }, "vertex {} moved by {}, expected equal: {}", v, d, same);
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    });
}

pub fn n03(ctx: &Ctx) {
    let b = gen(ctx.b(6, 6), ctx.b(6, 7), ctx.b(11, 12));
    bound(ctx, &b);
    let all: std::sync::Mutex<Vec<(String, Raw, TagMesh)>> = Default::default();
    explore(ctx, &b, false, &|n| {
        all.lock().unwrap().push((path_key(&n.path), n.raw.clone(), n.mesh.clone()));
        Ok(())
    });
    let mut all = all.into_inner().unwrap();
    all.sort_by(|a, b| a.0.len().cmp(&b.0.len()).then(a.0.cmp(&b.0)));
    // one entry per (structure without representatives)
    let mut seen = BTreeSet::new();
    all.retain(|(_, r, _)| seen.insert(r.canon(false)) && dense_v(r));
    ctx.count("meshes compared pairwise", all.len() as u64);
    let real: Vec<TagMesh> = all.iter().map(|(_, r, _)| realize::<TagMT>(r, |v| Tag(v + 1), |_| Tag(0), |_| Tag(0))).collect();
    let n = all.len() as u64;
    ctx.par(n, 1, |i| {
        let (ka, ra, oa) = &all[i as usize];
        for j in 0..n {
            let (kb, rb, ob) = &all[j as usize];
            // with different counts one comparison is enough
            let same_counts = ra.nv() == rb.nv() && ra.ne() == rb.ne() && ra.nf() == rb.nf();
            let perms = if same_counts { permutations(ra.nv()) } else { vec![(0..ra.nv().max(rb.nv()) as u32).collect()] };
            for p in perms {
                ctx.transitions.fetch_add(1, SeqCst);
                ctx.case(
                    || format!("{} ~ {} by {:?}", ka, kb, p),
                    || {
                        let want = same_counts
                            && edge_set(ra, &|v| p[v as usize]) == edge_set(rb, &|v| v)
                            && cycles(ra, &|v| p[v as usize]) == cycles(rb, &|v| v);
                        let f = |a: &HalfEdgeVertexImpl<TagMT>, c: &HalfEdgeVertexImpl<TagMT>| p[(a.payload().0 - 1) as usize] + 1 == c.payload().0;
                        let got = real[i as usize].is_isomorphic_by::<TagMT, _>(&real[j as usize], f).eq();
                        ensure!(got == want, "reported {} but expected {}", got, want);
                        if same_counts {
                            ctx.count(if want { "isomorphic pairs" } else { "non-isomorphic pairs" }, 1);
                        }
                        ctx.traces.fetch_add(1, SeqCst);
                        Ok(())
                    },
                );
            }
            // by position, in 3d
            if same_counts {
                ctx.case(
                    || format!("{} ~pos {}", ka, kb),
                    || {
                        let (a, c) = (realize3(ra), realize3(rb));
                        let want = edge_set(ra, &|v| v) == edge_set(rb, &|v| v) && cycles(ra, &|v| v) == cycles(rb, &|v| v);
                        let got = a.is_isomorphic_by_pos::<f64, 3, Vec3<f64>, MeshType3d64PNU>(&c, 1e-6).eq();
                        ensure!(got == want, "by position: reported {} but expected {}", got, want);
                        let got = a.is_isomorphic_pos::<3, f64, Vec3<f64>>(&c, 1e-6).eq();
                        ensure!(got == want, "is_isomorphic_pos: reported {} but expected {}", got, want);
                        let mut moved = realize3(rb);
                        if let Some(v) = moved.vertices_mut().last() {
                            let q = v.pos() + Vec3::new(0.0, 0.0, 0.25);
                            v.payload_mut().set_pos(q);
                            let got = a.is_isomorphic_by_pos::<f64, 3, Vec3<f64>, MeshType3d64PNU>(&moved, 1e-6).eq();
                            ensure!(!got, "reported isomorphic by position although a vertex moved");
                        }
                        Ok(())
                    },
                );
            }
            // identical ids
            ctx.case(
                || format!("{} == {}", ka, kb),
                || {
                    let strip = |r: &Raw| {
                        let mut r = r.clone();
                        r.v.iter_mut().flatten().for_each(|v| v.tag = 0);
                        r.f.iter_mut().flatten().for_each(|f| f.curved = false);
                        r
                    };
                    // edge ids renumbered compactly, and as numbered by the construction history
                    for (x, y) in [(&real[i as usize], &real[j as usize]), (oa, ob), (oa, &real[j as usize])] {
                        let (mut sx, mut sy) = (strip(&snap(x)?), strip(&snap(y)?));
                        for r in [&mut sx, &mut sy] {
                            r.e.iter_mut().flatten().for_each(|e| e.tag = 0);
                            r.f.iter_mut().flatten().for_each(|e| e.tag = 0);
                        }
                        let want = sx.same_as(&sy).is_ok();
                        let got = x.is_trivially_isomorphic(y).eq();
                        ensure!(got == want, "identical-ids comparison reports {} but expected {}", got, want);
                        ctx.count(if want { "identical pairs" } else { "non-identical pairs" }, 1);
                    }
                    Ok(())
                },
            );
        }
    });
    // larger meshes against renumbered copies of which two vertices were exchanged
    let h = huge(ctx.thorough);
    ctx.bound("huge meshes", format!("{}: against renumbered copies with vertices exchanged or moved, faces missing, thinned out", h.len()));
    let l: Vec<(String, Raw)> = h.into_iter().chain(larger(ctx.b(7, 9))).collect();
    ctx.bound("larger meshes", format!("{}: against renumbered copies with every pair of vertices exchanged, every face missing", l.len()));
    ctx.par(l.len() as u64, 1, |i| {
        let (name, r) = &l[i as usize];
        let a = realize3(r);
        let nv = r.nv() as u32;
        for x in 0..nv {
            if nv > 34 && x % 7 != 0 {
                continue;
            }
            for y in x..nv.min(if x == 0 && nv <= 34 { nv } else { x + 4 }) {
                ctx.case(
                    || format!("{} exchanged {} {}", name, x, y),
                    || {
                        let sw = |v: u32| if v == x { y } else if v == y { x } else { v };
                        // tags tell which vertex of `r` a vertex of the copy is
                        for k in 0..2 {
                            let s = scramble(r, k);
                            let of = |v: u32| s.vv(v).tag - 100;
                            let c = realize_ids::<MeshType3d64PNU>(&s, |v| VertexPayloadPNU::from_pos(pos3(sw(of(v)))), |_| Default::default(), |_| Default::default());
                            let want = edge_set(r, &|v| v) == edge_set(&s, &|v| sw(of(v))) && cycles(r, &|v| v) == cycles(&s, &|v| sw(of(v)));
                            let got = a.is_isomorphic_by_pos::<f64, 3, Vec3<f64>, MeshType3d64PNU>(&c, 1e-6).eq();
                            ensure!(got == want, "by position: reported {} but expected {}", got, want);
                            let got = c.is_isomorphic_by_pos::<f64, 3, Vec3<f64>, MeshType3d64PNU>(&a, 1e-6).eq();
                            ensure!(got == want, "by position, other way round: reported {} but expected {}", got, want);
                            ctx.count(if want { "isomorphic pairs" } else { "non-isomorphic pairs" }, 1);
                            ctx.transitions.fetch_add(2, SeqCst);
                        }
                        Ok(())
                    },
                );
            }
        }
        for v in (0..nv).step_by(if nv > 34 { 5 } else { 1 }) {
            ctx.case(
                || format!("{} with vertex {} moved", name, v),
                || {
                    let s = scramble(r, v as usize % 2);
                    let of = |v: u32| s.vv(v).tag - 100;
                    for (d, same) in [(1.5e-3, false), (-1.5e-3, false), (9e-4, true), (-9e-4, true)] {
                        for k in 0..3 {
                            let mut by = [0.0; 3];
                            by[k] = d;
                            let by = Vec3::new(by[0], by[1], by[2]);
                            let at = |u: u32| if of(u) == v { pos3(of(u)) + by } else { pos3(of(u)) };
                            let c = realize_ids::<MeshType3d64PNU>(&s, |u| VertexPayloadPNU::from_pos(at(u)), |_| Default::default(), |_| Default::default());
                            let got = [a.is_isomorphic_by_pos::<f64, 3, Vec3<f64>, MeshType3d64PNU>(&c, 1e-3).eq(), c.is_isomorphic_by_pos::<f64, 3, Vec3<f64>, MeshType3d64PNU>(&a, 1e-3).eq(), a.is_isomorphic_pos::<3, f64, Vec3<f64>>(&c, 1e-3).eq()];
                            ensure!(got == [same; 3], "moved by {} along axis {}: reported {:?} with tolerance 0.001", d, k, got);
                            ctx.transitions.fetch_add(1, SeqCst);
                        }
                    }
                    Ok(())
                },
            );
        }
        let edges = |r: &Raw| edge_set(r, &|v| v);
        for f in r.fids().into_iter().step_by(if nv > 34 { 9 } else { 1 }) {
            ctx.case(
                || format!("{} without face {}", name, f),
                || {
                    let mut c = realize3(r);
                    MeshBuilder::<MeshType3d64PNU>::remove_face(&mut c, f as usize);
                    let g = snap_with::<MeshType3d64PNU>(&c, |_| 0, |_| 0, |_| 0)?;
                    ensure!(edges(r) == edges(&g), "removing a face changed the edges");
                    let got = a.is_isomorphic_by_pos::<f64, 3, Vec3<f64>, MeshType3d64PNU>(&c, 1e-6).eq();
                    ensure!(!got, "isomorphic by position although a face is missing");
                    let got = c.is_isomorphic_by_pos::<f64, 3, Vec3<f64>, MeshType3d64PNU>(&a, 1e-6).eq();
                    ensure!(!got, "isomorphic by position although the other one lacks a face");
                    let got = c.is_trivially_isomorphic(&a).eq() || a.is_trivially_isomorphic(&c).eq();
                    ensure!(!got, "identical ids although a face is missing");
                    ctx.transitions.fetch_add(4, SeqCst);
                    Ok(())
                },
            );
        }
    });
    let tagged: Vec<(String, Raw)> = all
        .iter()
        .map(|(k, r, _)| {
            let mut r = r.clone();
            r.v.iter_mut().flatten().enumerate().for_each(|(i, v)| v.tag = 100 + i as u32);
            r.e.iter_mut().flatten().enumerate().for_each(|(i, e)| e.tag = 300 + i as u32);
            r.f.iter_mut().flatten().enumerate().for_each(|(i, f)| f.tag = 700 + i as u32);
            (k.clone(), r)
        })
        .chain(l.iter().rev().cloned())
        .collect();
    comparators(ctx, &tagged);
    // the identical-ids comparison on all id permutations of small meshes
    let small: Vec<&(String, Raw, TagMesh)> = all.iter().filter(|(_, r, _)| r.ne() <= 6 && r.nv() <= 4 && r.ne() > 0).collect();
    ctx.par(small.len() as u64, 1, |i| {
        let (k, r, _) = small[i as usize];
        let base = realize3(r);
        let strip = |m: &Mesh3d64| snap_with::<MeshType3d64PNU>(m, |_| 0, |_| 0, |_| 0);
        for pv in permutations(r.nv()) {
            for pp in permutations(r.ne() / 2) {
                for flip in 0..(1u32 << (r.ne() / 2)) {
                    ctx.case(
                        || format!("{} renamed v{:?} e{:?} flip{:b}", k, pv, pp, flip),
                        || {
                            // raw ids of pairs are 2k, 2k+1 in `realize` order
                            let rr = strip(&base)?;
                            let pe: Vec<u32> = (0..r.ne() as u32).map(|e| 2 * pp[(e / 2) as usize] + ((e & 1) ^ (flip >> (e / 2) & 1))).collect();
                            let x = permute(&rr, &pv, &pe);
                            let m2 = realize::<MeshType3d64PNU>(&x, |v| VertexPayloadPNU::from_pos(pos3(v)), |_| Default::default(), |_| Default::default());
                            let got = base.is_trivially_isomorphic(&m2).eq();
                            let want = rr.same_as(&strip(&m2)?).is_ok();
                            ensure!(got == want, "identical-ids comparison reports {} but expected {}", got, want);
                            let got = base.is_trivially_isomorphic_pos::<3, f64, Vec3<f64>>(&m2, 1e-6).eq();
                            ensure!(got == want, "identical-ids-and-positions comparison reports {} but expected {}", got, want);
                            // with the positions renamed too, the meshes are isomorphic by position
                            let m3 = realize::<MeshType3d64PNU>(
                                &x,
                                |v| VertexPayloadPNU::from_pos(pos3(pv.iter().position(|q| *q == v).unwrap() as u32)),
                                |_| Default::default(),
                                |_| Default::default(),
                            );
                            let got = base.is_isomorphic_by_pos::<f64, 3, Vec3<f64>, MeshType3d64PNU>(&m3, 1e-6).eq();
                            ensure!(got, "a renamed copy is not isomorphic by position");
                            let got = base.is_isomorphic_pos::<3, f64, Vec3<f64>>(&m3, 1e-6).eq();
                            ensure!(got, "a renamed copy is not isomorphic according to is_isomorphic_pos");
                            ctx.transitions.fetch_add(1, SeqCst);
                            Ok(())
                        },
                    );
                }
            }
        }
    });
}

fn realize_curved(r: &Raw) -> Mesh2d64Curved {
    realize_like::<MeshType2d64PNUCurved>(r, |v| VertexPayloadPNU::from_pos(Vec2::new((v * v % 7) as f64, v as f64)), |_| Default::default(), |_| Default::default())
}
fn same_conv<const D: usize>(r: &Raw, m: &MeshNd64<D>) -> Result<(), String>
where
    MeshTypeNd64PNU<D>: HalfEdgeImplMeshType<Mesh = MeshNd64<D>, VP = VertexPayloadPNU<f64, D>>,
{
    let g = snap_with::<MeshTypeNd64PNU<D>>(m, |_| 0, |_| 0, |_| 0)?;
    g.validate()?;
    // faces may be renumbered compactly, in order
    let fids = r.fids();
    ensure!(g.fids() == (0..fids.len() as u32).collect::<Vec<_>>() || g.fids() == fids, "faces {:?} became {:?}", fids, g.fids());
    let fm: BTreeMap<u32, u32> = fids.iter().copied().zip(g.fids()).collect();
    let mut x = r.clone();
    let mut nf = vec![None; g.f.len()];
    for f in &fids {
        nf[fm[f] as usize] = x.f[*f as usize];
    }
    x.f = nf;
    for e in x.e.iter_mut().flatten() {
        e.tag = 0;
        if e.face != NONE {
            e.face = fm[&e.face];
        }
    }
    for f in x.f.iter_mut().flatten() {
        f.tag = 0;
    }
    for v in x.v.iter_mut().flatten() {
        v.tag = 0;
    }
    x.same_as(&g)?;
    for v in MeshBasics::<MeshTypeNd64PNU<D>>::vertices(m) {
        let p = *v.payload().pos();
        let id = ix(VertexBasics::<MeshTypeNd64PNU<D>>::id(v)) as u32;
        let mut want = vec![0.0; D];
        want[0] = (id * id % 7) as f64;
        want[1] = id as f64;
        for k in 0..D {
            ensure!(p[k] == want[k], "vertex {} coordinate {} is {} instead of {}", id, k, p[k], want[k]);
        }
    }
    Ok(())
}
pub fn c01(ctx: &Ctx) {
    let mut b = gen(ctx.b(6, 7), ctx.b(6, 6), ctx.b(10, 12));
    b.al.curved = true;
    bound(ctx, &b);
    ctx.bound("targets", "2, 3, 4 and 10 dimensions");
    everywhere(ctx, &b, 12, &|n| {
        ctx.sample(|| path_key(&n.path));
        if !dense_v(&n.raw) {
            return Ok(());
        }
        let m = realize_curved(&n.raw);
        let r = snap_with::<MeshType2d64PNUCurved>(&m, |_| 0, |_| 0, |_| 0)?;
        r.validate()?;
        ctx.traces.fetch_add(1, SeqCst);
        ctx.transitions.fetch_add(4, SeqCst);
        same_conv::<2>(&r, &m.to_nd::<2>(0.1)).map_err(|e| format!("to 2d: {}", e))?;
        same_conv::<3>(&r, &m.to_nd::<3>(0.1)).map_err(|e| format!("to 3d: {}", e))?;
        same_conv::<4>(&r, &m.to_nd::<4>(0.1)).map_err(|e| format!("to 4d: {}", e))?;
        same_conv::<10>(&r, &m.to_nd::<10>(0.1)).map_err(|e| format!("to 10d: {}", e))?;
        ensure!(snap_with::<MeshType2d64PNUCurved>(&m, |_| 0, |_| 0, |_| 0)? == r, "conversion changed its source");
        Ok(())
    });
}
