//! Builder operations on the real mesh and on the reference combinatorial map.
use crate::topo::*;
use procedural_modelling::prelude::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    AddVertex,
    IsolatedEdge,
    ViaVertex(u32),
    ViaVertexDefault(u32),
    ViaEdge(u32, u32),
    ViaEdgeDefault(u32, u32),
    EdgeBetween(u32, u32),
    InsertEdge(u32, u32),
    InsertEdgeNoCheck(u32, u32),
    CloseFace(u32, u32, bool),
    CloseFaceDefault(u32, u32, bool),
    CloseFaceVertices(u32, u32, u32, bool),
    CloseFaceVerticesDefault(u32, u32, u32, bool),
    CloseHole(u32, bool),
    CloseHoleDefault(u32),
    RemoveFace(u32),
    SplitEdge(u32, usize),
    Subdivide(u32),
    Path(usize),
    Loop(usize),
    FlipEdge(u32),
    FlipAll,
    Clear,
}

#[derive(Clone, Copy)]
pub struct Alphabet {
    pub defaults: bool,
    pub split: usize,
    pub subdivide: bool,
    pub path: usize,
    pub loops: usize,
    pub flips: bool,
    pub clear: bool,
    pub no_check: bool,
    pub curved: bool,
}
impl Alphabet {
    pub fn generate_only() -> Self {
        Alphabet { defaults: false, split: 0, subdivide: false, path: 0, loops: 0, flips: false, clear: false, no_check: true, curved: false }
    }
    pub fn all() -> Self {
        Alphabet { defaults: true, split: 2, subdivide: true, path: 4, loops: 5, flips: true, clear: true, no_check: true, curved: true }
    }
}

/// All operations permitted (by the documented preconditions) in this state.
pub fn enabled(r: &Raw, al: &Alphabet, max_v: usize, max_e: usize) -> Vec<Op> {
    let mut o = vec![];
    let (nv, ne) = (r.nv(), r.ne() / 2);
    let comps = r.components();
    let vids = r.vids();
    let eids = r.eids();
    if nv < max_v {
        o.push(Op::AddVertex);
    }
    if nv + 2 <= max_v && ne < max_e {
        o.push(Op::IsolatedEdge);
    }
    if nv < max_v && ne < max_e {
        for &v in &vids {
            let out = r.out_edges(v);
            let b = r.boundary_out(v);
            // exactly one edge, or exactly one boundary corner
            if b.len() == 1 && !(out.len() == 1 && b.len() != 1) {
                o.push(Op::ViaVertex(v));
                if al.defaults {
                    o.push(Op::ViaVertexDefault(v));
                }
            }
        }
        for &e in &eids {
            if r.face(e) == NONE {
                o.push(Op::ViaEdge(e, r.next(e)));
                if al.defaults {
                    o.push(Op::ViaEdgeDefault(e, r.next(e)));
                }
            }
        }
    }
    if ne < max_e {
        for &v in &vids {
            for &w in &vids {
                if comps[&v] == comps[&w] {
                    continue;
                }
                let ok = |x: u32| r.vv(x).edge == NONE || r.boundary_out(x).len() == 1;
                if ok(v) && ok(w) {
                    o.push(Op::EdgeBetween(v, w));
                }
            }
        }
        for &a in &eids {
            if r.face(a) != NONE {
                continue;
            }
            let la = r.lp(a);
            for &b in &eids {
                if r.face(b) != NONE || a == b {
                    continue;
                }
                let (v, w) = (r.target(a), r.target(b));
                if v == w || r.find(v, w).is_some() {
                    continue;
                }
                if la.contains(&b) {
                    o.push(Op::InsertEdge(a, b));
                    o.push(Op::CloseFace(a, b, false));
                    if al.curved {
                        o.push(Op::CloseFace(a, b, true));
                    }
                    if al.defaults {
                        o.push(Op::CloseFaceDefault(a, b, true));
                    }
                    // the vertex-based variant is only unambiguous if a single boundary edge qualifies
                    let (p, f) = (r.origin(a), v);
                    let cand: Vec<u32> = eids
                        .iter()
                        .copied()
                        .filter(|x| r.target(*x) == w && r.face(*x) == NONE && r.lp(*x).iter().any(|y| r.origin(*y) == p))
                        .collect();
                    if cand.len() == 1 && cand[0] == b {
                        o.push(Op::CloseFaceVertices(p, f, w, false));
                        if al.defaults {
                            o.push(Op::CloseFaceVerticesDefault(p, f, w, true));
                        }
                    }
                }
                if al.no_check {
                    o.push(Op::InsertEdgeNoCheck(a, b));
                }
            }
        }
    }
    for &e in &eids {
        if r.face(e) == NONE && r.lp(e).len() >= 3 && r.nf() < 3 {
            o.push(Op::CloseHole(e, false));
            if al.curved {
                o.push(Op::CloseHole(e, true));
            }
            if al.defaults {
                o.push(Op::CloseHoleDefault(e));
            }
        }
        for k in 0..=al.split {
            if al.split > 0 && nv + k <= max_v && ne + k <= max_e {
                o.push(Op::SplitEdge(e, k));
            }
        }
        if al.subdivide && nv < max_v && ne < max_e {
            o.push(Op::Subdivide(e));
        }
        if al.flips {
            o.push(Op::FlipEdge(e));
        }
    }
    for f in r.fids() {
        o.push(Op::RemoveFace(f));
    }
    for k in 2..=al.path {
        if nv + k <= max_v && ne + k - 1 <= max_e {
            o.push(Op::Path(k));
        }
    }
    for k in 3..=al.loops {
        if nv + k <= max_v && ne + k <= max_e {
            o.push(Op::Loop(k));
        }
    }
    if al.flips {
        o.push(Op::FlipAll);
    }
    if al.clear && nv > 0 {
        o.push(Op::Clear);
    }
    o
}

fn fresh(r: &Raw) -> u32 {
    let mut m = 0;
    for t in r.v.iter().flatten().map(|x| x.tag).chain(r.e.iter().flatten().map(|x| x.tag)).chain(r.f.iter().flatten().map(|x| x.tag)) {
        m = m.max(t);
    }
    m + 1
}

/// Applies `op` to the real mesh and computes the expected snapshot from the specification,
/// using the ids the implementation returned. Does not compare yet.
pub fn apply(m: &mut TagMesh, pre: &Raw, op: &Op) -> Result<Raw, String> {
    let mut x = pre.clone();
    let t = fresh(pre);
    let (ta, tb, tc, td) = (Tag(t), Tag(t + 1), Tag(t + 2), Tag(t + 3));
    let e16 = |e: u32| e as u16;
    match op {
        Op::AddVertex => {
            let v = m.add_vertex(ta);
            x.add_v(v, t)?;
        }
        Op::IsolatedEdge => {
            let (a, b) = m.add_isolated_edge(ta, tb, tc, td);
            x.add_v(a, t)?;
            x.add_v(b, t + 2)?;
            let Some(h1) = m.shared_edge_id(a, b) else { return Err("new isolated edge not found from its first vertex".into()) };
            let Some(h2) = m.shared_edge_id(b, a) else { return Err("new isolated edge not found from its second vertex".into()) };
            x.ins_edge(ix(h1), t + 1, a, None, ix(h2), t + 3, b, None)?;
        }
        Op::ViaVertex(v) | Op::ViaVertexDefault(v) => {
            let def = matches!(op, Op::ViaVertexDefault(_));
            let (n, e1, e2) = if def { m.add_vertex_via_vertex_default(*v, ta) } else { m.add_vertex_via_vertex(*v, ta, tb, tc) };
            x.add_v(n, t)?;
            // the only boundary corner of v: the edge before its boundary out-edge
            let out = pre.boundary_out(*v)[0];
            let (p, q) = if def { (0, 0) } else { (t + 1, t + 2) };
            x.ins_edge(ix(e1), p, *v, Some(pre.prev(out)), ix(e2), q, n, None)?;
        }
        Op::ViaEdge(i, o) | Op::ViaEdgeDefault(i, o) => {
            let def = matches!(op, Op::ViaEdgeDefault(_, _));
            let (n, e1, e2) = if def {
                m.add_vertex_via_edge_default(e16(*i), e16(*o), ta)
            } else {
                m.add_vertex_via_edge(e16(*i), e16(*o), ta, tb, tc)
            };
            x.add_v(n, t)?;
            let (p, q) = if def { (0, 0) } else { (t + 1, t + 2) };
            x.ins_edge(ix(e1), p, pre.target(*i), Some(*i), ix(e2), q, n, None)?;
        }
        Op::EdgeBetween(v, w) => {
            let (e0, e1) = m.insert_edge_between(*v, ta, *w, tb);
            let c = |y: u32| pre.boundary_out(y).first().map(|o| pre.prev(*o));
            x.ins_edge(ix(e0), t, *v, c(*v), ix(e1), t + 1, *w, c(*w))?;
        }
        Op::InsertEdge(a, b) | Op::InsertEdgeNoCheck(a, b) => {
            let (e0, e1) = if matches!(op, Op::InsertEdge(..)) {
                m.insert_edge(e16(*a), ta, e16(*b), tb)
            } else {
                m.insert_edge_no_check(e16(*a), ta, e16(*b), tb)
            };
            x.ins_edge(ix(e0), t, pre.target(*a), Some(*a), ix(e1), t + 1, pre.target(*b), Some(*b))?;
        }
        Op::CloseFace(a, b, c) | Op::CloseFaceDefault(a, b, c) => {
            let def = matches!(op, Op::CloseFaceDefault(..));
            let (f, e0, e1) = if def {
                m.close_face_default(e16(*a), e16(*b), *c)
            } else {
                m.close_face(e16(*a), ta, e16(*b), tb, tc, *c)
            };
            let (p, q, s) = if def { (0, 0, 0) } else { (t, t + 1, t + 2) };
            x.ins_edge(ix(e0), p, pre.target(*a), Some(*a), ix(e1), q, pre.target(*b), Some(*b))?;
            x.add_f(ix(f), *a, *c, s)?;
        }
        Op::CloseFaceVertices(p, f, w, c) | Op::CloseFaceVerticesDefault(p, f, w, c) => {
            let def = matches!(op, Op::CloseFaceVerticesDefault(..));
            let a = pre.find(*p, *f).unwrap();
            let b = pre
                .eids()
                .into_iter()
                .find(|y| pre.target(*y) == *w && pre.face(*y) == NONE && pre.lp(*y).contains(&a))
                .unwrap();
            let (g, e0, e1) = if def {
                m.close_face_vertices_default(*p, *f, *w, *c)
            } else {
                m.close_face_vertices(*p, ta, *f, tb, *w, tc, *c)
            };
            let (p, q, s) = if def { (0, 0, 0) } else { (t, t + 1, t + 2) };
            x.ins_edge(ix(e0), p, pre.target(a), Some(a), ix(e1), q, pre.target(b), Some(b))?;
            x.add_f(ix(g), a, *c, s)?;
        }
        Op::CloseHole(e, c) => {
            let f = m.close_hole(e16(*e), ta, *c);
            x.add_f(ix(f), *e, *c, t)?;
        }
        Op::CloseHoleDefault(e) => {
            let f = m.close_hole_default(e16(*e));
            x.add_f(ix(f), *e, false, 0)?;
        }
        Op::RemoveFace(f) => {
            let fp = m.remove_face(*f as u8);
            if fp.0 != pre.ff(*f).tag {
                return Err(format!("removing face {} returned payload {} instead of {}", f, fp.0, pre.ff(*f).tag));
            }
            x.del_f(*f);
        }
        Op::SplitEdge(e, k) => {
            let tags: Vec<(u32, u32, u32)> = (0..*k as u32).map(|i| (t + 3 * i, t + 3 * i + 1, t + 3 * i + 2)).collect();
            let ret = ix(m.insert_vertices_into_edge(e16(*e), tags.iter().map(|(a, b, c)| (Tag(*a), Tag(*b), Tag(*c)))));
            let post = snap(m)?;
            x = spec_split(pre, *e, &tags, &post)?;
            if !post.he(ret) || post.origin(ret) != pre.origin(*e) {
                return Err(format!("splitting edge {} returned {}, which does not start in the previous origin {}", e, ret, pre.origin(*e)));
            }
            // on the chain, i.e., leading towards the first inserted vertex
            let want = if *k == 0 { pre.target(*e) } else { post.vids().into_iter().find(|v| post.vv(*v).tag == t + 2).unwrap_or(NONE) };
            if x.target(ret) != want {
                return Err(format!("splitting edge {} returned {}, which is not the first piece", e, ret));
            }
        }
        Op::Subdivide(e) => {
            let tw = pre.twin(*e);
            let n1 = ix(m.subdivide_unsafe(e16(*e), ta, tb));
            let Some(n2) = m.subdivide_unsafe_try_fixup(e16(tw), tc) else {
                return Err("fixing up the twin of a subdivided edge found nothing to do".into());
            };
            let n2 = ix(n2);
            let post = snap(m)?;
            let Some(v) = post.vids().into_iter().find(|v| !pre.hv(*v)) else { return Err("no new vertex".into()) };
            x.add_v(v, t)?;
            // e: a->b, tw: b->a become e: a->v, n1: v->b, tw: b->v, n2: v->a
            let z = RE { next: NONE, prev: NONE, twin: NONE, origin: v, face: NONE, tag: 0 };
            for (n, tag) in [(n1, t + 1), (n2, t + 2)] {
                if pre.he(n) || !post.he(n) {
                    return Err(format!("subdivision returned {} which is not a new edge", n));
                }
                while x.e.len() <= n as usize {
                    x.e.push(None);
                }
                x.e[n as usize] = Some(RE { tag, ..z });
            }
            split_links(&mut x, pre, *e, &[*e, n1], &[tw, n2]);
        }
        Op::Path(k) | Op::Loop(k) => {
            let tags: Vec<u32> = (0..*k as u32).map(|i| t + i).collect();
            let lp = matches!(op, Op::Loop(_));
            let (first, last) = if lp {
                (MeshBuilder::insert_loop(m, tags.iter().map(|a| Tag(*a))), 0)
            } else {
                MeshBuilder::insert_path(m, tags.iter().map(|a| Tag(*a)))
            };
            let post = snap(m)?;
            let mut vs = vec![];
            for a in &tags {
                let c: Vec<u32> = post.vids().into_iter().filter(|v| !pre.hv(*v) && post.vv(*v).tag == *a).collect();
                if c.len() != 1 {
                    return Err(format!("{} new vertices carry the payload number {}", c.len(), a - t));
                }
                vs.push(c[0]);
                x.add_v(c[0], *a)?;
            }
            for i in 0..(if lp { *k } else { *k - 1 }) {
                let (a, b) = (vs[i], vs[(i + 1) % k]);
                let (Some(h1), Some(h2)) = (post.find(a, b), post.find(b, a)) else {
                    return Err(format!("consecutive points {} and {} are not connected", i, i + 1));
                };
                let (p1, p2) = (
                    x.eids().into_iter().find(|y| !pre.he(*y) && x.target(*y) == a),
                    x.eids().into_iter().find(|y| !pre.he(*y) && x.target(*y) == b),
                );
                x.ins_edge(h1, 0, a, p1, h2, 0, b, p2)?;
            }
            let first = ix(first);
            if !post.he(first) || post.target(first) != vs[0] || post.origin(first) != vs[1] {
                return Err("returned first edge does not lead from the second to the first point".into());
            }
            if !lp {
                let last = ix(last);
                if !post.he(last) || post.target(last) != vs[k - 1] || post.origin(last) != vs[k - 2] {
                    return Err("returned last edge does not lead to the last point".into());
                }
            }
        }
        Op::FlipEdge(e) => {
            m.flip_edge(e16(*e));
            x = spec_flip(pre, &[*e]);
        }
        Op::FlipAll => {
            m.flip();
            let es: Vec<u32> = pre.eids().into_iter().filter(|e| *e < pre.twin(*e)).collect();
            x = spec_flip(pre, &es);
        }
        Op::Clear => {
            m.clear();
            x = Raw::default();
        }
    }
    Ok(x)
}

/// The links of a split edge: `f` are the forward pieces (origin to target), `b` the pieces of the
/// twin in its own direction; both lists start with the pieces at the old origins.
fn split_links(x: &mut Raw, pre: &Raw, e: u32, f: &[u32], b: &[u32]) {
    let tw = pre.twin(e);
    let n = f.len();
    let (fe, fb) = (pre.face(e), pre.face(tw));
    for i in 0..n {
        x.em(f[i]).twin = b[n - 1 - i];
        x.em(b[n - 1 - i]).twin = f[i];
        x.em(f[i]).face = fe;
        x.em(b[i]).face = fb;
    }
    for i in 0..n - 1 {
        x.em(f[i]).next = f[i + 1];
        x.em(f[i + 1]).prev = f[i];
        x.em(b[i]).next = b[i + 1];
        x.em(b[i + 1]).prev = b[i];
    }
    // what preceded / followed e and its twin
    let m = |y: u32, first: bool| -> u32 {
        if y == e {
            if first {
                f[0]
            } else {
                f[n - 1]
            }
        } else if y == tw {
            if first {
                b[0]
            } else {
                b[n - 1]
            }
        } else {
            y
        }
    };
    let (pe, ne, pb, nb) = (m(pre.prev(e), false), m(pre.next(e), true), m(pre.prev(tw), false), m(pre.next(tw), true));
    x.em(f[0]).prev = pe;
    x.em(pe).next = f[0];
    x.em(f[n - 1]).next = ne;
    x.em(ne).prev = f[n - 1];
    x.em(b[0]).prev = pb;
    x.em(pb).next = b[0];
    x.em(b[n - 1]).next = nb;
    x.em(nb).prev = b[n - 1];
}

/// Specification of splitting edge `e` by new vertices with tags (forward edge, backward edge, vertex).
pub fn spec_split(pre: &Raw, e: u32, tags: &[(u32, u32, u32)], post: &Raw) -> Result<Raw, String> {
    let tw = pre.twin(e);
    let mut x = pre.clone();
    let mut vs = vec![];
    for (_, _, c) in tags {
        let cand: Vec<u32> = post.vids().into_iter().filter(|v| !pre.hv(*v) && post.vv(*v).tag == *c).collect();
        if cand.len() != 1 {
            return Err(format!("{} new vertices carry the payload of an inserted vertex", cand.len()));
        }
        vs.push(cand[0]);
        x.add_v(cand[0], *c)?;
    }
    let mut chain = vec![pre.origin(e)];
    chain.extend(&vs);
    chain.push(pre.target(e));
    let n = chain.len() - 1;
    // identify the pieces by their payloads; the old pair keeps its payloads on the last forward piece
    // and on the first backward piece.
    let mut f = vec![];
    let mut b = vec![];
    let find = |tag: u32| -> Result<u32, String> {
        let c: Vec<u32> = post.eids().into_iter().filter(|y| !pre.he(*y) && post.ee(*y).tag == tag).collect();
        if c.len() != 1 {
            return Err(format!("{} new edges carry the payload of an inserted edge", c.len()));
        }
        Ok(c[0])
    };
    for i in 0..n - 1 {
        f.push(find(tags[i].0)?);
    }
    f.push(e);
    b.push(tw);
    for i in (0..n - 1).rev() {
        b.push(find(tags[i].1)?);
    }
    let z = RE { next: NONE, prev: NONE, twin: NONE, origin: 0, face: NONE, tag: 0 };
    for (i, y) in f.iter().enumerate() {
        if *y != e {
            while x.e.len() <= *y as usize {
                x.e.push(None);
            }
            x.e[*y as usize] = Some(RE { tag: tags[i].0, ..z });
        }
        x.em(*y).origin = chain[i];
    }
    for (i, y) in b.iter().enumerate() {
        if *y != tw {
            while x.e.len() <= *y as usize {
                x.e.push(None);
            }
            x.e[*y as usize] = Some(RE { tag: tags[n - 1 - i].1, ..z });
        }
        x.em(*y).origin = chain[n - i];
    }
    split_links(&mut x, pre, e, &f, &b);
    Ok(x)
}

/// Specification of flipping edges: the two halves of each listed edge exchange ids.
pub fn spec_flip(pre: &Raw, es: &[u32]) -> Raw {
    let mut p: Vec<u32> = (0..pre.e.len() as u32).collect();
    for &e in es {
        let t = pre.twin(e);
        p[e as usize] = t;
        p[t as usize] = e;
    }
    let mut x = pre.clone();
    for e in pre.eids() {
        let r = pre.ee(e);
        let d = p[e as usize];
        // id d now denotes the direction formerly denoted by e (payload stays with the id)
        x.e[d as usize] = Some(RE {
            next: p[r.next as usize],
            prev: p[r.prev as usize],
            twin: p[r.twin as usize],
            origin: r.origin,
            face: r.face,
            tag: pre.ee(d).tag,
        });
    }
    x
}
