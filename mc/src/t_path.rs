//! S11: the path builder draws exactly the commanded path.
use crate::engine::*;
use crate::t_curve::{cubic, face_mesh, quad, C, K, Q};
use crate::topo::*;
use procedural_modelling::{extensions::nalgebra::*, math::*, mesh::PathBuilder, prelude::*};
use std::sync::atomic::Ordering::SeqCst;

type VP = VertexPayloadPNU<f64, 2>;
type PB<'a> = PathBuilder<'a, C, NdAffine<f64, 2>>;

fn v2(p: Q) -> VecN<f64, 2> {
    VecN::<f64, 2>::new(p.0, p.1)
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cmd {
    Line(Q),
    /// a new vertex with a whole payload and payloads for both half-edges
    LineEx(Q, u8),
    LineTo(u8),
    LineToEx(u8, u8),
    Quad(Q, Q),
    QuadTo(Q, u8),
    Cubic(Q, Q, Q),
    CubicTo(Q, Q, u8),
    Auto(Q),
    LineStart,
    QuadStart(Q),
    CubicStart(Q, Q),
    Close,
}
use Cmd::*;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Start {
    Move(Q),
    New(Q),
    Ex(Q),
    /// at an isolated vertex
    At(u8),
    /// at the last vertex of a chain
    Chain,
    ChainEdge,
}
fn pay(k: u8) -> CurvedEdgePayload<2, C> {
    let mut p = CurvedEdgePayload::<2, C>::default();
    p.set_curve_type(kind(k));
    p
}
fn kind(k: u8) -> K {
    match k {
        0 => CurvedEdgeType::Linear,
        1 => quad((7.0, 8.0)),
        _ => cubic((9.0, 1.0), (2.0, 3.0)),
    }
}
fn vp(p: Q) -> VP {
    let mut v = VP::from_pos(v2(p));
    v.set_uv(Vec2::new(p.0 + 100.0, 3.0));
    v
}
/// isolated vertices, with a triangle, with a chain
struct Base {
    mesh: Mesh2d64Curved,
    raw: Raw,
    iso: Vec<usize>,
    chain: Option<(usize, usize)>,
}
fn base(kind: u8) -> Base {
    let mut m = if kind == 1 { face_mesh(&[(50.0, 0.0), (51.0, 0.0), (50.0, 1.0)], &[vec![0, 1, 2]]) } else { Mesh2d64Curved::new() };
    let mut chain = None;
    if kind == 2 {
        let c: Vec<usize> = (0..3).map(|i| m.add_vertex(vp((60.0 + i as f64, 60.0)))).collect();
        for i in 0..2 {
            m.insert_edge_between(c[i], Default::default(), c[i + 1], Default::default());
        }
        chain = Some((c[2], m.shared_edge_id(c[1], c[2]).unwrap()));
    }
    let iso = (0..2).map(|i| m.add_vertex(vp((70.0, i as f64)))).collect();
    let raw = snap_with::<C>(&m, |_| 0, |_| 0, |_| 0).unwrap();
    Base { mesh: m, raw, iso, chain }
}
#[derive(Clone, Debug, Default)]
struct Model {
    verts: Vec<(usize, bool)>,
    edges: Vec<(usize, usize, K, K)>,
    closed: bool,
    face: bool,
}
fn enabled(start: Start, done: &[Cmd], c: Cmd) -> bool {
    let closes = |c: &Cmd, p: &[Cmd]| matches!(c, LineStart | QuadStart(_) | CubicStart(..)) || (matches!(c, Auto(_)) && auto_start(start, p, c));
    let closed = done.iter().enumerate().any(|(i, d)| closes(d, &done[..i]));
    if done.contains(&Close) {
        return false;
    }
    let chain = matches!(start, Start::Chain | Start::ChainEdge);
    match c {
        // a path of one edge cannot be closed; which side of a chain is closed is not specified
        Close => !chain && (closed || done.len() != 1),
        _ if closed => false,
        LineTo(k) | LineToEx(k, _) | QuadTo(_, k) | CubicTo(_, _, k) => start != Start::At(k) && !done.iter().any(|d| matches!(d, LineTo(x) | LineToEx(x, _) | QuadTo(_, x) | CubicTo(_, _, x) if *x == k)),
        _ if closes(&c, done) => !chain && done.len() >= 2,
        _ => true,
    }
}
/// whether an autoclosing vertex is the start vertex
fn auto_start(start: Start, _done: &[Cmd], c: &Cmd) -> bool {
    let Auto(p) = c else { return false };
    match start {
        Start::Move(q) | Start::New(q) | Start::Ex(q) => *p == q,
        Start::At(k) => *p == (70.0, k as f64),
        _ => *p == (62.0, 60.0),
    }
}
fn run(b: &Base, start: Start, cmds: &[Cmd]) -> Result<(), String> {
    let mut mesh = b.mesh.clone();
    let n0 = b.raw.nv();
    let m = &mut mesh;
    let mut md = Model::default();
    let mut fresh: Vec<(usize, VP)> = vec![];
    let mut face = None;
    let (cursor, flags);
    {
        let mut p: PB = match start {
            Start::Move(q) => {
                let mut p = PB::new(m);
                p.move_to_new(v2(q));
                p
            }
            Start::New(q) => PB::start(m, v2(q)),
            Start::Ex(q) => PB::start_ex(m, vp(q)),
            Start::At(k) => PB::start_at(m, b.iso[k as usize]),
            Start::Chain => PB::start_at(m, b.chain.unwrap().0),
            Start::ChainEdge => PB::start_at_edge(m, b.chain.unwrap().1),
        };
        let s = p.current_vertex();
        if p.start_vertex() != s {
            return Err("the start vertex is not the current one".into());
        }
        md.verts.push((s, true));
        match start {
            Start::Move(q) | Start::New(q) => fresh.push((s, VP::from_pos(v2(q)))),
            Start::Ex(q) => fresh.push((s, vp(q))),
            Start::At(k) if s != b.iso[k as usize] => return Err("not started at the given vertex".into()),
            Start::Chain | Start::ChainEdge if s != b.chain.unwrap().0 => return Err("not started at the end of the chain".into()),
            _ => {}
        }
        for c in cmds {
            let from = p.current_vertex();
            let (mut k0, mut k1) = (CurvedEdgeType::Linear, CurvedEdgeType::Linear);
            let mut new: Option<VP> = None;
            let mut to: Option<usize> = None;
            match *c {
                Line(q) => {
                    p.line(v2(q));
                    new = Some(VP::from_pos(v2(q)));
                }
                LineEx(q, k) => {
                    p.line_ex(vp(q), pay(k), pay(2 - k));
                    new = Some(vp(q));
                    (k0, k1) = (kind(k), kind(2 - k));
                }
                LineTo(i) => {
                    p.line_to(b.iso[i as usize]);
                    to = Some(b.iso[i as usize]);
                }
                LineToEx(i, k) => {
                    p.line_to_ex(b.iso[i as usize], pay(k), pay(2 - k));
                    to = Some(b.iso[i as usize]);
                    (k0, k1) = (kind(k), kind(2 - k));
                }
                Quad(a, q) => {
                    p.quad(v2(a), v2(q));
                    new = Some(VP::from_pos(v2(q)));
                    k0 = quad(a);
                }
                QuadTo(a, i) => {
                    p.quad_to(v2(a), b.iso[i as usize]);
                    to = Some(b.iso[i as usize]);
                    k0 = quad(a);
                }
                Cubic(a, d, q) => {
                    p.cubic(v2(a), v2(d), v2(q));
                    new = Some(VP::from_pos(v2(q)));
                    k0 = cubic(a, d);
                }
                CubicTo(a, d, i) => {
                    p.cubic_to(v2(a), v2(d), b.iso[i as usize]);
                    to = Some(b.iso[i as usize]);
                    k0 = cubic(a, d);
                }
                Auto(q) => {
                    let v = p.add_vertex_autoclose(v2(q));
                    if p.current_vertex() != from {
                        return Err("adding a vertex moved".into());
                    }
                    p.line_to(v);
                    if auto_start(start, &[], c) {
                        to = Some(s);
                        if v != s {
                            return Err("the position of the start vertex got another vertex".into());
                        }
                    } else {
                        new = Some(VP::from_pos(v2(q)));
                    }
                }
                LineStart => {
                    p.line_to(s);
                    to = Some(s);
                }
                QuadStart(a) => {
                    p.quad_to(v2(a), s);
                    to = Some(s);
                    k0 = quad(a);
                }
                CubicStart(a, d) => {
                    p.cubic_to(v2(a), v2(d), s);
                    to = Some(s);
                    k0 = cubic(a, d);
                }
                Close => {
                    let open = !md.closed;
                    face = Some(p.close(Default::default()));
                    md.face = !md.edges.is_empty();
                    md.closed = md.face;
                    if open && md.face {
                        md.edges.push((from, s, CurvedEdgeType::Linear, CurvedEdgeType::Linear));
                    }
                    continue;
                }
            }
            let now = p.current_vertex();
            if let Some(v) = new {
                if fresh.iter().any(|f| f.0 == now) || b.raw.hv(now as u32) {
                    return Err(format!("{:?} moved to the existing vertex {}", c, now));
                }
                fresh.push((now, v));
            }
            if to.is_some() && to != Some(now) {
                return Err(format!("{:?} moved to {}", c, now));
            }
            md.closed |= now == s;
            md.edges.push((from, now, k0, k1));
        }
        cursor = (p.start_vertex(), p.current_vertex(), p.start_edges(), p.current_edges());
        flags = (p.is_closed(), p.has_face());
        if cursor.0 != s {
            return Err("the start vertex changed".into());
        }
        if flags.1 != md.face || (!md.edges.is_empty() && flags.0 != md.closed) {
            return Err(format!("closed {} with face {}, but the path is closed {} with face {}", flags.0, flags.1, md.closed, md.face));
        }
    }
    let chain = b.chain.is_some() && matches!(start, Start::Chain | Start::ChainEdge);
    let r = snap_with::<C>(&mesh, |_| 0, |_| 0, |_| 0)?;
    r.validate()?;
    // what was there before
    for v in b.raw.vids() {
        if !r.hv(v) || mesh.vertex(v as usize).payload() != b.mesh.vertex(v as usize).payload() {
            return Err(format!("the old vertex {} changed", v));
        }
    }
    for e in b.raw.eids() {
        let mut x = if r.he(e) { *r.ee(e) } else { return Err(format!("the old edge {} is gone", e)) };
        let y = *b.raw.ee(e);
        if chain {
            (x.next, x.prev) = (y.next, y.prev);
        }
        if x != y {
            return Err(format!("the old edge {} changed: {:?} {:?}", e, x, y));
        }
    }
    for f in b.raw.fids() {
        if !r.hf(f) || r.ff(f) != b.raw.ff(f) {
            return Err(format!("the old face {} changed", f));
        }
    }
    // what is new
    if r.nv() != n0 + fresh.len() || r.ne() != b.raw.ne() + 2 * md.edges.len() || r.nf() != b.raw.nf() + md.face as usize {
        return Err(format!("{} vertices, {} half-edges, {} faces instead of {}, {}, {}", r.nv(), r.ne(), r.nf(), n0 + fresh.len(), b.raw.ne() + 2 * md.edges.len(), b.raw.nf() + md.face as usize));
    }
    for (id, p) in &fresh {
        if !mesh.has_vertex(*id) || mesh.vertex(*id).payload() != p {
            return Err(format!("vertex {} is {:?} instead of {:?}", id, mesh.vertex(*id).payload(), p));
        }
    }
    let mut pairs = vec![];
    for (a, c, k0, k1) in &md.edges {
        let e = match r.out_edges(*a as u32).into_iter().filter(|e| r.target(*e) == *c as u32).collect::<Vec<_>>()[..] {
            [e] => e,
            _ => return Err(format!("no single edge from {} to {}", a, c)),
        };
        let t = r.twin(e);
        pairs.push((e as usize, t as usize));
        let (x, y) = (mesh.edge(e as usize).curve_type(), mesh.edge(t as usize).curve_type());
        if x != *k0 || y != *k1 {
            return Err(format!("edge from {} to {} is {:?} and {:?} back instead of {:?} and {:?}", a, c, x, y, k0, k1));
        }
    }
    if let Some(f) = face {
        if md.face {
            if !r.hf(f as u32) || b.raw.hf(f as u32) {
                return Err(format!("closing returned {}", f));
            }
            let mut l: Vec<usize> = r.lp(r.ff(f as u32).edge).into_iter().map(|e| e as usize).collect();
            let mut fw: Vec<usize> = pairs.iter().map(|p| p.0).collect();
            let mut bw: Vec<usize> = pairs.iter().map(|p| p.1).collect();
            l.sort();
            fw.sort();
            bw.sort();
            if l != fw && l != bw {
                return Err(format!("the face {} runs along {:?} instead of {:?} or {:?}", f, l, fw, bw));
            }
        } else if f != <usize as IndexType>::max() {
            return Err(format!("closing an empty path returned {}", f));
        }
    }
    // the cursor
    let last = md.edges.last().map(|e| e.1).unwrap_or(md.verts[0].0);
    if cursor.1 != last {
        return Err(format!("the current vertex is {} instead of {}", cursor.1, last));
    }
    let same = |x: Option<(usize, usize)>, y: Option<&(usize, usize)>| match (x, y) {
        (None, None) => true,
        (Some(a), Some(b)) => a == *b || (a.1, a.0) == *b,
        _ => false,
    };
    if !chain && (!same(cursor.2, pairs.first()) || !same(cursor.3, pairs.last())) || chain && !pairs.is_empty() && !same(cursor.3, pairs.last()) {
        return Err(format!("the start and current edges are {:?} and {:?} but the path is {:?}", cursor.2, cursor.3, pairs));
    }
    Ok(())
}
fn whole(ctx: &Ctx) {
    ctx.bound("insert_path and insert_loop", "2 to 12, 60 and 300 vertices, in an empty mesh, next to isolated vertices and a triangle");
    for kind in [0u8, 1, 2] {
        for n in (2..=12usize).chain([60, 300]) {
            for lp in [false, true] {
                if lp && n < 3 {
                    continue;
                }
                case(ctx, &|| format!("insert {} {} {}", kind, n, lp), &|| {
                    let b = base(kind);
                    let mut m = b.mesh.clone();
                    let pts: Vec<VP> = (0..n).map(|i| vp((i as f64, (i * i) as f64))).collect();
                    let ends = if lp { (m.insert_loop(pts.clone()), None) } else { let (a, z) = m.insert_path(pts.clone()); (a, Some(z)) };
                    let r = snap_with::<C>(&m, |_| 0, |_| 0, |_| 0)?;
                    r.validate()?;
                    let ids: Vec<u32> = r.vids().into_iter().filter(|v| !b.raw.hv(*v)).collect();
                    let at: Vec<u32> = pts.iter().filter_map(|p| ids.iter().copied().find(|v| m.vertex(*v as usize).payload() == p)).collect();
                    if ids.len() != n || at.len() != n {
                        return Err(format!("{} new vertices, {} as given", ids.len(), at.len()));
                    }
                    let k = if lp { n } else { n - 1 };
                    if r.ne() != b.raw.ne() + 2 * k || r.nf() != b.raw.nf() {
                        return Err(format!("{} half-edges, {} faces", r.ne(), r.nf()));
                    }
                    for i in 0..k {
                        let e = r.find(at[i], at[(i + 1) % n]).ok_or(format!("no edge {}-{}", i, i + 1))?;
                        if m.edge(e as usize).curve_type() != CurvedEdgeType::Linear || m.edge(r.twin(e) as usize).curve_type() != CurvedEdgeType::Linear {
                            return Err("a curved edge".into());
                        }
                    }
                    for e in b.raw.eids() {
                        if !r.he(e) || r.ee(e) != b.raw.ee(e) {
                            return Err(format!("the old edge {} changed", e));
                        }
                    }
                    match ends {
                        (a, Some(z)) => {
                            if r.target(a as u32) != at[0] || r.target(z as u32) != at[n - 1] {
                                return Err("the returned half-edges don't point to the ends".into());
                            }
                        }
                        (a, None) => {
                            if !r.he(a as u32) || b.raw.he(a as u32) || r.lp(a as u32).len() != n {
                                return Err("the returned half-edge is not on the loop".into());
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    }
}
fn case(ctx: &Ctx, key: &dyn Fn() -> String, f: &dyn Fn() -> Result<(), String>) {
    ctx.transitions.fetch_add(1, SeqCst);
    ctx.traces.fetch_add(1, SeqCst);
    ctx.sample(|| key());
    ctx.case(|| key(), || f());
}
fn dfs(ctx: &Ctx, b: &Base, id: &str, start: Start, al: &[Cmd], depth: usize, path: &mut Vec<Cmd>) {
    ctx.states.fetch_add(1, SeqCst);
    case(ctx, &|| format!("{} {:?} {:?}", id, start, path).replace(' ', ""), &|| run(b, start, path));
    if path.len() == depth {
        return;
    }
    for c in al {
        if enabled(start, path, *c) {
            path.push(*c);
            dfs(ctx, b, id, start, al, depth, path);
            path.pop();
        }
    }
}
pub fn s11(ctx: &Ctx) {
    let o = (0.0, 0.0);
    let full: Vec<Cmd> = vec![
        Line((1.0, 0.0)),
        Line(o),
        LineEx((1.0, 1.0), 0),
        LineEx((0.0, 1.0), 2),
        LineTo(0),
        LineTo(1),
        LineToEx(1, 0),
        Quad((1.0, 2.0), (3.0, 3.0)),
        QuadTo((5.0, 5.0), 0),
        Cubic((1.0, 2.0), (2.0, 1.0), (4.0, 0.0)),
        CubicTo((1.0, 7.0), (2.0, 7.0), 1),
        Auto(o),
        Auto((70.0, 0.0)),
        Auto((8.0, 8.0)),
        LineStart,
        QuadStart((4.0, -4.0)),
        CubicStart((4.0, -4.0), (-3.0, -2.0)),
        Close,
    ];
    let small: Vec<Cmd> = vec![Line((1.0, 0.0)), LineTo(0), Quad((1.0, 2.0), (3.0, 3.0)), Cubic((1.0, 2.0), (2.0, 1.0), (4.0, 0.0)), Auto(o), QuadStart((4.0, -4.0)), Close];
    let (d1, d2) = (ctx.b(5usize, 6), ctx.b(8usize, 10));
    ctx.bound("path builder", format!("all sequences of up to {} of {} commands and up to {} of {} commands, 10 ways of starting in meshes with isolated vertices, a triangle or a chain", d1, full.len(), d2, small.len()));
    let roots: Vec<(u8, Start)> = vec![
        (0, Start::Move(o)),
        (0, Start::New(o)),
        (0, Start::Ex(o)),
        (0, Start::At(0)),
        (1, Start::Move(o)),
        (1, Start::New((50.0, 0.0))),
        (1, Start::At(1)),
        (2, Start::New(o)),
        (2, Start::Chain),
        (2, Start::ChainEdge),
    ];
    let mut jobs: Vec<(usize, bool, Option<Cmd>)> = vec![];
    for i in 0..roots.len() {
        for (k, al) in [&full, &small].iter().enumerate() {
            jobs.push((i, k == 1, None));
            jobs.extend(al.iter().map(|c| (i, k == 1, Some(*c))));
        }
    }
    ctx.par(jobs.len() as u64, 1, |j| {
        let (i, few, first) = jobs[j as usize];
        let (kind, start) = roots[i];
        let b = base(kind);
        let (al, d) = if few { (&small, d2) } else { (&full, d1) };
        let id = format!("{}{}", if few { "few" } else { "all" }, kind);
        let mut path = vec![];
        match first {
            None => dfs(ctx, &b, &id, start, al, 0, &mut path),
            Some(c) if enabled(start, &[], c) => {
                path.push(c);
                dfs(ctx, &b, &id, start, al, d, &mut path);
            }
            _ => {}
        }
    });
    // long paths: two commands over and over again, then an end
    let reps = [4usize, 9, 17, 33, 70];
    let ends: Vec<Vec<Cmd>> = vec![vec![], vec![Close], vec![LineStart, Close], vec![QuadStart((4.0, -4.0)), Close], vec![CubicStart((4.0, -4.0), (-3.0, -2.0)), Close], vec![Auto(o), Close]];
    ctx.bound("long paths", format!("all pairs of {} commands repeated {:?} times with {} endings, 10 ways of starting", full.len(), reps, ends.len()));
    let k = full.len();
    ctx.par((roots.len() * k * k) as u64, 1, |j| {
        let j = j as usize;
        let (kind, start) = roots[j % roots.len()];
        let (x, y) = (full[j / roots.len() % k], full[j / roots.len() / k]);
        let b = base(kind);
        for n in reps {
            let mut path = vec![];
            for i in 0..n {
                // the points move on, so that no two are the same
                for c in [x, y] {
                    let d = i as f64 * 3.0;
                    let c = match c {
                        Line(p) => Line((p.0 + d, p.1 + 1.0)),
                        Quad(a, p) => Quad(a, (p.0 + d, p.1 + d)),
                        Cubic(a, q, p) => Cubic(a, q, (p.0, p.1 - d - 1.0)),
                        c => c,
                    };
                    if c != Close && enabled(start, &path, c) {
                        path.push(c);
                    }
                }
            }
            for e in &ends {
                let mut p = path.clone();
                for c in e {
                    if enabled(start, &p, *c) {
                        p.push(*c);
                    }
                }
                case(ctx, &|| format!("long {} {:?} {:?} {:?} {} {:?}", kind, start, x, y, n, e).replace(' ', ""), &|| run(&b, start, &p));
            }
        }
    });
    whole(ctx);
}
