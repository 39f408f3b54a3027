//! S07, S08: lofts, extrusions and apex fills attach exactly the prescribed faces to a boundary.
use crate::engine::*;
use crate::s_sub::{at3, cycle, snap3, Expect};
use crate::shapes::*;
use crate::topo::*;
use procedural_modelling::{extensions::nalgebra::*, math::*, operations::*, prelude::*};
use std::collections::BTreeSet;
use std::sync::atomic::Ordering::SeqCst;

type VP = VertexPayloadPNU<f64, 3>;
type P3 = [f64; 3];

fn vp(p: P3) -> VP {
    let mut v = VP::from_pos(V3::new(p[0], p[1], p[2]));
    v.set_normal(V3::new(p[1], 3.0, p[0]));
    v
}
/// positions of new vertices
fn w(i: usize) -> P3 {
    [5000.0 + 3.0 * i as f64, 7.0 * i as f64 - 10.0, 1000.0 + (i * i) as f64]
}
fn corner(i: u32) -> P3 {
    let t = i as f64;
    [64.0 * t - 100.0, 64.0 * t * t - 7.0 * t, 64.0 * (t * t * t - 5.0 * t)]
}
pub struct Base {
    pub name: String,
    pub mesh: Mesh3d64,
    pub raw: Raw,
    exp: Expect<3>,
    /// only some start edges, lengths and faces
    thin: bool,
}
impl Base {
    pub fn new(name: String, mut mesh: Mesh3d64) -> Self {
        for (i, v) in mesh.vertices_mut().enumerate() {
            v.payload_mut().set_normal(V3::new(1.0, i as f64, 2.0));
        }
        let raw = snap3(&mesh).unwrap();
        raw.validate().unwrap();
        let pos = raw.vids().iter().map(|v| at3(&mesh)(*v)).collect();
        assert!(raw.vids().last().map_or(true, |v| *v as usize + 1 == raw.nv()));
        let faces = raw.fids().iter().map(|f| labels(&raw, raw.ff(*f).edge)).collect();
        let extra = raw.eids().iter().map(|e| (raw.origin(*e) as usize, raw.target(*e) as usize)).collect();
        Base { name, raw, exp: Expect { pos, faces, extra }, mesh, thin: false }
    }
    fn boundary(&self) -> Vec<u32> {
        self.raw.eids().into_iter().filter(|e| self.raw.face(*e) == NONE).collect()
    }
    /// Compares with the expected additions, nothing old being changed; returns the vertex of every label.
    pub fn check(&self, m: &Mesh3d64, new: &[VP], faces: Vec<Vec<usize>>, extra: Vec<(usize, usize)>, gone: Option<u32>, tol: f64) -> Result<Vec<u32>, String> {
        let mut e = self.exp.clone();
        for p in new {
            let p: V3 = *p.pos();
            e.pos.push([p[0], p[1], p[2]]);
        }
        if let Some(f) = gone {
            let c = cycle(&labels(&self.raw, self.raw.ff(f).edge));
            let k = e.faces.iter().position(|f| cycle(f) == c).unwrap();
            e.faces.remove(k);
        }
        e.faces.extend(faces);
        e.extra.extend(extra);
        let raw = snap3(m)?;
        let who = e.compare(&raw, at3(m), tol)?;
        for (i, p) in new.iter().enumerate() {
            let v = who[self.raw.nv() + i];
            if tol == 0.0 && m.vertex(v as usize).payload() != p {
                return Err(format!("the payload of new vertex {} is {:?} instead of {:?}", v, m.vertex(v as usize).payload(), p));
            }
        }
        for v in self.raw.vids() {
            if who[v as usize] != v || m.vertex(v as usize).payload() != self.mesh.vertex(v as usize).payload() {
                return Err(format!("vertex {} changed", v));
            }
        }
        for h in self.raw.eids() {
            if !raw.he(h) || raw.origin(h) != self.raw.origin(h) || raw.twin(h) != self.raw.twin(h) {
                return Err(format!("edge {} changed", h));
            }
            let f = self.raw.face(h);
            if f != NONE && Some(f) != gone && (raw.face(h) != f || raw.next(h) != self.raw.next(h)) {
                return Err(format!("edge {} of face {} changed", h, f));
            }
        }
        Ok(who)
    }
}
fn labels(raw: &Raw, e: u32) -> Vec<usize> {
    raw.lp(e).iter().map(|e| raw.origin(*e) as usize).collect()
}
fn bases(ctx: &Ctx) -> Vec<Base> {
    let t = ctx.thorough;
    let mut r = vec![];
    for (nv, sizes, max) in if t { vec![(4, vec![3, 4], 8), (5, vec![3, 4, 5], 6), (5, vec![3], 10), (6, vec![3], 8), (6, vec![3, 4], 5), (7, vec![3], 5), (6, vec![3, 4, 5, 6], 3)] } else { vec![(4, vec![3, 4], 8), (5, vec![3, 4, 5], 4), (5, vec![3], 7), (6, vec![3], 6), (6, vec![3, 4], 3)] } {
        let mut cs = complexes(nv, &sizes, max);
        cs.retain(|c| one_star(&from_faces(nv, c)));
        ctx.bound(&format!("complexes over {} vertices", nv), format!("all {} with <= {} faces of sizes {:?}, from every boundary edge", cs.len(), max, sizes));
        for c in cs {
            let name = format!("{:?}", c).replace(' ', "");
            r.push(Base::new(name.clone(), mesh3(&from_faces(nv, &c), |v| i3v(corner(v)))));
            r.push(Base::new(name + " renumbered", mesh3_renumbered(&from_faces(nv, &c), 0, |v| i3v(corner(v)))));
        }
    }
    for s in solids() {
        let n = s.faces.len();
        let at = |v: u32| i3(s.pos[v as usize]) * 16.0;
        let keep: Vec<u64> = (1..1u64 << n).filter(|k| n - k.count_ones() as usize <= ctx.b(6, 8)).collect();
        ctx.bound(&format!("{} with faces missing", s.name), format!("{} sets missing, missing from the start and removed", keep.len()));
        for k in keep {
            let fs: Vec<Vec<u32>> = (0..n).filter(|i| k >> i & 1 == 1).map(|i| s.faces[i].clone()).collect();
            let raw = from_faces(s.pos.len() as u32, &fs);
            if one_star(&raw) {
                r.push(Base::new(format!("{}:{:b}", s.name, k), mesh3(&raw, at)));
                r.push(Base::new(format!("{}:{:b} renumbered", s.name, k), mesh3_renumbered(&raw, 1, at)));
            }
            // really removed: edges between two removed faces stay
            let mut m = mesh3(&from_faces(s.pos.len() as u32, &s.faces), at);
            for i in 0..n {
                if k >> i & 1 == 0 {
                    MeshBuilder::<MeshType3d64PNU>::remove_face(&mut m, i);
                }
            }
            r.push(Base::new(format!("{}:removed{:b}", s.name, k), m));
        }
    }
    let l: Vec<(String, Raw)> = larger(ctx.b(12, 24)).into_iter().filter(|x| one_star(&x.1)).collect();
    ctx.bound("larger meshes", format!("{}, ids as built and renumbered", l.len()));
    for (name, mut raw) in l {
        raw.f.iter_mut().flatten().for_each(|f| f.curved = false);
        r.push(Base::new(name.clone(), mesh3(&raw, |v| i3v(corner(v)))));
        r.push(Base::new(name + " renumbered", mesh3_renumbered(&raw, 0, |v| i3v(corner(v)))));
    }
    let h: Vec<(String, Raw)> = huge(t).into_iter().filter(|x| one_star(&x.1)).collect();
    ctx.bound("huge meshes", format!("{}, ids as built and renumbered: four start edges and every eleventh face, short and long lofts", h.len()));
    for (name, mut raw) in h {
        raw.f.iter_mut().flatten().for_each(|f| f.curved = false);
        for k in 0..2 {
            let mut b = match k {
                0 => Base::new(name.clone(), mesh3(&raw, |v| i3v(corner(v)))),
                _ => Base::new(name.clone() + " renumbered", mesh3_renumbered(&raw, 0, |v| i3v(corner(v)))),
            };
            b.thin = true;
            r.push(b);
        }
    }
    // without faces: rings and paths
    for n in 3..=ctx.b(20, 40) {
        let mut m = mesh3(&from_faces(n, &[(0..n).collect()]), |v| i3v(corner(v)));
        MeshBuilder::<MeshType3d64PNU>::remove_face(&mut m, 0);
        r.push(Base::new(format!("ring {}", n), m));
        let m = mesh3(&from_faces(n, &[(0..n).collect()]), |v| i3v(corner(v)));
        r.push(Base::new(format!("polygon {}", n), m));
    }
    for n in 2..=5 {
        let mut m = Mesh3d64::new();
        let vs: Vec<usize> = (0..n).map(|v| m.add_vertex(vp(corner(v)))).collect();
        for i in 1..vs.len() {
            m.insert_edge_between(vs[i - 1], Default::default(), vs[i], Default::default());
        }
        r.push(Base::new(format!("path {}", n), m));
    }
    let mut m = Mesh3d64::new();
    let vs: Vec<usize> = (0..2).map(|v| m.add_vertex(vp(corner(v)))).collect();
    m.insert_edge_between(vs[0], Default::default(), vs[1], Default::default());
    let into = m.shared_edge_id(vs[1], vs[0]).unwrap();
    for i in 2..5 {
        let out = m.edge(into).next_id();
        m.add_vertex_via_edge_default(into, out, vp(corner(i)));
    }
    r.push(Base::new("star".into(), m));
    r
}
fn i3v(p: P3) -> V3 {
    V3::new(p[0], p[1], p[2])
}
/// the corners of the boundary in both walking directions: t (back from the target of start), b (on from its origin)
fn walk(raw: &Raw, start: u32) -> (Vec<usize>, Vec<usize>) {
    let b = labels(raw, start);
    let l = b.len();
    let t = (0..l).map(|i| b[(1 + l * 2 - i) % l]).collect();
    (t, b)
}
fn ends(raw: &Raw, e: usize, from: u32, to: u32) -> Result<(), String> {
    let e = e as u32;
    if !raw.he(e) || raw.origin(e) != from || raw.target(e) != to {
        return Err(format!("the returned edge {} runs from {} to {} instead of {} to {}", e, if raw.he(e) { raw.origin(e) } else { NONE }, if raw.he(e) { raw.target(e) } else { NONE }, from, to));
    }
    Ok(())
}
fn on_boundary(raw: &Raw, e: usize) -> Result<(), String> {
    if raw.face(e as u32) != NONE {
        return Err(format!("the returned edge {} is not on the boundary", e));
    }
    Ok(())
}
fn lofts(ctx: &Ctx, b: &Base, start: u32) {
    let (t, f) = walk(&b.raw, start);
    let l = t.len();
    let nv = b.raw.nv();
    let s = start as usize;
    let t = |i: usize| t[i % l];
    let f = |i: usize| f[i % l];
    let n = |i: usize| nv + i;
    let run = |what: String, new: usize, op: &dyn Fn(&mut Mesh3d64, Vec<VP>) -> usize, faces: Vec<Vec<usize>>, extra: Vec<(usize, usize)>, ret: &dyn Fn(&Raw, &[u32], usize) -> Result<(), String>| {
        ctx.transitions.fetch_add(1, SeqCst);
        ctx.case(
            || format!("{} start {} {}", b.name, start, what),
            || {
                let vps: Vec<VP> = (0..new).map(|i| vp(w(i))).collect();
                let mut m = b.mesh.clone();
                let e = op(&mut m, vps.clone());
                let who = b.check(&m, &vps, faces.clone(), extra.clone(), None, 0.0)?;
                ctx.traces.fetch_add(1, SeqCst);
                ret(&snap3(&m)?, &who, e)
            },
        );
    };
    for k in 0..=l {
        if b.thin && k > 4 && k != l / 2 && k + 1 < l {
            continue;
        }
        for shift in [false, true] {
            // backwards
            let mut fs = vec![];
            for i in 0..k.saturating_sub(1) {
                if shift {
                    fs.push(vec![t(i), n(i), n(i + 1)]);
                    fs.push(vec![t(i + 1), t(i), n(i + 1)]);
                } else {
                    fs.push(vec![t(i + 1), t(i), n(i)]);
                    fs.push(vec![t(i + 1), n(i), n(i + 1)]);
                }
            }
            let extra = if k == 1 { vec![(n(0), t(0))] } else { vec![] };
            run(format!("loft_tri_back {} {}", k, shift), k, &|m, v| m.loft_tri_back(s, shift, v), fs, extra, &|raw, who, e| if k == 0 { (e == s).then_some(()).ok_or(format!("returned {}", e)) } else { ends(raw, e, who[n(0)], who[t(0)]) });
            // forwards
            let mut fs = vec![];
            for i in 0..k.saturating_sub(1) {
                if shift {
                    fs.push(vec![f(i), n(i + 1), n(i)]);
                    fs.push(vec![f(i), f(i + 1), n(i + 1)]);
                } else {
                    fs.push(vec![f(i), f(i + 1), n(i)]);
                    fs.push(vec![f(i + 1), n(i + 1), n(i)]);
                }
            }
            let extra = if k == 1 { vec![(n(0), f(0))] } else { vec![] };
            run(format!("loft_tri {} {}", k, shift), k, &|m, v| m.loft_tri(s, shift, v), fs, extra, &|raw, who, e| if k == 0 { (e == s).then_some(()).ok_or(format!("returned {}", e)) } else { ends(raw, e, who[n(0)], who[f(0)]) });
        }
    }
    if l >= 3 {
        let mut fs = vec![];
        let mut gs = vec![];
        for i in 0..l {
            fs.push(vec![t(i + 1), t(i), n(i)]);
            fs.push(vec![t(i + 1), n(i), n((i + 1) % l)]);
            gs.push(vec![f(i), f(i + 1), n(i)]);
            gs.push(vec![f(i + 1), n((i + 1) % l), n(i)]);
        }
        run("loft_tri_back_closed".into(), l, &|m, v| m.loft_tri_back_closed(s, v), fs, vec![], &|raw, who, e| ends(raw, e, who[n(0)], who[t(0)]));
        run("loft_tri_closed".into(), l, &|m, v| m.loft_tri_closed(s, v), gs, vec![], &|raw, who, e| ends(raw, e, who[n(0)], who[n(1)]).and(on_boundary(raw, e)));
    }
    for (p, q) in [(2, 2), (3, 2), (2, 3), (3, 3), (4, 2), (2, 4), (4, 3), (5, 5), (6, 3), (3, 7), (9, 8), (2, 8), (8, 2)] {
        for j in 0..=l / (q - 1) {
            // j polygons
            if b.thin && j > 3 && j != l / (q - 1) / 2 && j + 1 < l / (q - 1) {
                continue;
            }
            let steps = j * (q - 1);
            let closed = steps == l;
            if closed && l < 3 || l == 1 {
                continue;
            }
            let k = if closed { j * (p - 1) } else { 1 + j * (p - 1) };
            if closed && k < 3 || p == 2 && closed && j < 3 {
                // the inner side would be an edge twice
                continue;
            }
            if !closed && p == 2 && steps + q - 1 == l {
                // as many new vertices as go around once
                continue;
            }
            let mut fs = vec![];
            for a in 0..j {
                let mut g: Vec<usize> = (0..q).rev().map(|i| t(a * (q - 1) + i)).collect();
                g.extend((0..p).map(|i| n(if closed { (a * (p - 1) + i) % k } else { a * (p - 1) + i })));
                fs.push(g);
            }
            let extra = if j == 0 { vec![(n(0), t(0))] } else { vec![] };
            run(format!("loft_polygon_back {} {} x {}{}", p, q, j, if closed { " closed" } else { "" }), k, &|m, v| m.loft_polygon_back(s, p, q, v), fs, extra, &|raw, who, e| if k < 2 { Ok(()) } else { ends(raw, e, who[n(1)], who[n(0)]).and(on_boundary(raw, e)) });
            if (p, q) == (2, 2) {
                let mut fs = vec![];
                for a in 0..j {
                    fs.push(vec![f(a), f(a + 1), n(if closed { (a + 1) % k } else { a + 1 }), n(a)]);
                }
                let extra = if j == 0 { vec![(n(0), f(0))] } else { vec![] };
                run(format!("loft_polygon 2 2 x {}{}", j, if closed { " closed" } else { "" }), k, &|m, v| m.loft_polygon(s, 2, 2, v), fs, extra, &|raw, who, e| if k < 2 { Ok(()) } else { ends(raw, e, who[n(0)], who[n(1)]).and(on_boundary(raw, e)) });
            }
        }
    }
    if l >= 2 {
        run("nothing".into(), 0, &|m, v| m.loft_polygon_back(s, 2, 2, v.into_iter()), vec![], vec![], &|_, _, e| (e == s).then_some(()).ok_or(format!("returned {}", e)));
    }
}
pub fn s08(ctx: &Ctx) {
    let bs = bases(ctx);
    ctx.par(bs.len() as u64, 2, |i| {
        let b = &bs[i as usize];
        ctx.states.fetch_add(1, SeqCst);
        ctx.sample(|| b.name.clone());
        let es = b.boundary();
        for s in es.iter().copied().step_by(if b.thin { es.len() / 4 + 1 } else { 1 }) {
            lofts(ctx, b, s);
        }
    });
}

struct T {
    name: &'static str,
    t: NdAffine<f64, 3>,
    f: fn(P3) -> P3,
}
fn transforms() -> Vec<T> {
    let tr = <NdAffine<f64, 3> as TransformTrait<f64, 3>>::from_translation(V3::new(3.0, -5000.0, 700.25));
    let sc = <NdAffine<f64, 3> as TransformTrait<f64, 3>>::from_scale(V3::new(0.5, 2.0, -0.25));
    let ro = <NdAffine<f64, 3> as TransformTrait<f64, 3>>::from_rotation_arc(V3::new(1.0, 0.0, 0.0), V3::new(0.0, 1.0, 0.0));
    vec![
        T { name: "translate", t: tr, f: |p| [p[0] + 3.0, p[1] - 5000.0, p[2] + 700.25] },
        T { name: "scale+translate", t: sc.with_translation(V3::new(9000.0, 1.0, 2.0)), f: |p| [p[0] * 0.5 + 9000.0, p[1] * 2.0 + 1.0, p[2] * -0.25 + 2.0] },
        T { name: "rotate+translate", t: ro.with_translation(V3::new(0.0, 0.0, 9000.0)), f: |p| [-p[1], p[0], p[2] + 9000.0] },
    ]
}
fn pos_vp(p: P3) -> VP {
    VP::from_pos(i3v(p))
}
const TOL: f64 = 1e-6;
/// side faces and cap over the loop `t` (corners in boundary order), new corners labelled from `nv`
fn quads(b: &[usize], nv: usize) -> Vec<Vec<usize>> {
    let l = b.len();
    let mut fs: Vec<Vec<usize>> = (0..l).map(|i| vec![b[i], b[(i + 1) % l], nv + (i + 1) % l, nv + i]).collect();
    fs.push((0..l).map(|i| nv + i).collect());
    fs
}
fn tris(b: &[usize], nv: usize) -> Vec<Vec<usize>> {
    // new corner i belongs to the edge from b[i] to b[i + 1]
    let l = b.len();
    let mut fs = vec![];
    for i in 0..l {
        fs.push(vec![b[i], b[(i + 1) % l], nv + i]);
        fs.push(vec![b[(i + 1) % l], nv + (i + 1) % l, nv + i]);
    }
    fs.push((0..l).map(|i| nv + i).collect());
    fs
}
fn extrusions(ctx: &Ctx, b: &Base, ts: &[T]) {
    let nv = b.raw.nv();
    let at = |v: usize| b.exp.pos[v];
    let distinct = |l: &[usize]| l.iter().collect::<BTreeSet<_>>().len() == l.len();
    // the edge of the mesh after face `gone` was removed, its loop runs as before
    let mut go = |what: String, op: &dyn Fn(&mut Mesh3d64) -> usize, new: Vec<P3>, faces: Vec<Vec<usize>>, gone: Option<u32>, apex: bool| {
        ctx.transitions.fetch_add(1, SeqCst);
        ctx.case(
            || format!("{} {}", b.name, what),
            || {
                let mut m = b.mesh.clone();
                let r = op(&mut m);
                let vps: Vec<VP> = new.iter().map(|p| pos_vp(*p)).collect();
                let who = b.check(&m, &vps, faces.clone(), vec![], gone, TOL)?;
                ctx.traces.fetch_add(1, SeqCst);
                let raw = snap3(&m)?;
                if apex {
                    if who[nv] as usize != r {
                        return Err(format!("returned vertex {} instead of the apex {}", r, who[nv]));
                    }
                    return Ok(());
                }
                // an edge of the cap
                let cap: BTreeSet<u32> = (0..new.len()).map(|i| who[nv + i]).collect();
                let r = r as u32;
                if !raw.he(r) {
                    return Err(format!("returned the dead edge {}", r));
                }
                let lp: BTreeSet<u32> = raw.lp(r).iter().map(|e| raw.origin(*e)).collect();
                if lp != cap {
                    return Err(format!("the returned edge {} does not run around the cap", r));
                }
                Ok(())
            },
        );
    };
    let mut each = |start: u32, gone: Option<u32>| {
        let l = labels(&b.raw, start);
        if l.len() < 3 || !distinct(&l) {
            return;
        }
        let n = l.len();
        let s = start as usize;
        for t in ts {
            let a: Vec<P3> = l.iter().map(|v| (t.f)(at(*v))).collect();
            // corners of extrude_tri: the image of the end of each edge
            let c: Vec<P3> = (0..n).map(|i| a[(i + 1) % n]).collect();
            let d: Vec<P3> = (0..n).map(|i| std::array::from_fn(|k| (a[i][k] + a[(i + 1) % n][k]) / 2.0)).collect();
            match gone {
                None => {
                    go(format!("extrude {} {}", start, t.name), &|m| m.extrude(s, t.t), a, quads(&l, nv), None, false);
                    go(format!("extrude_tri {} {}", start, t.name), &|m| m.extrude_tri(s, t.t), c, tris(&l, nv), None, false);
                    go(format!("extrude_tri2 {} {}", start, t.name), &|m| m.extrude_tri2(s, t.t), d, tris(&l, nv), None, false);
                }
                Some(f) => {
                    let f = f as usize;
                    go(format!("extrude_face {} {}", f, t.name), &|m| m.extrude_face(f, t.t), a, quads(&l, nv), gone, false);
                    go(format!("extrude_tri_face {} {}", f, t.name), &|m| m.extrude_tri_face(f, t.t), c, tris(&l, nv), gone, false);
                }
            }
        }
        if gone.is_none() {
            let fs = (0..n).map(|i| vec![l[i], l[(i + 1) % n], nv]).collect();
            go(format!("fill_hole_apex {}", start), &|m| m.fill_hole_apex(s, vp(w(1))), vec![w(1)], fs, None, true);
        }
    };
    let es = b.boundary();
    for e in es.iter().copied().step_by(if b.thin { es.len() / 4 + 1 } else { 1 }) {
        each(e, None);
    }
    for f in b.raw.fids().into_iter().step_by(if b.thin { 11 } else { 1 }) {
        each(b.raw.ff(f).edge, Some(f));
    }
    // the whole boundary
    let loops: Vec<Vec<usize>> = b.raw.loops().into_iter().filter(|l| b.raw.face(l[0]) == NONE).map(|l| l.iter().map(|e| b.raw.origin(*e) as usize).collect()).collect();
    if b.raw.no_faceless_edge() && distinct(&loops.concat()) {
        for t in ts {
            ctx.transitions.fetch_add(1, SeqCst);
            ctx.case(
                || format!("{} extrude_boundary {}", b.name, t.name),
                || {
                    let mut m = b.mesh.clone();
                    m.extrude_boundary(t.t);
                    let (mut new, mut faces) = (vec![], vec![]);
                    for l in &loops {
                        faces.extend(quads(l, nv + new.len()));
                        new.extend(l.iter().map(|v| pos_vp((t.f)(at(*v)))));
                    }
                    b.check(&m, &new, faces, vec![], None, TOL)?;
                    ctx.traces.fetch_add(1, SeqCst);
                    if m.is_open() {
                        return Err("the mesh is still open".into());
                    }
                    Ok(())
                },
            );
        }
    }
}
pub fn s07(ctx: &Ctx) {
    let bs = bases(ctx);
    let ts = transforms();
    ctx.bound("transforms", "translation, scaling with translation, rotation with translation");
    ctx.par(bs.len() as u64, 2, |i| {
        let b = &bs[i as usize];
        ctx.states.fetch_add(1, SeqCst);
        ctx.sample(|| b.name.clone());
        extrusions(ctx, b, &ts);
    });
}
