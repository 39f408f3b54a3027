//! S09: subdivision refines every triangle into the prescribed pattern.
use crate::engine::*;
use crate::shapes::*;
use crate::topo::*;
use procedural_modelling::{extensions::nalgebra::*, math::*, operations::*, prelude::*};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::Ordering::SeqCst;

/// What a mesh must consist of: vertices given by position (the label is the index), faces as cycles of labels,
/// edges as unordered pairs of labels.
#[derive(Clone, Default)]
pub struct Expect<const D: usize> {
    pub pos: Vec<[f64; D]>,
    pub faces: Vec<Vec<usize>>,
    /// edges beyond those of the faces
    pub extra: Vec<(usize, usize)>,
}
pub fn cycle(f: &[usize]) -> Vec<usize> {
    let mut g = f.to_vec();
    let m = (0..g.len()).min_by_key(|i| (g[*i], g[(*i + 1) % g.len()])).unwrap_or(0);
    g.rotate_left(m);
    g
}
impl<const D: usize> Expect<D> {
    /// Compares with a snapshot and the positions of its vertices; returns the vertex of every label.
    pub fn compare(&self, raw: &Raw, at: impl Fn(u32) -> [f64; D], tol: f64) -> Result<Vec<u32>, String> {
        raw.validate()?;
        if let Some(f) = raw.fids().into_iter().find(|f| raw.ff(*f).curved) {
            return Err(format!("face {} is marked as curved", f));
        }
        let vs = raw.vids();
        if vs.len() != self.pos.len() {
            return Err(format!("{} vertices instead of {}", vs.len(), self.pos.len()));
        }
        let mut label: BTreeMap<u32, usize> = BTreeMap::new();
        let mut who = vec![NONE; self.pos.len()];
        // vertices sorted by their first coordinate for a quick search
        let mut order: Vec<usize> = (0..self.pos.len()).collect();
        order.sort_by(|a, b| self.pos[*a][0].total_cmp(&self.pos[*b][0]));
        for v in vs {
            let p = at(v);
            let from = order.partition_point(|i| self.pos[*i][0] < p[0] - tol);
            let mut hit = None;
            for k in from..order.len() {
                let i = order[k];
                if self.pos[i][0] > p[0] + tol {
                    break;
                }
                if who[i] == NONE && (0..D).all(|c| (self.pos[i][c] - p[c]).abs() <= tol) {
                    hit = Some(i);
                    // prefer the same id if it fits
                    if i as u32 == v {
                        break;
                    }
                }
            }
            match hit {
                None => return Err(format!("vertex {} is at {:?}, where no (further) vertex belongs", v, p)),
                Some(i) => {
                    who[i] = v;
                    label.insert(v, i);
                }
            }
        }
        let mut got: Vec<Vec<usize>> = raw.fids().iter().map(|f| cycle(&raw.lp(raw.ff(*f).edge).iter().map(|e| label[&raw.origin(*e)]).collect::<Vec<_>>())).collect();
        let mut exp: Vec<Vec<usize>> = self.faces.iter().map(|f| cycle(f)).collect();
        got.sort();
        exp.sort();
        if got != exp {
            let miss: Vec<_> = exp.iter().filter(|f| !got.contains(f)).take(4).collect();
            let more: Vec<_> = got.iter().filter(|f| !exp.contains(f)).take(4).collect();
            return Err(format!("{} faces instead of {}: missing {:?}, unexpected {:?}", got.len(), exp.len(), miss, more));
        }
        let mut ee: BTreeSet<(usize, usize)> = self.extra.iter().map(|(a, b)| (*a.min(b), *a.max(b))).collect();
        for f in &self.faces {
            for i in 0..f.len() {
                let (a, b) = (f[i], f[(i + 1) % f.len()]);
                ee.insert((a.min(b), a.max(b)));
            }
        }
        let mut ge: Vec<(usize, usize)> = raw.eids().iter().map(|e| (label[&raw.origin(*e)], label[&raw.target(*e)])).filter(|(a, b)| a < b).collect();
        ge.sort();
        let ee: Vec<(usize, usize)> = ee.into_iter().collect();
        if ge != ee {
            let miss: Vec<_> = ee.iter().filter(|f| !ge.contains(f)).take(4).collect();
            let more: Vec<_> = ge.iter().filter(|f| !ee.contains(f)).take(4).collect();
            return Err(format!("{} edges instead of {}: missing {:?}, unexpected {:?}", ge.len(), ee.len(), miss, more));
        }
        Ok(who)
    }
}
pub fn snap3(m: &Mesh3d64) -> Result<Raw, String> {
    snap_with::<MeshType3d64PNU>(m, |_| 0, |_| 0, |_| 0)
}
pub fn at3(m: &Mesh3d64) -> impl Fn(u32) -> [f64; 3] + '_ {
    |v| {
        let p: V3 = m.vertex(v as usize).pos();
        [p[0], p[1], p[2]]
    }
}
/// splits every triangle in four, `mid` gives the position between two
fn split<const D: usize>(e: &Expect<D>, mid: &dyn Fn([f64; D], [f64; D]) -> [f64; D]) -> Expect<D> {
    let mut r = Expect { pos: e.pos.clone(), faces: vec![], extra: vec![] };
    let mut m: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for f in &e.faces {
        let h: Vec<usize> = (0..3)
            .map(|i| {
                let (a, b) = (f[i], f[(i + 1) % 3]);
                *m.entry((a.min(b), a.max(b))).or_insert_with(|| {
                    r.pos.push(mid(e.pos[a], e.pos[b]));
                    r.pos.len() - 1
                })
            })
            .collect();
        for i in 0..3 {
            r.faces.push(vec![f[i], h[i], h[(i + 2) % 3]]);
        }
        r.faces.push(h);
    }
    r
}
/// independent statement for linear frequency subdivision: the n*n lattice triangles of each face
fn lattice<const D: usize>(e: &Expect<D>, n: usize) -> Vec<[[i64; D]; 3]> {
    let mut r = vec![];
    for f in &e.faces {
        let p = |i: usize, j: usize| -> [i64; D] {
            let k = n - i - j;
            std::array::from_fn(|c| e.pos[f[0]][c] as i64 * k as i64 + e.pos[f[1]][c] as i64 * i as i64 + e.pos[f[2]][c] as i64 * j as i64)
        };
        for i in 0..n {
            for j in 0..n - i {
                r.push([p(i, j), p(i + 1, j), p(i, j + 1)]);
                if i + j + 2 <= n {
                    r.push([p(i + 1, j), p(i + 1, j + 1), p(i, j + 1)]);
                }
            }
        }
    }
    for t in r.iter_mut() {
        let m = (0..3).min_by_key(|i| t[*i]).unwrap();
        t.rotate_left(m);
    }
    r.sort();
    r
}
/// records how it is called
struct Recorder<'a, const D: usize> {
    calls: &'a RefCell<Vec<[(usize, usize); 3]>>,
}
impl<'a> VertexInterpolator<3, MeshType3d64PNU> for Recorder<'a, 3> {
    fn call(&self, mesh: &Mesh3d64, v: [(usize, usize); 3]) -> VertexPayloadPNU<f64, 3> {
        self.calls.borrow_mut().push(v);
        VertexInterpolator::<3, MeshType3d64PNU>::call(&LinearVertexInterpolator::<3> {}, mesh, v)
    }
}
struct Base {
    name: String,
    pos: Vec<[f64; 3]>,
    faces: Faces,
    /// 0: edge and face ids as the builders assign them, otherwise one of the other numberings
    ids: usize,
}
fn expect(b: &Base) -> Expect<3> {
    Expect { pos: b.pos.clone(), faces: b.faces.iter().map(|f| f.iter().map(|v| *v as usize).collect()).collect(), extra: vec![] }
}
fn build(b: &Base) -> Mesh3d64 {
    let r = from_faces(b.pos.len() as u32, &b.faces);
    let at = |v: u32| V3::new(b.pos[v as usize][0], b.pos[v as usize][1], b.pos[v as usize][2]);
    if b.ids == 0 {
        mesh3(&r, at)
    } else {
        mesh3_edges_renumbered(&r, b.ids - 1, at)
    }
}
/// old vertices: same ids, same payloads
fn survived(m: &Mesh3d64, old: &[(usize, VertexPayloadPNU<f64, 3>)]) -> Result<(), String> {
    for (i, p) in old {
        if !m.has_vertex(*i) || m.vertex(*i).payload() != p {
            return Err(format!("vertex {} did not survive", i));
        }
    }
    Ok(())
}
fn payloads(m: &mut Mesh3d64) -> Vec<(usize, VertexPayloadPNU<f64, 3>)> {
    for (i, v) in m.vertices_mut().enumerate() {
        v.payload_mut().set_normal(V3::new(1.0, i as f64, 2.0));
    }
    m.vertices().map(|v| (v.id(), v.payload().clone())).collect()
}
fn one(ctx: &Ctx, b: &Base, freqs: &[usize], slerp: bool) {
    ctx.states.fetch_add(1, SeqCst);
    // one step
    ctx.case(
        || format!("loop {}", b.name),
        || {
            ctx.transitions.fetch_add(1, SeqCst);
            ctx.traces.fetch_add(1, SeqCst);
            let mut m = build(b);
            let old = payloads(&mut m);
            let (open, euler) = (m.is_open(), euler_of(&m));
            let calls = RefCell::new(vec![]);
            m.loop_subdivision(&Recorder::<3> { calls: &calls });
            let e = split(&expect(b), &|a, b| std::array::from_fn(|i| (a[i] + b[i]) / 2.0));
            e.compare(&snap3(&m)?, at3(&m), 0.0)?;
            survived(&m, &old)?;
            if m.is_open() != open || euler_of(&m) != euler {
                return Err(format!("open {} -> {}, Euler characteristic {} -> {}", open, m.is_open(), euler, euler_of(&m)));
            }
            m.check()?;
            // the interpolator sees each edge once, together with the corners of a face at that edge
            let mut edges: BTreeSet<(usize, usize)> = BTreeSet::new();
            for c in calls.borrow().iter() {
                let w: Vec<usize> = c.iter().filter(|x| x.0 == 1).map(|x| x.1).collect();
                let z: Vec<usize> = c.iter().filter(|x| x.0 == 0).map(|x| x.1).collect();
                if w.len() != 2 || z.len() != 1 {
                    return Err(format!("the interpolator was called with {:?}", c));
                }
                if !b.faces.iter().any(|f| c.iter().all(|x| f.contains(&(x.1 as u32)))) {
                    return Err(format!("the interpolator was called with {:?}, which is no face", c));
                }
                if !edges.insert((w[0].min(w[1]), w[0].max(w[1]))) {
                    return Err(format!("the edge {:?} was interpolated twice", w));
                }
            }
            Ok(())
        },
    );
    for n in freqs {
        ctx.case(
            || format!("frequency {} {}", n, b.name),
            || {
                ctx.transitions.fetch_add(1, SeqCst);
                ctx.traces.fetch_add(1, SeqCst);
                let mut m = build(b);
                let old = payloads(&mut m);
                let (open, euler) = (m.is_open(), euler_of(&m));
                m.subdivision_frequency(SubdivisionDescription::new(*n, 0), LinearVertexInterpolator::<3> {});
                let mut e = expect(b);
                let first = e.clone();
                let mut k = 1;
                while k < *n {
                    e = split(&e, &|a, b| std::array::from_fn(|i| (a[i] + b[i]) / 2.0));
                    k *= 2;
                }
                e.compare(&snap3(&m)?, at3(&m), 0.0)?;
                // and once more without the recursion
                let raw = snap3(&m)?;
                let at = at3(&m);
                let mut got: Vec<[[i64; 3]; 3]> = raw
                    .fids()
                    .iter()
                    .map(|f| {
                        let l = raw.lp(raw.ff(*f).edge);
                        std::array::from_fn(|i| at(raw.origin(l[i])).map(|c| (c * *n as f64) as i64))
                    })
                    .collect();
                for t in got.iter_mut() {
                    let m = (0..3).min_by_key(|i| t[*i]).unwrap();
                    t.rotate_left(m);
                }
                got.sort();
                if got != lattice(&first, *n) {
                    return Err("the triangles are not the lattice triangles".into());
                }
                if m.num_faces() != b.faces.len() * n * n {
                    return Err(format!("{} faces", m.num_faces()));
                }
                survived(&m, &old)?;
                if m.is_open() != open || euler_of(&m) != euler {
                    return Err(format!("open {} -> {}, Euler characteristic {} -> {}", open, m.is_open(), euler, euler_of(&m)));
                }
                m.check()
            },
        );
        if !slerp {
            continue;
        }
        for (c, rad) in [([0.25, -0.5, 0.125], 1.0), ([1.0, 1.5, -0.25], 3.5)] {
            ctx.case(
                || format!("slerp {} {} around {:?} radius {}", n, b.name, c, rad),
                || {
                    ctx.transitions.fetch_add(1, SeqCst);
                    ctx.traces.fetch_add(1, SeqCst);
                    let mut m = build(b);
                    let cc = V3::new(c[0], c[1], c[2]);
                    m.subdivision_frequency(SubdivisionDescription::new(*n, 0), SlerpVertexInterpolator::<3, MeshType3d64PNU>::new(cc, rad));
                    let unit = |a: [f64; 3]| {
                        let d: [f64; 3] = std::array::from_fn(|i| a[i] - c[i]);
                        let l = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
                        d.map(|x| x / l)
                    };
                    let mut e = expect(b);
                    let mut k = 1;
                    while k < *n {
                        e = split(&e, &|a, b| {
                            let (x, y) = (unit(a), unit(b));
                            let s: [f64; 3] = std::array::from_fn(|i| x[i] + y[i]);
                            let l = (s[0] * s[0] + s[1] * s[1] + s[2] * s[2]).sqrt();
                            std::array::from_fn(|i| c[i] + s[i] / l * rad)
                        });
                        k *= 2;
                    }
                    e.compare(&snap3(&m)?, at3(&m), 1e-7)?;
                    for v in m.vertices() {
                        let p: V3 = v.pos();
                        if v.id() >= b.pos.len() && ((p - cc).norm() - rad).abs() > 1e-9 {
                            return Err(format!("vertex {} is at distance {}", v.id(), (p - cc).norm()));
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}
/// corners no two of whose mid points coincide
fn corner(i: u32) -> [f64; 3] {
    let t = i as f64;
    [64.0 * t - 100.0, 64.0 * t * t - 7.0 * t, 64.0 * (t * t * t - 5.0 * t)]
}
pub fn s09(ctx: &Ctx) {
    let t = ctx.thorough;
    for b in 1..=12usize {
        for c in 0..=12usize {
            ctx.case(
                || format!("description {} {}", b, c),
                || {
                    let d = SubdivisionDescription::new(b, c);
                    if d.b() != b || d.c() != c || d.frequency() != b + c || d.triangulation_number() != b * b + b * c + c * c {
                        return Err(format!("{:?} {} {}", d, d.frequency(), d.triangulation_number()));
                    }
                    Ok(())
                },
            );
        }
    }
    let fr: Vec<usize> = if t { vec![1, 2, 4, 8, 16] } else { vec![1, 2, 4, 8] };
    // all small complexes
    let fams: Vec<(u32, usize, Vec<usize>)> = if t { vec![(4, 4, fr.clone()), (5, 20, vec![2, 4, 8]), (6, 8, vec![2, 4]), (7, 6, vec![2])] } else { vec![(4, 4, fr.clone()), (5, 20, vec![2, 4]), (6, 7, vec![2, 4])] };
    for (nv, max, fr) in fams {
        let mut cs = complexes(nv, &[3], max);
        cs.retain(|c| one_star(&from_faces(nv, c)) && simplicial(c));
        ctx.bound(&format!("triangle complexes over {} vertices", nv), format!("all {} with <= {} faces, frequencies {:?}", cs.len(), max, fr));
        ctx.par(cs.len() as u64, 8, |i| {
            let b = Base { name: format!("{:?}", cs[i as usize]).replace(' ', ""), pos: (0..nv).map(corner).collect(), faces: cs[i as usize].clone(), ids: 0 };
            ctx.sample(|| b.name.clone());
            one(ctx, &b, &fr, false);
            one(ctx, &Base { name: b.name + " renumbered", ids: 1 + i as usize % 2, ..b }, &fr, false);
        });
    }
    // high frequencies on single triangles and small closed meshes
    let high: Vec<usize> = if t { vec![3, 5, 16, 32, 64] } else { vec![16, 32] };
    for (name, nv, faces) in [
        ("triangle", 3u32, vec![vec![0, 1, 2]]),
        ("two triangles", 4, vec![vec![0u32, 1, 2], vec![0, 2, 3]]),
        ("tetrahedron", 4, vec![vec![0, 2, 1], vec![0, 1, 3], vec![1, 2, 3], vec![2, 0, 3]]),
    ] {
        ctx.bound(&format!("high frequencies on a {}", name), format!("{:?}", high));
        for ids in 0..3 {
            for h in high.iter().filter(|h| h.is_power_of_two()) {
                one(ctx, &Base { name: format!("{} ids {}", name, ids), pos: (0..nv).map(corner).collect(), faces: faces.clone(), ids }, &[*h], false);
            }
        }
    }
    // triangulated solids with every set of faces removed
    for s in solids().into_iter().filter(|s| s.name != "L prism") {
        let mut faces: Faces = vec![];
        for f in &s.faces {
            for i in 1..f.len() - 1 {
                faces.push(vec![f[0], f[i], f[i + 1]]);
            }
        }
        let n = faces.len();
        let keep: Vec<u64> = if n <= 8 || (t && n <= 12) {
            (1..1u64 << n).collect()
        } else {
            // whole, one, two or three faces removed
            (0..1u64 << n).filter(|k: &u64| k.count_ones() as usize >= n - t.then_some(3).unwrap_or(2)).collect()
        };
        ctx.bound(&format!("{} with faces removed", s.name), format!("{} sets of {} triangles", keep.len(), n));
        ctx.par(keep.len() as u64, 4, |i| {
            let k = keep[i as usize];
            let b = Base {
                name: format!("{} {:b}", s.name, k),
                pos: s.pos.iter().map(|p| [p.0 as f64 * 64.0, p.1 as f64 * 64.0, p.2 as f64 * 64.0]).collect(),
                faces: (0..n).filter(|i| k >> i & 1 == 1).map(|i| faces[i].clone()).collect(),
                ids: 0,
            };
            if !one_star(&from_faces(b.pos.len() as u32, &b.faces)) || !simplicial(&b.faces) {
                return;
            }
            one(ctx, &b, &fr[..ctx.b(3, 4)], s.name == "tetrahedron" || s.name == "octahedron");
            one(ctx, &Base { name: b.name + " renumbered", ids: 1 + i as usize % 2, ..b }, &fr[..2], false);
        });
    }
    // larger meshes cut into triangles
    let l: Vec<(String, Raw)> = huge(t).into_iter().chain(larger(ctx.b(14, 30))).filter(|x| one_star(&x.1) && x.0 != "L prism").collect();
    ctx.bound("larger meshes", format!("{} meshes cut into triangles, ids as built and renumbered, frequencies 1, 2, 4", l.len()));
    ctx.par(l.len() as u64, 1, |i| {
        let (name, raw) = &l[i as usize];
        let mut faces: Faces = vec![];
        for f in raw.fids() {
            let c: Vec<u32> = raw.lp(raw.ff(f).edge).iter().map(|e| raw.origin(*e)).collect();
            for i in 1..c.len() - 1 {
                faces.push(vec![c[0], c[i], c[i + 1]]);
            }
        }
        if !simplicial(&faces) || (0..raw.nv() as u32).any(|v| !faces.iter().any(|f| f.contains(&v))) {
            return;
        }
        ctx.count("larger meshes", 1);
        for ids in 0..3 {
            let b = Base { name: format!("{} ids {}", name, ids), pos: (0..raw.nv() as u32).map(corner).collect(), faces: faces.clone(), ids };
            one(ctx, &b, &[1, 2, 4], false);
        }
    });
    histories(ctx);
}
/// Subdividing after faces were removed from (or added to) the real mesh: ids with gaps, recycled slots.
fn histories(ctx: &Ctx) {
    for s in solids().into_iter().filter(|s| s.name == "tetrahedron" || s.name == "octahedron") {
        let n = s.faces.len();
        ctx.bound(&format!("subdividing, removing faces, subdividing: {}", s.name), format!("{} sets removed, at two places", 1u64 << n));
        ctx.par(1 << n, 4, |k| {
            ctx.states.fetch_add(1, SeqCst);
            ctx.case(
                || format!("history {} {:b}", s.name, k),
                || {
                    let b = Base { name: s.name.clone(), pos: s.pos.iter().map(|p| [p.0 as f64 * 64.0, p.1 as f64 * 64.0, p.2 as f64 * 64.0]).collect(), faces: s.faces.clone(), ids: (k % 3) as usize };
                    let mut m = build(&b);
                    let mut e = expect(&b);
                    let mid = |a: [f64; 3], b: [f64; 3]| std::array::from_fn(|i| (a[i] + b[i]) / 2.0);
                    for (round, step) in [(0, 0usize), (1, 3), (2, 1)] {
                        ctx.transitions.fetch_add(1, SeqCst);
                        if round > 0 {
                            // remove the faces with these corners; keep connected edges by dropping only faces
                            let mut drop = vec![];
                            for i in 0..n {
                                if k >> i & 1 == 1 {
                                    drop.push((i * (step + 1) + round) % e.faces.len());
                                }
                            }
                            drop.sort();
                            drop.dedup();
                            // an edge between two removed faces would stay behind without a face
                            let gone: Vec<(usize, usize)> = drop.iter().flat_map(|d| { let f = e.faces[*d].clone(); (0..3).map(move |j| (f[j], f[(j + 1) % 3])) }).collect();
                            if gone.iter().any(|(a, b)| gone.contains(&(*b, *a))) {
                                return Ok(());
                            }
                            let raw = snap3(&m)?;
                            let who = e.compare(&raw, at3(&m), 0.0)?;
                            for d in drop.iter().rev() {
                                let f = &e.faces[*d];
                                let h = raw.find(who[f[0]], who[f[1]]).unwrap();
                                if raw.face(h) == NONE {
                                    return Ok(());
                                }
                                MeshBuilder::<MeshType3d64PNU>::remove_face(&mut m, raw.face(h) as usize);
                                e.faces.remove(*d);
                            }
                            let used: BTreeSet<usize> = e.faces.iter().flatten().copied().collect();
                            if used.len() != e.pos.len() {
                                return Ok(());
                            }
                            let r = snap3(&m)?;
                            if r.eids().into_iter().any(|h| r.face(h) == NONE && r.face(r.twin(h)) == NONE) {
                                return Ok(());
                            }
                        }
                        m.loop_subdivision(&LinearVertexInterpolator::<3> {});
                        e = split(&e, &mid);
                        e.compare(&snap3(&m)?, at3(&m), 0.0).map_err(|x| format!("round {}: {}", round, x))?;
                        ctx.traces.fetch_add(1, SeqCst);
                        ctx.count("rounds on real histories", 1);
                    }
                    Ok(())
                },
            );
        });
    }
}
fn euler_of(m: &Mesh3d64) -> i64 {
    m.num_vertices() as i64 - (m.num_edges() / 2) as i64 + m.num_faces() as i64
}
/// no two triangles with the same corners (subdividing those would need parallel edges)
fn simplicial(c: &Faces) -> bool {
    let sets: BTreeSet<BTreeSet<u32>> = c.iter().map(|f| f.iter().copied().collect()).collect();
    sets.len() == c.len()
}
