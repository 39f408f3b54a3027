//! T08: the triangle container against a plain list of triples.
use crate::engine::*;
use crate::poly::*;
use procedural_modelling::{extensions::nalgebra::*, math::*, prelude::*, tesselate::*};
use std::collections::{HashMap, HashSet, VecDeque};
use std::sync::atomic::Ordering::SeqCst;

type V2 = Vec2<f64>;
type Tri = [usize; 3];
fn v2(p: P, k: f64) -> V2 {
    V2::new(p.0 as f64 * k, p.1 as f64 * k)
}
fn eq<A: PartialEq + std::fmt::Debug>(what: &str, got: A, exp: A) -> Result<(), String> {
    if got == exp {
        Ok(())
    } else {
        Err(format!("{} is {:?} instead of {:?}", what, got, exp))
    }
}
fn near(what: &str, got: f64, exp: f64) -> Result<(), String> {
    if (got - exp).abs() <= 1e-12 * (1.0 + exp.abs()) {
        Ok(())
    } else {
        Err(format!("{} is {} instead of {}", what, got, exp))
    }
}
/// a container that starts behind `pre` and holds `t`
fn with<R>(pre: &[usize], t: &[Tri], f: impl FnOnce(&mut Triangulation<usize>) -> Result<R, String>) -> Result<(R, Vec<usize>), String> {
    let mut ind = pre.to_vec();
    let mut tri = Triangulation::new(&mut ind);
    for x in t {
        tri.insert_triangle(x[0], x[1], x[2]);
    }
    let r = f(&mut tri)?;
    if ind[..pre.len()] != *pre {
        return Err(format!("the indices in front became {:?}", &ind[..pre.len()]));
    }
    Ok((r, ind[pre.len()..].to_vec()))
}
fn flat(t: &[Tri]) -> Vec<usize> {
    t.iter().flatten().copied().collect()
}
/// global ids that are neither dense nor in order
fn gid(i: usize) -> usize {
    [31, 4, 17, 60, 9, 22, 45, 3, 28].get(i).copied().unwrap_or(100 + i * 37 % 101)
}
const PRES: [&[usize]; 4] = [&[], &[1, 2, 3], &[4, 17, 31, 9, 9, 9], &[100, 101, 102, 31, 4, 17, 0, 0, 0, 17, 4, 31, 5, 6, 7]];

/// areas, edge lengths and plain access
fn queries(ctx: &Ctx, pts: &[P], m: usize) {
    let n = pts.len();
    let mut all: Vec<Tri> = vec![];
    for a in 0..n {
        for b in 0..n {
            for c in 0..n {
                if a != b && b != c && a != c {
                    all.push([a, b, c]);
                }
            }
        }
    }
    let base = all.len() as u64;
    let hm: HashMap<usize, V2> = (0..n).map(|i| (gid(i), v2(pts[i], 1.0))).collect();
    ctx.par(base.pow(m as u32), 200, |i| {
        let mut k = i;
        let t: Vec<Tri> = (0..m)
            .map(|_| {
                let r = all[(k % base) as usize];
                k /= base;
                r
            })
            .collect();
        ctx.states.fetch_add(1, SeqCst);
        for pre in PRES {
            ctx.transitions.fetch_add(1, SeqCst);
            ctx.traces.fetch_add(1, SeqCst);
            ctx.case(
                || format!("queries {:?} {:?} behind {}", pts, t, pre.len()).replace(' ', ""),
                || {
                    let g: Vec<Tri> = t.iter().map(|x| [gid(x[0]), gid(x[1]), gid(x[2])]).collect();
                    let d = |a: usize, b: usize| (((pts[a].0 - pts[b].0).pow(2) + (pts[a].1 - pts[b].1).pow(2)) as f64).sqrt();
                    let (_, after) = with(pre, &g, |x| {
                        eq("len", x.len(), m)?;
                        eq("next_pos", x.next_pos(), pre.len() + 3 * m)?;
                        let mut area = 0.0;
                        let mut weight = 0.0;
                        for j in 0..m {
                            eq("get_triangle", x.get_triangle(j), (g[j][0], g[j][1], g[j][2]))?;
                            let a2 = cross(pts[t[j][0]], pts[t[j][1]], pts[t[j][2]]) as f64;
                            near("get_triangle_area", x.get_triangle_area(j, &hm), a2 / 2.0)?;
                            area += a2.abs() / 2.0;
                            for l in 0..3 {
                                eq("get_index", x.get_index(3 * j + l), g[j][l])?;
                                weight += d(t[j][l], t[j][(l + 1) % 3]);
                            }
                        }
                        near("get_area", x.get_area(&hm), area)?;
                        near("total_edge_weight", x.total_edge_weight(&hm), weight)
                    })?;
                    eq("the indices", after, flat(&g))
                },
            );
        }
    });
}
/// every call of flip_edge on every list of m triangles over n labels
fn flips(ctx: &Ctx, n: usize, m: usize) {
    let mut all: Vec<Tri> = vec![];
    for a in 0..n {
        for b in 0..n {
            for c in 0..n {
                if a != b && b != c && a != c {
                    all.push([a, b, c]);
                }
            }
        }
    }
    let base = all.len() as u64;
    ctx.par(base.pow(m as u32), 50, |i| {
        let mut k = i;
        let t: Vec<Tri> = (0..m)
            .map(|_| {
                let r = all[(k % base) as usize];
                k /= base;
                r
            })
            .collect();
        ctx.states.fetch_add(1, SeqCst);
        for pre in [PRES[0], PRES[2]] {
            for a in 0..n {
                for b in 0..n {
                    if a == b {
                        continue;
                    }
                    for p in 0..m {
                        for q in 0..m {
                            if p == q {
                                continue;
                            }
                            ctx.transitions.fetch_add(1, SeqCst);
                            ctx.traces.fetch_add(1, SeqCst);
                            ctx.case(
                                || format!("flip {}-{} of {} and {} in {:?} behind {}", a, b, p, q, t, pre.len()).replace(' ', ""),
                                || {
                                    let find = |x: Tri, u: usize, v: usize| (0..3).find(|l| x[*l] == u && x[(*l + 1) % 3] == v).map(|l| x[(l + 2) % 3]);
                                    let (c, d) = (find(t[p], a, b), find(t[q], b, a));
                                    let (r, after) = with(pre, &t, |x| Ok(x.flip_edge(a, b, pre.len() + 3 * p, pre.len() + 3 * q)))?;
                                    let mut exp = t.clone();
                                    let norm = |x: &Tri| {
                                        let s = (0..3).min_by_key(|l| x[*l]).unwrap();
                                        [x[s], x[(s + 1) % 3], x[(s + 2) % 3]]
                                    };
                                    let got: Vec<Tri> = after.chunks(3).map(|x| [x[0], x[1], x[2]]).collect();
                                    match (c, d) {
                                        (Some(c), Some(d)) => {
                                            eq("the verdict on a shared edge", r, Ok(()))?;
                                            exp[p] = [a, d, c];
                                            exp[q] = [d, b, c];
                                            // the two new triangles may be stored in either slot and start anywhere
                                            let mut e2 = exp.clone();
                                            e2.swap(p, q);
                                            let g: Vec<Tri> = got.iter().map(norm).collect();
                                            let same = |e: &[Tri]| (0..m).all(|l| if l == p || l == q { norm(&e[l]) == g[l] } else { e[l] == got[l] });
                                            if !same(&exp) && !same(&e2) {
                                                return Err(format!("the triangles became {:?} instead of {:?}", got, exp));
                                            }
                                        }
                                        _ => {
                                            eq("the verdict on an edge that is not shared", r, Err(()))?;
                                            eq("the triangles after a rejected flip", got, exp)?;
                                        }
                                    }
                                    Ok(())
                                },
                            );
                        }
                    }
                }
            }
        }
    });
}
/// all sequences of insertions, mappings and nested containers
fn edits(ctx: &Ctx, depth: usize) {
    #[derive(Clone, PartialEq, Eq, Hash, Debug)]
    enum Op {
        Insert(usize, usize, usize),
        Local(usize, usize, usize),
        Direct,
        Map,
        Reborrow,
    }
    let ops = vec![Op::Insert(0, 1, 2), Op::Insert(3, 1, 0), Op::Local(0, 1, 2), Op::Local(3, 2, 0), Op::Map, Op::Reborrow, Op::Direct];
    let vec2s: Vec<IndexedVertex2D<usize, V2>> = [3usize, 0, 2, 1].iter().map(|i| IndexedVertex2D::new(V2::new(*i as f64, 1.0), *i)).collect();
    let map: HashMap<usize, usize> = [(0, 1), (1, 2), (2, 3), (3, 0)].into_iter().collect();
    let mut queue: VecDeque<Vec<Op>> = VecDeque::from([vec![]]);
    let mut seen: HashSet<(Vec<usize>, usize)> = HashSet::new();
    while let Some(w) = queue.pop_front() {
        // model: list and start
        let mut list: Vec<usize> = vec![2, 2, 1];
        let mut start = list.len();
        for o in &w {
            match o {
                Op::Insert(a, b, c) => list.extend([*a, *b, *c]),
                Op::Local(a, b, c) => list.extend([*a, *b, *c].map(|i| [3usize, 0, 2, 1][i])),
                Op::Direct => list.extend([0, 3, 1]),
                Op::Map => list[start..].iter_mut().for_each(|x| *x = map[x]),
                Op::Reborrow => start = list.len(),
            }
        }
        ctx.transitions.fetch_add(1, SeqCst);
        ctx.traces.fetch_add(1, SeqCst);
        ctx.case(
            || format!("edits {:?}", w).replace(' ', ""),
            || {
                let mut real: Vec<usize> = vec![2, 2, 1];
                let mut i = 0;
                let mut len;
                loop {
                    let mut t = Triangulation::new(&mut real);
                    let mut stop = true;
                    let mut direct = false;
                    while i < w.len() {
                        match &w[i] {
                            Op::Insert(a, b, c) => t.insert_triangle(*a, *b, *c),
                            Op::Local(a, b, c) => t.insert_triangle_local(*a, *b, *c, &vec2s),
                            Op::Direct => {
                                // as an algorithm working through a nested container does
                                t.insert_triangle(0, 3, 1);
                                direct = true;
                            }
                            Op::Map => t.map_indices(&map),
                            Op::Reborrow => {
                                stop = false;
                                i += 1;
                                break;
                            }
                        }
                        i += 1;
                    }
                    let _ = direct;
                    len = t.len();
                    if stop {
                        break;
                    }
                }
                eq("the index list", real, list.clone())?;
                eq("len", len, (list.len() - start) / 3)
            },
        );
        if seen.insert((list, start)) {
            ctx.states.fetch_add(1, SeqCst);
        }
        if w.len() < depth {
            for o in &ops {
                let mut x = w.clone();
                x.push(o.clone());
                queue.push_back(x);
            }
        }
    }
    ctx.case(
        || "from_vector".into(),
        || {
            let v = IndexedVertex2D::<usize, V2>::from_vector((0..5).map(|i| V2::new(i as f64, -1.0)).collect());
            for (i, x) in v.iter().enumerate() {
                eq("the index", x.index, i)?;
                eq("the position", x.vec, V2::new(i as f64, -1.0))?;
            }
            eq("the length", v.len(), 5)
        },
    );
}
/// why verification has to reject (None: it has to accept)
fn reject(p: &[P], t: &[Tri]) -> Option<&'static str> {
    let n = p.len();
    if t.len() != n - 2 {
        return Some("wrong number of triangles");
    }
    if t.iter().flatten().any(|v| *v >= n) {
        return Some("foreign vertex");
    }
    if (0..n).any(|v| !t.iter().any(|x| x.contains(&v))) {
        return Some("unused vertex");
    }
    let a: Vec<i64> = t.iter().map(|x| cross(p[x[0]], p[x[1]], p[x[2]])).collect();
    if a.iter().any(|x| *x < 0) {
        return Some("negative area");
    }
    if a.iter().sum::<i64>() != area2(p) {
        return Some("wrong total area");
    }
    for i in 0..t.len() {
        for j in 0..i {
            for k in 0..3 {
                for l in 0..3 {
                    if proper_cross(p[t[i][k]], p[t[i][(k + 1) % 3]], p[t[j][l]], p[t[j][(l + 1) % 3]]) {
                        return Some("crossing edges");
                    }
                }
            }
        }
    }
    None
}
fn verify(ctx: &Ctx, p: &[P], t: &[Tri], pre: &[usize], scale: f64) {
    ctx.transitions.fetch_add(1, SeqCst);
    ctx.traces.fetch_add(1, SeqCst);
    let n = p.len();
    let why = reject(p, t);
    let id = |v: usize| if v < n { gid(v) } else { 277 + v };
    ctx.case(
        || format!("verify {:?} of {:?} behind {} scale {}", t, p, pre.len(), scale).replace(' ', ""),
        || {
            let g: Vec<Tri> = t.iter().map(|x| [id(x[0]), id(x[1]), id(x[2])]).collect();
            let v: Vec<IndexedVertex2D<usize, V2>> = (0..n).map(|i| IndexedVertex2D::new(v2(p[i], scale), gid(i))).collect();
            let hm: HashMap<usize, V2> = v.iter().map(|x| (x.index, x.vec)).collect();
            let one = |what: &str, ok: bool, f: &dyn Fn(&Triangulation<usize>)| -> Result<(), String> {
                let (r, after) = with(pre, &g, |x| Ok(guarded(|| f(x))))?;
                eq("the indices after the verification", after, flat(&g))?;
                match (r, ok) {
                    (Ok(_), true) | (Err(_), false) => Ok(()),
                    (Ok(_), false) => Err(format!("{} accepts a wrong triangulation: {}", what, why.unwrap_or("?"))),
                    (Err(e), true) => Err(format!("{} rejects: {}", what, e)),
                }
            };
            one("verify_full", why.is_none(), &|x| x.verify_full::<V2, Polygon2d<f64>>(&v))?;
            // the single verifications
            let foreign = t.iter().flatten().any(|v| *v >= n);
            one("verify_indices", t.len() == n - 2 && !foreign, &|x| x.verify_indices(&hm))?;
            one("verify_all_indices_used", !foreign && (0..n).all(|v| t.iter().any(|x| x.contains(&v))), &|x| x.verify_all_indices_used(&v))?;
            if !foreign {
                let a: Vec<i64> = t.iter().map(|x| cross(p[x[0]], p[x[1]], p[x[2]])).collect();
                one("verify_non_degenerate_triangle", a.iter().all(|x| *x >= 0), &|x| x.verify_non_degenerate_triangle(&hm))?;
                one("verify_area", a.iter().map(|x| x.abs()).sum::<i64>() == area2(p), &|x| x.verify_area::<V2, Polygon2d<f64>>(&v, &hm))?;
                let mut crossing = false;
                for i in 0..t.len() {
                    for j in 0..i {
                        for k in 0..3 {
                            for l in 0..3 {
                                crossing |= proper_cross(p[t[i][k]], p[t[i][(k + 1) % 3]], p[t[j][l]], p[t[j][(l + 1) % 3]]);
                            }
                        }
                    }
                }
                one("verify_no_intersections", !crossing, &|x| x.verify_no_intersections(&hm))?;
            }
            Ok(())
        },
    );
    match why {
        Some(w) => ctx.count(&format!("rejected: {}", w), 1),
        None => {
            ctx.count("accepted", 1);
            let sep = |x: &Tri, y: &Tri| (0..3).any(|k| (0..3).all(|l| cross(p[x[k]], p[x[(k + 1) % 3]], p[y[l]]) <= 0));
            let area = |x: &Tri| cross(p[x[0]], p[x[1]], p[x[2]]);
            for i in 0..t.len() {
                for j in 0..i {
                    if area(&t[i]) > 0 && area(&t[j]) > 0 && !sep(&t[i], &t[j]) && !sep(&t[j], &t[i]) {
                        ctx.count("accepted although overlapping", 1);
                        ctx.sample(|| format!("accepted although overlapping: {:?} {:?}", p, t));
                    }
                }
            }
        }
    }
}
fn verification(ctx: &Ctx, polys: &[Vec<P>], reversed: bool) {
    for p in polys {
        let n = p.len();
        let mut all: Vec<Tri> = vec![];
        for a in 0..n {
            for b in a + 1..n {
                for c in b + 1..n {
                    all.push([a, b, c]);
                    if reversed {
                        all.push([a, c, b]);
                    }
                }
            }
        }
        let base = all.len();
        // all multisets of n-3 .. n-1 triangles (n-1 only for small n)
        for m in (n - 3).max(1)..=if n <= 5 { n - 1 } else { n - 2 } {
            let mut sets: Vec<Vec<usize>> = vec![];
            let mut cur = vec![0usize; m];
            loop {
                sets.push(cur.clone());
                let Some(i) = (0..m).rev().find(|i| cur[*i] + 1 < base) else { break };
                let x = cur[i] + 1;
                for j in i..m {
                    cur[j] = x;
                }
            }
            ctx.par(sets.len() as u64, 50, |i| {
                ctx.states.fetch_add(1, SeqCst);
                let mut t: Vec<Tri> = sets[i as usize].iter().map(|k| all[*k]).collect();
                // a deterministic variety of starting corners and orders
                for (j, x) in t.iter_mut().enumerate() {
                    x.rotate_left((i as usize + j) % 3);
                }
                t.rotate_left(i as usize % m);
                verify(ctx, p, &t, PRES[i as usize % 4], [1.0, 0.0625, 64.0][i as usize % 3]);
                if i % 16 == 0 {
                    let mut f = t.clone();
                    f[0][1] = n;
                    verify(ctx, p, &f, PRES[1], 1.0);
                }
            });
        }
        // every exact triangulation behind every prefix
        if reject(p, &all[..1]).is_none() {
            for pre in PRES {
                verify(ctx, p, &all[..1], pre, 1.0);
            }
        }
    }
}
/// exact triangulations from the library itself, damaged in every single place
fn damaged(ctx: &Ctx, polys: &[Vec<P>]) {
    ctx.par(polys.len() as u64, if polys.len() < 50 { 1 } else { 4 }, |i| {
        let p = &polys[i as usize];
        let n = p.len();
        let Some(t) = ctx.case(
            || format!("triangulate {:?}", p).replace(' ', ""),
            || {
                let v: Vec<Vec3<f64>> = p.iter().map(|q| Vec3::new(q.0 as f64, q.1 as f64, 0.0)).collect();
                let m = crate::t_tri::face_mesh(&v)?;
                crate::t_tri::run(&m, &|m, t| minweight_dynamic::<MeshType3d64PNU>(m.face(0), m, t))
            },
        ) else {
            return;
        };
        ctx.states.fetch_add(1, SeqCst);
        for pre in PRES {
            verify(ctx, p, &t, pre, 1.0);
        }
        for a in 0..t.len() {
            let mut x = t.clone();
            x.swap_remove(a);
            verify(ctx, p, &x, PRES[a % 4], 1.0);
            let mut x = t.clone();
            x[a].swap(1, 2);
            verify(ctx, p, &x, PRES[(a + 1) % 4], 1.0);
            for b in 0..t.len() {
                let mut x = t.clone();
                x.push(t[b]);
                verify(ctx, p, &x, PRES[b % 4], 1.0);
                let mut x = t.clone();
                x[a] = t[b];
                verify(ctx, p, &x, PRES[(a + b) % 4], 1.0);
            }
            for k in 0..3 {
                for v in 0..n {
                    if !t[a].contains(&v) {
                        let mut x = t.clone();
                        x[a][k] = v;
                        verify(ctx, p, &x, PRES[(a + v) % 4], 1.0);
                    }
                }
            }
        }
    });
}
pub fn t08(ctx: &Ctx) {
    ctx.bound("queries", "all lists of 1 and 2 (thorough 3) triangles over 5 (4) points, behind 4 prefixes");
    queries(ctx, &[(0, 0), (3, 0), (4, 4), (1, 2), (-2, 5)], 1);
    queries(ctx, &[(0, 0), (3, 0), (4, 4), (1, 2), (-2, 5)], 2);
    queries(ctx, &[(0, 0), (3, 0), (4, 4), (1, 0)], 3);
    ctx.bound("flips", format!("all calls on all lists of 2 triangles over {} labels and 3 triangles over 4 labels", ctx.b(4, 5)));
    flips(ctx, ctx.b(4, 5), 2);
    flips(ctx, 4, 3);
    ctx.bound("edits", format!("all sequences of {} edits", ctx.b(5, 6)));
    edits(ctx, ctx.b(5, 6));
    let mut q = vec![];
    polygons(&grid(3, 3), 3, 5, true, true, &mut q);
    let small: Vec<Vec<P>> = q.iter().filter(|p| p.len() <= 4).cloned().collect();
    let five: Vec<Vec<P>> = q.iter().filter(|p| p.len() == 5).cloned().collect();
    ctx.bound("verification", format!("all sets of n-3 to n-1 oriented triangles for all 3x3 grid polygons with 3 and 4 corners ({}) and 5 corners (unoriented sets, {})", small.len(), five.len()));
    verification(ctx, &small, true);
    verification(ctx, &five, ctx.thorough);
    if ctx.thorough {
        let mut six = vec![];
        polygons(&grid(3, 3), 6, 6, true, true, &mut six);
        let six: Vec<Vec<P>> = six.into_iter().step_by(4).collect();
        verification(ctx, &six, false);
    }
    let mut big = vec![];
    polygons(&grid(3, 3), 5, 9, true, true, &mut big);
    polygons(&general(8, 1), 6, ctx.b(6, 8), false, false, &mut big);
    ctx.bound("damaged triangulations", format!("{} polygons: every removal, doubling, replacement, turn and single corner change of a correct triangulation", big.len()));
    damaged(ctx, &big);
    let mut huge: Vec<Vec<P>> = vec![];
    for n in [12i64, 20, ctx.b(26, 40)] {
        huge.push((0..n).map(|i| (i, i * i)).collect());
        let h = n / 2;
        huge.push((0..n).map(|j| if j < h { (3 * j, -(j % 2) * 5) } else { (3 * (n - 1 - j) + 1, 9 + j * j % 5) }).collect());
    }
    ctx.bound("damaged larger triangulations", format!("{} polygons with up to {} corners, likewise", huge.len(), huge.iter().map(|p| p.len()).max().unwrap()));
    damaged(ctx, &huge);
}
