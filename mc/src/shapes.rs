//! Meshes from face lists, independent of the library's builders: families of small complexes and solids.
use crate::realize::realize;
use crate::topo::*;
use procedural_modelling::{extensions::nalgebra::*, prelude::*};
use std::collections::{BTreeMap, BTreeSet};

pub type Faces = Vec<Vec<u32>>;
pub type V3 = Vec3<f64>;

/// The half-edge structure of an oriented face list over `nv` vertices (every directed edge at most once).
/// Several fans at one vertex are joined through their boundary edges in order of appearance.
pub fn from_faces(nv: u32, faces: &[Vec<u32>]) -> Raw {
    let mut id: BTreeMap<(u32, u32), u32> = BTreeMap::new();
    let mut r = Raw { v: (0..nv).map(|_| Some(RV { edge: NONE, tag: 0 })).collect(), e: vec![], f: vec![] };
    let mut edge = |r: &mut Raw, a: u32, b: u32| -> u32 {
        if let Some(e) = id.get(&(a, b)) {
            return *e;
        }
        let e = r.e.len() as u32;
        for (o, t) in [(a, e + 1), (b, e)] {
            r.e.push(Some(RE { next: NONE, prev: NONE, twin: t, origin: o, face: NONE, tag: 0 }));
        }
        id.insert((a, b), e);
        id.insert((b, a), e + 1);
        e
    };
    for f in faces {
        let fi = r.f.len() as u32;
        let n = f.len();
        let es: Vec<u32> = (0..n).map(|i| edge(&mut r, f[i], f[(i + 1) % n])).collect();
        for i in 0..n {
            let e = es[i];
            assert_eq!(r.face(e), NONE, "directed edge used twice in {:?}", faces);
            r.em(e).face = fi;
            r.em(e).next = es[(i + 1) % n];
            r.em(es[(i + 1) % n]).prev = e;
            if r.vv(f[i]).edge == NONE {
                r.v[f[i] as usize].as_mut().unwrap().edge = e;
            }
        }
        r.f.push(Some(RF { edge: es[0], curved: false, tag: 0 }));
    }
    // boundaries: fans at every vertex
    let mut open: Vec<Vec<u32>> = vec![vec![]; nv as usize];
    for o in r.eids() {
        if r.face(o) == NONE {
            open[r.origin(o) as usize].push(o);
        }
    }
    for v in 0..nv {
        // (boundary edge into v, boundary edge out of v) of each fan, the in-edge is followed by the out-edge
        let mut fans: Vec<(u32, u32)> = vec![];
        for o in open[v as usize].iter().copied() {
            // o leaves v along the boundary; its twin enters v with a face; walk over the fan
            let mut e = r.twin(o);
            while r.face(e) != NONE {
                e = r.twin(r.next(e));
            }
            // e enters v without a face
            fans.push((e, o));
        }
        let k = fans.len();
        for i in 0..k {
            let (a, b) = (fans[i].0, fans[(i + 1) % k].1);
            r.em(a).next = b;
            r.em(b).prev = a;
        }
    }
    r
}
pub fn mesh3(r: &Raw, pos: impl Fn(u32) -> V3) -> Mesh3d64 {
    realize::<MeshType3d64PNU>(r, |v| VertexPayloadPNU::from_pos(pos(v)), |_| Default::default(), |_| Default::default())
}
/// some faces are marked as curved (the mark alone changes nothing else)
pub fn marked(mut r: Raw) -> Raw {
    let n = r.v.len();
    r.f.iter_mut().enumerate().for_each(|(i, f)| f.as_mut().unwrap().curved = (i + n) % 3 == 2);
    r
}
/// the same mesh with all ids renumbered
pub fn mesh3_renumbered(r: &Raw, k: usize, pos: impl Fn(u32) -> V3) -> Mesh3d64 {
    let mut r = r.clone();
    for v in r.vids() {
        r.v[v as usize].as_mut().unwrap().tag = v;
    }
    let s = crate::realize::scramble(&r, k);
    crate::realize::realize_ids::<MeshType3d64PNU>(&s, |v| VertexPayloadPNU::from_pos(pos(s.vv(v).tag)), |_| Default::default(), |_| Default::default())
}
/// the same mesh with edges and faces renumbered
pub fn mesh3_edges_renumbered(r: &Raw, k: usize, pos: impl Fn(u32) -> V3) -> Mesh3d64 {
    let s = crate::realize::scramble_with(r, k, false);
    crate::realize::realize_ids::<MeshType3d64PNU>(&s, |v| VertexPayloadPNU::from_pos(pos(v)), |_| Default::default(), |_| Default::default())
}
pub fn i3(p: (i64, i64, i64)) -> V3 {
    V3::new(p.0 as f64, p.1 as f64, p.2 as f64)
}
fn canon(nv: u32, faces: &Faces, perms: &[Vec<u32>]) -> Faces {
    let mut best: Option<Faces> = None;
    for p in perms {
        let mut fs: Faces = faces
            .iter()
            .map(|f| {
                let mut g: Vec<u32> = f.iter().map(|v| p[*v as usize]).collect();
                let m = (0..g.len()).min_by_key(|i| g[*i]).unwrap();
                g.rotate_left(m);
                g
            })
            .collect();
        fs.sort();
        if best.as_ref().map_or(true, |b| fs < *b) {
            best = Some(fs);
        }
    }
    let _ = nv;
    best.unwrap()
}
/// All oriented complexes with up to `max` faces of the given sizes over `nv` vertices in which every directed
/// edge occurs at most once, up to renaming of vertices.
pub fn complexes(nv: u32, sizes: &[usize], max: usize) -> Vec<Faces> {
    let mut cycles: Faces = vec![];
    fn rec(nv: u32, n: usize, cur: &mut Vec<u32>, out: &mut Faces) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for v in 0..nv {
            if !cur.contains(&v) && (cur.is_empty() || v > cur[0]) {
                cur.push(v);
                rec(nv, n, cur, out);
                cur.pop();
            }
        }
    }
    for s in sizes {
        rec(nv, *s, &mut vec![], &mut cycles);
    }
    let perms = crate::realize::permutations(nv as usize);
    let mut level: BTreeSet<Faces> = BTreeSet::from([vec![]]);
    let mut all: Vec<Faces> = vec![];
    for _ in 0..max {
        let mut next: BTreeSet<Faces> = BTreeSet::new();
        for c in &level {
            let used: BTreeSet<(u32, u32)> = c.iter().flat_map(|f| (0..f.len()).map(move |i| (f[i], f[(i + 1) % f.len()]))).collect();
            for f in &cycles {
                if (0..f.len()).any(|i| used.contains(&(f[i], f[(i + 1) % f.len()]))) {
                    continue;
                }
                let mut d = c.clone();
                d.push(f.clone());
                next.insert(canon(nv, &d, &perms));
            }
        }
        all.extend(next.iter().cloned());
        level = next;
    }
    all
}
pub struct Solid {
    pub name: String,
    pub pos: Vec<(i64, i64, i64)>,
    pub faces: Faces,
}
fn f(x: &[&[u32]]) -> Faces {
    x.iter().map(|y| y.to_vec()).collect()
}
/// solids with integer corners, faces counter-clockwise seen from outside
pub fn solids() -> Vec<Solid> {
    let mut r = vec![];
    r.push(Solid { name: "tetrahedron".into(), pos: vec![(0, 0, 0), (3, 0, 0), (0, 4, 0), (1, 1, 5)], faces: f(&[&[0, 2, 1], &[0, 1, 3], &[1, 2, 3], &[2, 0, 3]]) });
    r.push(Solid {
        name: "cube".into(),
        pos: vec![(0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0), (0, 0, 2), (2, 0, 2), (2, 2, 2), (0, 2, 2)],
        faces: f(&[&[0, 3, 2, 1], &[4, 5, 6, 7], &[0, 1, 5, 4], &[1, 2, 6, 5], &[2, 3, 7, 6], &[3, 0, 4, 7]]),
    });
    r.push(Solid {
        name: "octahedron".into(),
        pos: vec![(3, 0, 0), (0, 3, 0), (-3, 0, 0), (0, -3, 0), (0, 0, 4), (0, 0, -2)],
        faces: f(&[&[0, 1, 4], &[1, 2, 4], &[2, 3, 4], &[3, 0, 4], &[1, 0, 5], &[2, 1, 5], &[3, 2, 5], &[0, 3, 5]]),
    });
    // prism over an L (concave caps)
    let l = [(0, 0), (3, 0), (3, 1), (1, 1), (1, 3), (0, 3)];
    r.push(prism("L prism", &l, 2));
    r.push(prism("triangular prism", &[(0, 0), (4, 0), (1, 3)], 1));
    r.push(prism("pentagonal prism", &[(0, 0), (4, 0), (5, 3), (2, 5), (-1, 3)], 3));
    // pyramid over a square
    r.push(Solid {
        name: "pyramid".into(),
        pos: vec![(0, 0, 0), (4, 0, 0), (4, 4, 0), (0, 4, 0), (1, 2, 5)],
        faces: f(&[&[0, 3, 2, 1], &[0, 1, 4], &[1, 2, 4], &[2, 3, 4], &[3, 0, 4]]),
    });
    r
}
pub fn prism(name: &str, base: &[(i64, i64)], h: i64) -> Solid {
    let n = base.len() as u32;
    let mut pos: Vec<(i64, i64, i64)> = base.iter().map(|p| (p.0, p.1, 0)).collect();
    pos.extend(base.iter().map(|p| (p.0, p.1, h)));
    let mut faces = vec![(0..n).rev().collect::<Vec<u32>>(), (n..2 * n).collect()];
    for i in 0..n {
        let j = (i + 1) % n;
        faces.push(vec![i, j, j + n, i + n]);
    }
    Solid { name: name.into(), pos, faces }
}
/// integer bases of planes in space: images of the two unit vectors
pub fn planes() -> Vec<((i64, i64, i64), (i64, i64, i64))> {
    let mut r = vec![];
    let e = [(1, 0, 0), (0, 1, 0), (0, 0, 1)];
    let neg = |a: (i64, i64, i64)| (-a.0, -a.1, -a.2);
    for i in 0..3 {
        for j in 0..3 {
            if i != j {
                for (a, b) in [(e[i], e[j]), (neg(e[i]), e[j]), (e[i], neg(e[j])), (neg(e[i]), neg(e[j]))] {
                    r.push((a, b));
                }
            }
        }
    }
    r
}
pub fn skew_planes() -> Vec<((i64, i64, i64), (i64, i64, i64))> {
    vec![((1, 2, 2), (2, 1, -2)), ((2, 3, 6), (3, -6, 2)), ((-2, 1, -2), (2, 2, -1)), ((1, 0, 1), (0, 1, 2)), ((1, 1, 0), (-1, 1, 5)), ((0, -3, 4), (5, 0, 0)), ((1, 1, 1), (-1, 2, -1))]
}
pub fn cross3(a: (i64, i64, i64), b: (i64, i64, i64)) -> (i64, i64, i64) {
    (a.1 * b.2 - a.2 * b.1, a.2 * b.0 - a.0 * b.2, a.0 * b.1 - a.1 * b.0)
}
pub fn dot3(a: (i64, i64, i64), b: (i64, i64, i64)) -> i64 {
    a.0 * b.0 + a.1 * b.1 + a.2 * b.2
}
pub fn sub3(a: (i64, i64, i64), b: (i64, i64, i64)) -> (i64, i64, i64) {
    (a.0 - b.0, a.1 - b.1, a.2 - b.2)
}
/// all edges around each vertex are connected through the rotation (no separate closed fans at one vertex)
pub fn one_star(r: &Raw) -> bool {
    let outs = r.eids();
    r.vids().into_iter().all(|v| {
        let n = outs.iter().filter(|e| r.origin(**e) == v).count();
        let s = r.vv(v).edge;
        if s == NONE {
            return n == 0;
        }
        let (mut e, mut k) = (s, 0);
        loop {
            k += 1;
            e = r.next(r.twin(e));
            if e == s {
                return k == n;
            }
        }
    })
}
/// meshes larger than what the exhaustive explorations reach: polygons, fans, grids with and without missing
/// cells, tubes, closed tori, solids and several of them at once
pub fn larger(n: u32) -> Vec<(String, Raw)> {
    let mut r: Vec<(String, Raw)> = vec![];
    for k in 3..=n + 6 {
        r.push((format!("polygon {}", k), from_faces(k, &[(0..k).collect()])));
    }
    for k in 3..=n {
        let fan: Faces = (1..k - 1).map(|i| vec![0, i, i + 1]).collect();
        r.push((format!("open fan {}", k), from_faces(k, &fan)));
        let wheel: Faces = (0..k).map(|i| vec![k, i, (i + 1) % k]).collect();
        r.push((format!("wheel {}", k), from_faces(k + 1, &wheel)));
        let mut closed = wheel.clone();
        closed.push((0..k).rev().collect());
        r.push((format!("pyramid {}", k), from_faces(k + 1, &closed)));
    }
    for w in 1..=4 {
        for h in 1..=w {
            let (nv, fs) = grid(w, h, false, false, &|_, _| false);
            r.push((format!("grid {}x{}", w, h), from_faces(nv, &fs)));
        }
    }
    let (nv, fs) = grid(3, 3, false, false, &|x, y| x == 1 && y == 1);
    r.push(("grid 3x3 with a hole".into(), from_faces(nv, &fs)));
    let (nv, fs) = grid(4, 4, false, false, &|x, y| (x + y) % 2 == 1);
    r.push(("chess board 4x4".into(), from_faces(nv, &fs)));
    for w in 3..=5 {
        let (nv, fs) = grid(w, 2, true, false, &|_, _| false);
        r.push((format!("tube {}x2", w), from_faces(nv, &fs)));
        let (nv, fs) = grid(w, 3, true, true, &|_, _| false);
        r.push((format!("torus {}x3", w), from_faces(nv, &fs)));
    }
    for s in solids() {
        r.push((s.name.clone(), from_faces(s.pos.len() as u32, &s.faces)));
    }
    // a vertex without edges between two components
    let two: Faces = vec![vec![0, 1, 2], vec![4, 5, 6, 7], vec![5, 4, 8]];
    r.push(("triangle, lonely vertex, house".into(), from_faces(9, &two)));
    label(&mut r);
    r
}
/// vertex, edge and face tags as in the explored meshes
fn label(r: &mut [(String, Raw)]) {
    for (_, x) in r.iter_mut() {
        for (i, v) in x.v.iter_mut().flatten().enumerate() {
            v.tag = 100 + i as u32;
        }
        for (i, e) in x.e.iter_mut().flatten().enumerate() {
            e.tag = 10300 + i as u32;
        }
        for (i, f) in x.f.iter_mut().flatten().enumerate() {
            f.tag = 70700 + i as u32;
            f.curved = i % 3 == 2;
        }
    }
}
fn grid(w: u32, h: u32, wrap_x: bool, wrap_y: bool, skip: &dyn Fn(u32, u32) -> bool) -> (u32, Faces) {
    let (nx, ny) = (if wrap_x { w } else { w + 1 }, if wrap_y { h } else { h + 1 });
    let id = |x: u32, y: u32| (y % ny) * nx + x % nx;
    let mut fs = vec![];
    for y in 0..h {
        for x in 0..w {
            if !skip(x, y) {
                fs.push(vec![id(x, y), id(x + 1, y), id(x + 1, y + 1), id(x, y + 1)]);
            }
        }
    }
    (nx * ny, fs)
}
/// meshes with far more elements than the ones above, one or two of each family
pub fn huge(thorough: bool) -> Vec<(String, Raw)> {
    let mut r: Vec<(String, Raw)> = vec![];
    let s: u32 = if thorough { 2 } else { 1 };
    for k in [40, 75 * s, 150 * s] {
        r.push((format!("polygon {}", k), from_faces(k, &[(0..k).collect()])));
    }
    for k in [36, 100 * s] {
        let fan: Faces = (1..k - 1).map(|i| vec![0, i, i + 1]).collect();
        r.push((format!("open fan {}", k), from_faces(k, &fan)));
        let wheel: Faces = (0..k).map(|i| vec![k, i, (i + 1) % k]).collect();
        r.push((format!("wheel {}", k), from_faces(k + 1, &wheel)));
    }
    let k = 70 * s;
    let mut closed: Faces = (0..k).map(|i| vec![k, i, (i + 1) % k]).collect();
    closed.push((0..k).rev().collect());
    r.push((format!("pyramid {}", k), from_faces(k + 1, &closed)));
    for (w, h) in [(8 * s, 8), (20 * s, 3), (70 * s, 1)] {
        let (nv, fs) = grid(w, h, false, false, &|_, _| false);
        r.push((format!("grid {}x{}", w, h), from_faces(nv, &fs)));
    }
    let (nv, fs) = grid(9, 9, false, false, &|x, y| x % 3 == 1 && y % 2 == 1);
    r.push(("grid 9x9 with holes".into(), from_faces(nv, &fs)));
    for (w, h) in [(40 * s, 2), (5, 15 * s)] {
        let (nv, fs) = grid(w, h, true, false, &|_, _| false);
        r.push((format!("tube {}x{}", w, h), from_faces(nv, &fs)));
    }
    let (nv, fs) = grid(9, 8 * s, true, true, &|_, _| false);
    r.push((format!("torus 9x{}", 8 * s), from_faces(nv, &fs)));
    // many components
    let many: Faces = (0..25 * s).map(|i| if i % 2 == 0 { vec![4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3] } else { vec![4 * i, 4 * i + 1, 4 * i + 2] }).collect();
    r.push((format!("{} components", 25 * s), from_faces(100 * s, &many)));
    label(&mut r);
    r
}
/// A tilted field of `w` x `h` unit cells: squares and squares cut along either diagonal; positions and faces.
pub fn field(w: u32, h: u32) -> (Vec<(i64, i64, i64)>, Faces) {
    let id = |x: u32, y: u32| y * (w + 1) + x;
    let pos = (0..(w + 1) * (h + 1)).map(|i| ((i % (w + 1)) as i64, (i / (w + 1)) as i64)).map(|(x, y)| (x, y, 2 * x + 3 * y)).collect();
    let mut fs = vec![];
    for y in 0..h {
        for x in 0..w {
            let c = [id(x, y), id(x + 1, y), id(x + 1, y + 1), id(x, y + 1)];
            match cell(x as i64, y as i64) {
                0 => fs.push(c.to_vec()),
                k => {
                    let k = k - 1;
                    fs.push(vec![c[k], c[k + 1], c[k + 2]]);
                    fs.push(vec![c[k + 2], c[(k + 3) % 4], c[k]]);
                }
            }
        }
    }
    (pos, fs)
}
/// how a cell is cut: not at all, through its corners 0 and 2, through 1 and 3
fn cell(x: i64, y: i64) -> usize {
    ((x * 5 + y * y * 2 + 1) % 7 % 3) as usize
}
/// whether these triangles (as places in the plane) tile the field: two for every cell, cut where it is cut
pub fn field_ok(w: u32, h: u32, tri: &[[(i64, i64); 3]]) -> Result<(), String> {
    let mut missing: BTreeMap<(i64, i64), Vec<usize>> = BTreeMap::new();
    for t in tri {
        let (x, y) = (t.iter().map(|p| p.0).min().unwrap(), t.iter().map(|p| p.1).min().unwrap());
        let corner = |p: &(i64, i64)| [(0, 0), (1, 0), (1, 1), (0, 1)].iter().position(|c| *c == (p.0 - x, p.1 - y));
        let c: Vec<usize> = t.iter().filter_map(corner).collect();
        if c.len() != 3 || !(0..3).all(|i| (c[(i + 1) % 3] + 4 - c[i]) % 4 + (c[(i + 2) % 3] + 4 - c[(i + 1) % 3]) % 4 < 4) {
            return Err(format!("the triangle {:?} is not a part of a cell, counter-clockwise", t));
        }
        missing.entry((x, y)).or_default().push(6 - c.iter().sum::<usize>());
    }
    for y in 0..h as i64 {
        for x in 0..w as i64 {
            let m = missing.get(&(x, y)).cloned().unwrap_or_default();
            let ok = m.len() == 2 && m[0] % 2 == m[1] % 2 && m[0] != m[1] && match cell(x, y) {
                0 => true,
                // cut through 0 and 2: the triangles lack 3 and 1
                1 => m[0] % 2 == 1,
                _ => m[0] % 2 == 0,
            };
            if !ok {
                return Err(format!("cell {} {} is covered by triangles without the corners {:?}", x, y, m));
            }
        }
    }
    if missing.len() != (w * h) as usize {
        return Err("triangles outside the field".into());
    }
    Ok(())
}
