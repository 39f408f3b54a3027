//! Builds a real mesh of any type with exactly the connectivity of a raw snapshot, using only the
//! low-level link setters, and raw-level id permutations.
use crate::topo::*;
use procedural_modelling::prelude::*;

/// Realizes `r` (vertex ids must be 0..nv without gaps; edge ids come in pairs). Returns the mesh; ids are
/// those of `r.normalized()`.
pub fn realize<T: HalfEdgeImplMeshType>(
    r: &Raw,
    vp: impl Fn(u32) -> T::VP,
    ep: impl Fn(u32) -> T::EP,
    fp: impl Fn(u32) -> T::FP,
) -> HalfEdgeMeshImpl<T> {
    realize_dyn::<T>(r, &vp, &ep, &fp)
}
fn realize_dyn<T: HalfEdgeImplMeshType>(
    r: &Raw,
    vp: &dyn Fn(u32) -> T::VP,
    ep: &dyn Fn(u32) -> T::EP,
    fp: &dyn Fn(u32) -> T::FP,
) -> HalfEdgeMeshImpl<T> {
    let mut m = HalfEdgeMeshImpl::<T>::new();
    for v in r.vids() {
        let id = MeshBuilder::<T>::add_vertex(&mut m, vp(v));
        assert_eq!(id.index() as u32, v);
    }
    let mut map = vec![NONE; r.e.len()];
    let mx = || <T::E as IndexType>::max();
    for e in r.eids() {
        let t = r.twin(e);
        if e > t {
            continue;
        }
        let (a, b) = m.insert_edge_no_update_no_check(
            (mx(), mx(), T::V::new(r.origin(e) as usize), <T::F as IndexType>::max(), ep(e)),
            (mx(), mx(), T::V::new(r.origin(t) as usize), <T::F as IndexType>::max(), ep(t)),
        );
        map[e as usize] = a.index() as u32;
        map[t as usize] = b.index() as u32;
    }
    let id = |e: u32| T::E::new(map[e as usize] as usize);
    for e in r.eids() {
        m.edge_mut(id(e)).set_next(id(r.next(e)));
        m.edge_mut(id(e)).set_prev(id(r.prev(e)));
    }
    for v in r.vids() {
        if r.vv(v).edge != NONE {
            m.vertex_mut(T::V::new(v as usize)).set_edge(id(r.vv(v).edge));
        }
    }
    // faces with the same ids: holes in the numbering are created by deleting again
    let fids = r.fids();
    let some_edge = r.eids().first().copied();
    let mut dead = vec![];
    for f in 0..r.f.len() as u32 {
        if fids.contains(&f) {
            let g = MeshBuilder::<T>::close_hole(&mut m, id(r.ff(f).edge), fp(f), r.ff(f).curved);
            assert_eq!(g.index() as u32, f);
        } else if let Some(e) = some_edge.filter(|e| r.face(*e) == NONE).or(r.eids().into_iter().find(|e| r.face(*e) == NONE)) {
            dead.push(MeshBuilder::<T>::close_hole(&mut m, id(e), fp(0), false));
            let l = dead.len() - 1;
            // free the loop again but keep the slot occupied until all faces exist
            for x in r.lp(e) {
                m.edge_mut(id(x)).delete_face();
            }
            let _ = l;
        } else {
            return renumber_faces_and_realize(r, vp, ep, fp);
        }
    }
    for d in dead {
        // re-attach and remove properly through the public operation
        let e = r.eids().into_iter().find(|e| r.face(*e) == NONE).unwrap();
        for x in r.lp(e) {
            m.edge_mut(id(x)).set_face(d);
        }
        MeshBuilder::<T>::remove_face(&mut m, d);
    }
    m
}

fn renumber_faces_and_realize<T: HalfEdgeImplMeshType>(
    r: &Raw,
    vp: &dyn Fn(u32) -> T::VP,
    ep: &dyn Fn(u32) -> T::EP,
    fp: &dyn Fn(u32) -> T::FP,
) -> HalfEdgeMeshImpl<T> {
    let mut x = r.clone();
    let fids = r.fids();
    x.f = fids.iter().map(|f| r.f[*f as usize]).collect();
    for e in x.e.iter_mut().flatten() {
        if e.face != NONE {
            e.face = fids.iter().position(|f| *f == e.face).unwrap() as u32;
        }
    }
    realize_dyn::<T>(&x, vp, ep, &|f| fp(fids[f as usize]))
}

/// Raw with edges renumbered by `pe` (old -> new, must keep pairs adjacent when realized) and vertices by `pv`.
pub fn permute(r: &Raw, pv: &[u32], pe: &[u32]) -> Raw {
    let mut x = Raw { v: vec![None; r.v.len()], e: vec![None; r.e.len()], f: r.f.clone() };
    let me = |e: u32| if e == NONE { NONE } else { pe[e as usize] };
    for v in r.vids() {
        x.v[pv[v as usize] as usize] = Some(RV { edge: me(r.vv(v).edge), tag: r.vv(v).tag });
    }
    for e in r.eids() {
        let y = r.ee(e);
        x.e[pe[e as usize] as usize] =
            Some(RE { next: me(y.next), prev: me(y.prev), twin: me(y.twin), origin: pv[y.origin as usize], face: y.face, tag: y.tag });
    }
    for f in x.f.iter_mut().flatten() {
        f.edge = me(f.edge);
    }
    x
}

pub fn permutations(n: usize) -> Vec<Vec<u32>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n as u32 - 1);
            r.push(q);
        }
    }
    r
}

/// A copy of `r` without gaps in the edge and face numbering (and, if vertex ids have no gaps, in the vertices) in
/// which nothing is numbered the way the builders number it: the half-edges of an edge do not have neighboring
/// ids, and vertices, edges and faces are in a different order. `k` selects one of several numberings.
pub fn scramble(r: &Raw, k: usize) -> Raw {
    scramble_with(r, k, r.nv() == r.v.len())
}
/// `dense`: renumber the vertices, too
pub fn scramble_with(r: &Raw, k: usize, dense: bool) -> Raw {
    let firsts: Vec<u32> = r.eids().into_iter().filter(|e| *e < r.twin(*e)).collect();
    let mut order: Vec<u32> = firsts.iter().rev().copied().collect();
    if k % 2 == 0 {
        // all first halves backwards, then all other halves forwards but rotated by one
        let mut second: Vec<u32> = firsts.iter().map(|e| r.twin(*e)).collect();
        if !second.is_empty() {
            second.rotate_left(1);
        }
        order.extend(second);
    } else {
        // other half first and one step away from its partner
        let mut all: Vec<u32> = firsts.iter().flat_map(|e| [r.twin(*e), *e]).collect();
        if !all.is_empty() {
            all.rotate_left(1);
        }
        order = all;
    }
    let mut pe = vec![NONE; r.e.len()];
    for (i, e) in order.iter().enumerate() {
        pe[*e as usize] = i as u32;
    }
    let nv = r.v.len();
    let pv: Vec<u32> = (0..nv).map(|v| if dense { ((nv - 1 - v) + k) % nv } else { v }).map(|v| v as u32).collect();
    let fids = r.fids();
    let nf = fids.len();
    let mut pf = vec![NONE; r.f.len()];
    for (i, f) in fids.iter().enumerate() {
        pf[*f as usize] = ((nf - 1 - i + k) % nf) as u32;
    }
    let me = |e: u32| if e == NONE { NONE } else { pe[e as usize] };
    let mut x = Raw { v: vec![None; nv], e: vec![None; r.ne()], f: vec![None; nf] };
    for v in r.vids() {
        x.v[pv[v as usize] as usize] = Some(RV { edge: me(r.vv(v).edge), tag: r.vv(v).tag });
    }
    for e in r.eids() {
        let y = r.ee(e);
        let face = if y.face == NONE { NONE } else { pf[y.face as usize] };
        x.e[pe[e as usize] as usize] =
            Some(RE { next: me(y.next), prev: me(y.prev), twin: me(y.twin), origin: pv[y.origin as usize], face, tag: y.tag });
    }
    for f in fids {
        let y = r.ff(f);
        x.f[pf[f as usize] as usize] = Some(RF { edge: me(y.edge), curved: y.curved, tag: y.tag });
    }
    x
}

/// Realizes `r` with exactly its ids (no gaps in any of the numberings).
pub fn realize_ids<T: HalfEdgeImplMeshType>(
    r: &Raw,
    vp: impl Fn(u32) -> T::VP,
    ep: impl Fn(u32) -> T::EP,
    fp: impl Fn(u32) -> T::FP,
) -> HalfEdgeMeshImpl<T> {
    let mut m = HalfEdgeMeshImpl::<T>::new();
    for v in r.vids() {
        let id = MeshBuilder::<T>::add_vertex(&mut m, vp(v));
        assert_eq!(id.index() as u32, v);
    }
    let id = |e: u32| T::E::new(e as usize);
    let mx = || <T::E as IndexType>::max();
    // which of the two halves gets the smaller id is up to the implementation
    let mut swap = false;
    if r.ne() > 0 {
        let mut probe = HalfEdgeMeshImpl::<T>::new();
        let v = MeshBuilder::<T>::add_vertex(&mut probe, vp(0));
        let half = |k: u32| (mx(), mx(), v, <T::F as IndexType>::max(), ep(k));
        let (a, b) = probe.insert_edge_no_update_no_check(half(0), half(1));
        swap = a.index() > b.index();
    }
    for k in 0..r.ne() as u32 / 2 {
        let (x, y) = if swap { (2 * k + 1, 2 * k) } else { (2 * k, 2 * k + 1) };
        let half = |k: u32| {
            (mx(), mx(), T::V::new(r.origin(k) as usize), <T::F as IndexType>::max(), ep(k))
        };
        let (a, b) = m.insert_edge_no_update_no_check(half(x), half(y));
        assert_eq!((a.index() as u32, b.index() as u32), (x, y));
    }
    for e in r.eids() {
        m.edge_mut(id(e)).set_twin(id(r.twin(e)));
        m.edge_mut(id(e)).set_next(id(r.next(e)));
        m.edge_mut(id(e)).set_prev(id(r.prev(e)));
    }
    for v in r.vids() {
        if r.vv(v).edge != NONE {
            m.vertex_mut(T::V::new(v as usize)).set_edge(id(r.vv(v).edge));
        }
    }
    for f in r.fids() {
        let g = MeshBuilder::<T>::close_hole(&mut m, id(r.ff(f).edge), fp(f), r.ff(f).curved);
        assert_eq!(g.index() as u32, f);
    }
    m
}

/// Keeps the ids if none of the numberings has gaps, otherwise the edges and faces are numbered compactly.
pub fn realize_like<T: HalfEdgeImplMeshType>(
    r: &Raw,
    vp: impl Fn(u32) -> T::VP,
    ep: impl Fn(u32) -> T::EP,
    fp: impl Fn(u32) -> T::FP,
) -> HalfEdgeMeshImpl<T> {
    if r.nv() == r.v.len() && r.ne() == r.e.len() && r.nf() == r.f.len() {
        realize_ids::<T>(r, vp, ep, fp)
    } else {
        realize::<T>(r, vp, ep, fp)
    }
}
