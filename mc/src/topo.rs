//! A mesh type with observable payloads, raw snapshots of it, an independent validity predicate,
//! canonical forms, and a reference combinatorial map with the builder operations.
use procedural_modelling::prelude::*;
use std::collections::HashMap;

pub const NONE: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash)]
pub struct Tag(pub u32);
impl EdgePayload for Tag {
    fn allocate() -> Self {
        Tag(777_777)
    }
    fn is_empty(&self) -> bool {
        self.0 == 0
    }
}
impl DefaultEdgePayload for Tag {}
impl FacePayload for Tag {
    fn allocate() -> Self {
        Tag(777_777)
    }
}
impl DefaultFacePayload for Tag {}
impl VertexPayload for Tag {
    fn allocate() -> Self {
        Tag(777_777)
    }
}
#[derive(Clone, Default, PartialEq, Debug)]
pub struct MTag(pub u32);
impl MeshPayload<TagMT> for MTag {}

/// Distinct index types for vertices, edges and faces.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct TagMT;
impl MeshType for TagMT {
    type E = u16;
    type V = u32;
    type F = u8;
    type EP = Tag;
    type VP = Tag;
    type FP = Tag;
    type MP = MTag;
    type Mesh = TagMesh;
    type Face = HalfEdgeFaceImpl<Self>;
    type Edge = HalfEdgeImpl<Self>;
    type Vertex = HalfEdgeVertexImpl<Self>;
}
impl HalfEdgeImplMeshType for TagMT {}
impl MeshTypeHalfEdge for TagMT {}
pub type TagMesh = HalfEdgeMeshImpl<TagMT>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct RV {
    pub edge: u32,
    pub tag: u32,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct RE {
    pub next: u32,
    pub prev: u32,
    pub twin: u32,
    pub origin: u32,
    pub face: u32,
    pub tag: u32,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct RF {
    pub edge: u32,
    pub curved: bool,
    pub tag: u32,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct Raw {
    pub v: Vec<Option<RV>>,
    pub e: Vec<Option<RE>>,
    pub f: Vec<Option<RF>>,
}

fn put<T: Clone>(vec: &mut Vec<Option<T>>, id: usize, t: T, what: &str) -> Result<(), String> {
    if id > 4_000_000 {
        return Err(format!("{} id {} out of range", what, id));
    }
    while vec.len() <= id {
        vec.push(None);
    }
    if vec[id].is_some() {
        return Err(format!("{} id {} iterated twice", what, id));
    }
    vec[id] = Some(t);
    Ok(())
}
pub fn ix<I: IndexType>(i: I) -> u32 {
    if i == <I as IndexType>::max() {
        NONE
    } else {
        i.index() as u32
    }
}

/// Snapshot of any half-edge mesh; `vt`, `et`, `ft` map payloads to tags.
pub fn snap_with<T: HalfEdgeImplMeshType>(
    m: &T::Mesh,
    vt: impl Fn(&T::VP) -> u32,
    et: impl Fn(&T::EP) -> u32,
    ft: impl Fn(&T::FP) -> u32,
) -> Result<Raw, String>
where
    T::Mesh: MeshBasics<T>,
{
    let mut r = Raw::default();
    let mut last: i64 = -1;
    for v in MeshBasics::vertices(m) {
        let id = VertexBasics::<T>::id(v).index();
        if id as i64 <= last {
            return Err(format!("vertex iteration not in id order at {}", id));
        }
        last = id as i64;
        put(&mut r.v, id, RV { edge: ix(VertexBasics::<T>::edge_id(v, m)), tag: vt(VertexBasics::<T>::payload(v)) }, "vertex")?;
        if !m.has_vertex(T::V::new(id)) {
            return Err(format!("iterated vertex {} not reported present", id));
        }
    }
    last = -1;
    for e in MeshBasics::edges(m) {
        let id = e.id().index();
        if id as i64 <= last {
            return Err(format!("edge iteration not in id order at {}", id));
        }
        last = id as i64;
        put(
            &mut r.e,
            id,
            RE {
                next: ix(e.next_id()),
                prev: ix(e.prev_id()),
                twin: ix(e.twin_id()),
                origin: ix(e.origin_id()),
                face: ix(e.face_id()),
                tag: et(e.payload()),
            },
            "edge",
        )?;
    }
    last = -1;
    for f in MeshBasics::faces(m) {
        let id = f.id().index();
        if id as i64 <= last {
            return Err(format!("face iteration not in id order at {}", id));
        }
        last = id as i64;
        put(&mut r.f, id, RF { edge: ix(f.edge_id()), curved: f.may_be_curved(), tag: ft(f.payload()) }, "face")?;
    }
    let (nv, ne, nf) = (r.nv(), r.ne(), r.nf());
    if m.num_vertices() != nv || m.num_edges() != ne || m.num_faces() != nf {
        return Err(format!(
            "counts v/e/f {} {} {} but iterating gives {} {} {}",
            m.num_vertices(),
            m.num_edges(),
            m.num_faces(),
            nv,
            ne,
            nf
        ));
    }
    Ok(r)
}
pub fn snap(m: &TagMesh) -> Result<Raw, String> {
    snap_with::<TagMT>(m, |t| t.0, |t| t.0, |t| t.0)
}

impl Raw {
    pub fn nv(&self) -> usize {
        self.v.iter().flatten().count()
    }
    pub fn ne(&self) -> usize {
        self.e.iter().flatten().count()
    }
    pub fn nf(&self) -> usize {
        self.f.iter().flatten().count()
    }
    pub fn vids(&self) -> Vec<u32> {
        (0..self.v.len() as u32).filter(|i| self.v[*i as usize].is_some()).collect()
    }
    pub fn eids(&self) -> Vec<u32> {
        (0..self.e.len() as u32).filter(|i| self.e[*i as usize].is_some()).collect()
    }
    pub fn fids(&self) -> Vec<u32> {
        (0..self.f.len() as u32).filter(|i| self.f[*i as usize].is_some()).collect()
    }
    pub fn hv(&self, i: u32) -> bool {
        (i as usize) < self.v.len() && self.v[i as usize].is_some()
    }
    pub fn he(&self, i: u32) -> bool {
        (i as usize) < self.e.len() && self.e[i as usize].is_some()
    }
    pub fn hf(&self, i: u32) -> bool {
        (i as usize) < self.f.len() && self.f[i as usize].is_some()
    }
    pub fn vv(&self, i: u32) -> &RV {
        self.v[i as usize].as_ref().unwrap()
    }
    pub fn ee(&self, i: u32) -> &RE {
        self.e[i as usize].as_ref().unwrap()
    }
    pub fn ff(&self, i: u32) -> &RF {
        self.f[i as usize].as_ref().unwrap()
    }
    pub fn em(&mut self, i: u32) -> &mut RE {
        self.e[i as usize].as_mut().unwrap()
    }
    pub fn next(&self, i: u32) -> u32 {
        self.ee(i).next
    }
    pub fn prev(&self, i: u32) -> u32 {
        self.ee(i).prev
    }
    pub fn twin(&self, i: u32) -> u32 {
        self.ee(i).twin
    }
    pub fn origin(&self, i: u32) -> u32 {
        self.ee(i).origin
    }
    pub fn target(&self, i: u32) -> u32 {
        self.origin(self.twin(i))
    }
    pub fn face(&self, i: u32) -> u32 {
        self.ee(i).face
    }
    /// edges of the loop through e, starting at e
    pub fn lp(&self, e: u32) -> Vec<u32> {
        let mut r = vec![e];
        let mut c = self.next(e);
        while c != e {
            r.push(c);
            c = self.next(c);
            if r.len() > self.e.len() + 1 {
                break;
            }
        }
        r
    }
    pub fn out_edges(&self, v: u32) -> Vec<u32> {
        self.eids().into_iter().filter(|e| self.origin(*e) == v).collect()
    }
    pub fn find(&self, v: u32, w: u32) -> Option<u32> {
        self.eids().into_iter().find(|e| self.origin(*e) == v && self.target(*e) == w)
    }
    pub fn boundary_out(&self, v: u32) -> Vec<u32> {
        self.out_edges(v).into_iter().filter(|e| self.face(*e) == NONE).collect()
    }
    /// component label of every vertex
    pub fn components(&self) -> HashMap<u32, u32> {
        let mut c: HashMap<u32, u32> = self.vids().into_iter().map(|v| (v, v)).collect();
        loop {
            let mut ch = false;
            for e in self.eids() {
                let (a, b) = (c[&self.origin(e)], c[&self.target(e)]);
                if a != b {
                    let m = a.min(b);
                    for x in c.values_mut() {
                        if *x == a || *x == b {
                            *x = m;
                        }
                    }
                    ch = true;
                }
            }
            if !ch {
                return c;
            }
        }
    }
    /// All loops (each once, starting at its smallest edge id).
    pub fn loops(&self) -> Vec<Vec<u32>> {
        let mut seen = vec![false; self.e.len()];
        let mut r = vec![];
        for e in self.eids() {
            if !seen[e as usize] {
                let l = self.lp(e);
                for x in &l {
                    seen[*x as usize] = true;
                }
                r.push(l);
            }
        }
        r
    }
    /// Independent structural validity.
    pub fn validate(&self) -> Result<(), String> {
        for e in self.eids() {
            let r = self.ee(e);
            for (n, x) in [("next", r.next), ("prev", r.prev), ("twin", r.twin)] {
                if !self.he(x) {
                    return Err(format!("edge {} has dead {} {}", e, n, x));
                }
            }
            if !self.hv(r.origin) {
                return Err(format!("edge {} has dead origin {}", e, r.origin));
            }
            if r.face != NONE && !self.hf(r.face) {
                return Err(format!("edge {} has dead face {}", e, r.face));
            }
        }
        for e in self.eids() {
            let r = self.ee(e);
            if r.twin == e || self.twin(r.twin) != e {
                return Err(format!("edge {}: twin {} is not mutual", e, r.twin));
            }
            if self.prev(r.next) != e || self.next(r.prev) != e {
                return Err(format!("edge {}: next/prev not mutual", e));
            }
            if self.origin(r.next) != self.origin(r.twin) {
                return Err(format!("edge {}: next starts at {} but twin at {}", e, self.origin(r.next), self.origin(r.twin)));
            }
            if self.origin(r.twin) == r.origin {
                return Err(format!("edge {}: self loop at {}", e, r.origin));
            }
            if self.face(r.next) != r.face {
                return Err(format!("edge {}: face {} but next has {}", e, r.face, self.face(r.next)));
            }
        }
        for v in self.vids() {
            let out = self.out_edges(v);
            let r = self.vv(v).edge;
            if out.is_empty() {
                if r != NONE {
                    return Err(format!("isolated vertex {} has edge {}", v, r));
                }
            } else {
                if !self.he(r) || self.origin(r) != v {
                    return Err(format!("vertex {} has representative {} not starting there", v, r));
                }
                let mut n = 0;
                let mut c = r;
                loop {
                    n += 1;
                    c = self.next(self.twin(c));
                    if c == r || n > out.len() {
                        break;
                    }
                }
                if n != out.len() {
                    return Err(format!("vertex {}: wheel has {} of {} edges", v, n, out.len()));
                }
            }
        }
        for f in self.fids() {
            let r = self.ff(f).edge;
            if !self.he(r) || self.face(r) != f {
                return Err(format!("face {} has representative {} of another face", f, r));
            }
            let l = self.lp(r);
            let n = self.eids().into_iter().filter(|e| self.face(*e) == f).count();
            if n != l.len() {
                return Err(format!("face {}: {} edges carry it but its loop has {}", f, n, l.len()));
            }
        }
        Ok(())
    }
    pub fn all_faces_nondegenerate(&self) -> bool {
        self.fids().iter().all(|f| self.lp(self.ff(*f).edge).len() >= 3)
    }
    pub fn no_faceless_edge(&self) -> bool {
        self.eids().iter().all(|e| self.face(*e) != NONE || self.face(self.twin(*e)) != NONE)
    }
    /// Equality of everything except representative edges and trailing empty slots.
    pub fn same_as(&self, o: &Raw) -> Result<(), String> {
        if self.vids() != o.vids() || self.eids() != o.eids() || self.fids() != o.fids() {
            return Err(format!(
                "live ids differ: expected v{:?} e{:?} f{:?}, got v{:?} e{:?} f{:?}",
                self.vids(),
                self.eids(),
                self.fids(),
                o.vids(),
                o.eids(),
                o.fids()
            ));
        }
        for v in self.vids() {
            if self.vv(v).tag != o.vv(v).tag {
                return Err(format!("vertex {} payload: expected {:?}, got {:?}", v, self.vv(v), o.vv(v)));
            }
        }
        for e in self.eids() {
            if self.ee(e) != o.ee(e) {
                return Err(format!("edge {}: expected {:?}, got {:?}", e, self.ee(e), o.ee(e)));
            }
        }
        for f in self.fids() {
            if self.ff(f).tag != o.ff(f).tag || self.ff(f).curved != o.ff(f).curved {
                return Err(format!("face {}: expected {:?}, got {:?}", f, self.ff(f), o.ff(f)));
            }
        }
        Ok(())
    }
    /// Canonical code up to renaming of ids and payloads (keeps representatives if `reps`).
    pub fn canon(&self, reps: bool) -> Vec<u8> {
        let n = self.e.len();
        let mut comp_codes: Vec<Vec<u8>> = vec![];
        let mut seen = vec![false; n];
        for s in self.eids() {
            if seen[s as usize] {
                continue;
            }
            // component darts
            let mut comp = vec![s];
            seen[s as usize] = true;
            let mut i = 0;
            while i < comp.len() {
                let e = comp[i];
                for x in [self.next(e), self.twin(e)] {
                    if !seen[x as usize] {
                        seen[x as usize] = true;
                        comp.push(x);
                    }
                }
                i += 1;
            }
            let mut best: Option<Vec<u8>> = None;
            let mut num = vec![255u8; n];
            let mut order = Vec::with_capacity(comp.len());
            for &st in &comp {
                for x in &comp {
                    num[*x as usize] = 255;
                }
                order.clear();
                order.push(st);
                num[st as usize] = 0;
                let mut code = Vec::with_capacity(comp.len() * 4);
                let mut fnum: Vec<u32> = vec![];
                let mut i = 0;
                let mut worse = false;
                let mut less = false;
                while i < order.len() {
                    let e = order[i];
                    for x in [self.next(e), self.twin(e)] {
                        if num[x as usize] == 255 {
                            num[x as usize] = order.len() as u8;
                            order.push(x);
                        }
                        code.push(num[x as usize]);
                    }
                    let f = self.face(e);
                    let fl = if f == NONE {
                        0u8
                    } else {
                        let k = match fnum.iter().position(|y| *y == f) {
                            Some(k) => k,
                            None => {
                                fnum.push(f);
                                fnum.len() - 1
                            }
                        };
                        1 + (k as u8) * 2 + self.ff(f).curved as u8
                    };
                    let mut rp = 0u8;
                    if reps {
                        if self.vv(self.origin(e)).edge == e {
                            rp |= 1;
                        }
                        if f != NONE && self.ff(f).edge == e {
                            rp |= 2;
                        }
                    }
                    code.push(fl);
                    code.push(rp);
                    if !less {
                        if let Some(b) = &best {
                            let l = code.len();
                            match code[l - 4..l].cmp(&b[l - 4..l]) {
                                std::cmp::Ordering::Less => less = true,
                                std::cmp::Ordering::Greater => {
                                    worse = true;
                                    break;
                                }
                                _ => {}
                            }
                        }
                    }
                    i += 1;
                }
                if !worse && (less || best.is_none()) {
                    best = Some(code);
                }
            }
            comp_codes.push(best.unwrap());
        }
        comp_codes.sort();
        let mut out = vec![];
        let iso = self.vids().iter().filter(|v| self.vv(**v).edge == NONE).count() as u8;
        out.push(iso);
        let free = self.f.iter().filter(|f| f.is_none()).count() as u8;
        out.push(if reps { free.min(2) } else { 0 });
        for c in comp_codes {
            out.push(c.len() as u8);
            out.extend(c);
        }
        out
    }
    pub fn add_v(&mut self, id: u32, tag: u32) -> Result<(), String> {
        put(&mut self.v, id as usize, RV { edge: NONE, tag }, "vertex").map_err(|_| format!("new vertex id {} is already live", id))
    }
    /// Inserts the edge pair h1: v->w and h2: w->v at the corners after p1 (ending in v) and p2 (ending in w).
    pub fn ins_edge(&mut self, h1: u32, t1: u32, v: u32, p1: Option<u32>, h2: u32, t2: u32, w: u32, p2: Option<u32>) -> Result<(), String> {
        let z = RE { next: NONE, prev: NONE, twin: NONE, origin: 0, face: NONE, tag: 0 };
        put(&mut self.e, h1 as usize, RE { origin: v, twin: h2, tag: t1, ..z }, "edge").map_err(|_| format!("new edge id {} is already live", h1))?;
        put(&mut self.e, h2 as usize, RE { origin: w, twin: h1, tag: t2, ..z }, "edge").map_err(|_| format!("new edge id {} is already live", h2))?;
        let n2 = p1.map(|p| self.next(p)).unwrap_or(h1);
        let n1 = p2.map(|p| self.next(p)).unwrap_or(h2);
        self.em(h1).next = n1;
        self.em(n1).prev = h1;
        self.em(h2).next = n2;
        self.em(n2).prev = h2;
        if let Some(p) = p1 {
            self.em(p).next = h1;
            self.em(h1).prev = p;
        }
        if let Some(p) = p2 {
            self.em(p).next = h2;
            self.em(h2).prev = p;
        }
        Ok(())
    }
    pub fn add_f(&mut self, id: u32, e: u32, curved: bool, tag: u32) -> Result<(), String> {
        put(&mut self.f, id as usize, RF { edge: e, curved, tag }, "face").map_err(|_| format!("new face id {} is already live", id))?;
        for x in self.lp(e) {
            self.em(x).face = id;
        }
        Ok(())
    }
    pub fn del_f(&mut self, id: u32) {
        for e in self.eids() {
            if self.face(e) == id {
                self.em(e).face = NONE;
            }
        }
        self.f[id as usize] = None;
    }
}
