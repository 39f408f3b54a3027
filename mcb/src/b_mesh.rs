//! B02: exporting to bevy meshes, and converting meshes to bevy's mesh types, keeps the geometry.
use crate::b_math::wantb;
use crate::engine::*;
use crate::poly::*;
use crate::realize::realize;
use crate::shapes::*;
use bevy::asset::RenderAssetUsages;
use bevy::math::{Vec2, Vec3};
use bevy::mesh::{Indices, Mesh, PrimitiveTopology, VertexAttributeValues};
use procedural_modelling::{extensions::bevy::*, extensions::nalgebra as na, halfedge::*, math::*, mesh::*, prelude::*, tesselate::*};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::SeqCst;
use TriangulationAlgorithm as A;

type I3 = (i64, i64, i64);
const ALGOS: [A; 7] = [A::Auto, A::Delaunay, A::Sweep, A::SweepDynamic, A::SweepDelaunay, A::MinWeight, A::Fan];

/// the bevy vertex payload with a narrower vertex index
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
struct Narrow<V>(std::marker::PhantomData<V>);
macro_rules! narrow {
    ($v:ty) => {
        impl MeshType for Narrow<$v> {
            type E = u32;
            type V = $v;
            type F = u32;
            type EP = EmptyEdgePayload<Self>;
            type VP = BevyVertexPayload3d;
            type FP = EmptyFacePayload<Self>;
            type MP = EmptyMeshPayload<Self>;
            type Mesh = HalfEdgeMeshImpl<Self>;
            type Face = HalfEdgeFaceImpl<Self>;
            type Edge = HalfEdgeImpl<Self>;
            type Vertex = HalfEdgeVertexImpl<Self>;
        }
        impl EuclideanMeshType<3> for Narrow<$v> {
            type S = f32;
            type Vec = Vec3;
            type Vec2 = Vec2;
            type Trans = bevy::transform::components::Transform;
            type Rot = bevy::math::Quat;
            type Poly = Polygon2dBevy;
        }
        impl HalfEdgeImplMeshType for Narrow<$v> {}
        impl MeshTypeHalfEdge for Narrow<$v> {}
        impl MeshType3D for Narrow<$v> {}
    };
}
narrow!(u16);
narrow!(u8);

fn step(ctx: &Ctx, key: impl Fn() -> String, g: impl FnOnce() -> Result<(), String>) {
    ctx.transitions.fetch_add(1, SeqCst);
    ctx.traces.fetch_add(1, SeqCst);
    ctx.sample(|| key());
    ctx.case(key, g);
}
fn v3(p: I3) -> Vec3 {
    Vec3::new(p.0 as f32, p.1 as f32, p.2 as f32)
}
fn normal_of(i: usize) -> Vec3 {
    Vec3::new(i as f32, 1.0, -2.0)
}
/// a face of the source: its corners as places and the exact outline in its plane
#[derive(Clone, Debug)]
struct Want {
    corners: Vec<I3>,
    poly: Vec<P>,
    normal: I3,
}
/// outline along the largest component of the normal
fn want(corners: Vec<I3>) -> Want {
    let q = &corners;
    let mut nn = (0, 0, 0);
    for j in 1..q.len() - 1 {
        let c = cross3(sub3(q[j], q[0]), sub3(q[j + 1], q[0]));
        nn = (nn.0 + c.0, nn.1 + c.1, nn.2 + c.2);
    }
    let (a, b, c) = (nn.0.abs(), nn.1.abs(), nn.2.abs());
    let poly = q
        .iter()
        .map(|x| {
            let (u, w, up) = if a >= b.max(c) {
                (x.1, x.2, nn.0 > 0)
            } else if b >= c {
                (x.2, x.0, nn.1 > 0)
            } else {
                (x.0, x.1, nn.2 > 0)
            };
            if up {
                (u, w)
            } else {
                (w, u)
            }
        })
        .collect();
    Want { corners, poly, normal: nn }
}
fn build<T: HalfEdgeImplMeshType<VP = BevyVertexPayload3d>>(pos: &[I3], faces: &[Vec<u32>]) -> HalfEdgeMeshImpl<T>
where
    T::EP: Default,
    T::FP: Default,
{
    realize::<T>(
        &marked(from_faces(pos.len() as u32, faces)),
        |v| {
            let mut p = BevyVertexPayload3d::from_pos(v3(pos[v as usize]));
            p.set_normal(normal_of(v as usize));
            p.set_uv(Vec2::new(v as f32, 7.0));
            p
        },
        |_| Default::default(),
        |_| Default::default(),
    )
}
fn indices(m: &Mesh) -> Result<(Vec<usize>, usize), String> {
    match m.indices() {
        Some(Indices::U32(x)) => Ok((x.iter().map(|i| *i as usize).collect(), 4)),
        Some(Indices::U16(x)) => Ok((x.iter().map(|i| *i as usize).collect(), 2)),
        None => Err("no indices".into()),
    }
}
fn attr(m: &Mesh, a: bevy::mesh::MeshVertexAttribute) -> Result<Vec<[f32; 3]>, String> {
    match m.attribute(a) {
        Some(VertexAttributeValues::Float32x3(x)) => Ok(x.clone()),
        x => Err(format!("the attribute {:?} is {:?}", a.name, x)),
    }
}
/// judges an exported mesh: `verts` are the live vertices (place, normal) in order
fn export_ok(out: &Mesh, width: usize, verts: &[(I3, Vec3)], wants: &[Want], flat: bool) -> Result<(), String> {
    let (ind, w) = indices(out)?;
    wantb("primitive topology is the triangle list", out.primitive_topology() == PrimitiveTopology::TriangleList, true)?;
    if w != width {
        return Err(format!("{} byte indices instead of {}", w, width));
    }
    let pos = attr(out, Mesh::ATTRIBUTE_POSITION)?;
    let nor = attr(out, Mesh::ATTRIBUTE_NORMAL)?;
    let other: Vec<&str> = out.attributes().map(|(a, _)| a.name).filter(|n| *n != Mesh::ATTRIBUTE_POSITION.name && *n != Mesh::ATTRIBUTE_NORMAL.name).collect();
    if other.iter().any(|n| *n == Mesh::ATTRIBUTE_COLOR.name) {
        return Err(format!("attributes of the old mesh are left: {:?}", other));
    }
    let count = if flat { wants.iter().map(|w| w.corners.len()).sum() } else { verts.len() };
    if pos.len() != count || nor.len() != count || out.attributes().any(|(_, v)| v.len() != count) {
        return Err(format!("{} positions and {} normals instead of {}", pos.len(), nor.len(), count));
    }
    if ind.len() != wants.iter().map(|w| 3 * (w.corners.len() - 2)).sum::<usize>() || ind.iter().any(|i| *i >= count) {
        return Err(format!("wrong indices {:?} for {} vertices", ind, count));
    }
    let eq = |a: [f32; 3], b: I3| v3(b).to_array() == a;
    if !flat {
        for (i, (p, n)) in verts.iter().enumerate() {
            if !eq(pos[i], *p) || nor[i] != n.to_array() {
                return Err(format!("vertex {} is {:?} with normal {:?} instead of {:?} {:?}", i, pos[i], nor[i], p, n));
            }
        }
    }
    let tri: Vec<[usize; 3]> = ind.chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
    let mut used = vec![false; tri.len()];
    for w in wants {
        let l = (dot3(w.normal, w.normal) as f32).sqrt();
        let un = v3(w.normal) / l;
        // the vertices that can belong to this face, and the triangles among them
        let mine: Vec<usize> = (0..count).filter(|i| w.corners.iter().any(|c| eq(pos[*i], *c)) && (!flat || (Vec3::from_array(nor[*i]) - un).length() < 1e-4)).collect();
        if mine.len() != w.corners.len() {
            return Err(format!("{} vertices for the face {:?}", mine.len(), w.corners));
        }
        let ids: Vec<usize> = w.corners.iter().map(|c| *mine.iter().find(|i| eq(pos[**i], *c)).unwrap()).collect();
        let t: Vec<[usize; 3]> = (0..tri.len())
            .filter(|i| tri[*i].iter().all(|v| ids.contains(v)))
            .map(|i| {
                used[i] = true;
                tri[i]
            })
            .collect();
        
        tiles(&ids, &w.poly, &t, false).map_err(|e| format!("face {:?}: {}", w.corners, e))?;
    }
    wantb("every triangle belongs to a face", used.iter().all(|u| *u), true)
}
fn old_mesh() -> Mesh {
    let mut m = Mesh::new(PrimitiveTopology::TriangleList, RenderAssetUsages::MAIN_WORLD);
    m.insert_attribute(Mesh::ATTRIBUTE_COLOR, VertexAttributeValues::Float32x4(vec![[1.0; 4]; 5]));
    m.insert_attribute(Mesh::ATTRIBUTE_POSITION, VertexAttributeValues::Float32x3(vec![[9.0; 3]; 5]));
    m.insert_indices(Indices::U16(vec![0, 1, 4, 3]));
    m
}
fn exports<T: HalfEdgeImplMeshType<VP = BevyVertexPayload3d, Mesh = HalfEdgeMeshImpl<T>> + MeshType3D<Vec = Vec3, S = f32>>(m: &HalfEdgeMeshImpl<T>, width: usize, wants: &[Want], algos: &[A]) -> Result<(), String> {
    let verts: Vec<(I3, Vec3)> = m
        .vertices()
        .map(|v| {
            let p: &BevyVertexPayload3d = v.payload();
            ((p.pos().x as i64, p.pos().y as i64, p.pos().z as i64), *p.normal())
        })
        .collect();
    let both = RenderAssetUsages::MAIN_WORLD | RenderAssetUsages::RENDER_WORLD;
    for algo in algos {
        if *algo == A::Fan && wants.iter().any(|w| w.poly.len() > 4 && !strictly_convex(&w.poly)) {
            continue;
        }
        for flat in [false, true] {
            let tag = |e: String| format!("{:?} flat {}: {}", algo, flat, e);
            let out = guarded(|| m.to_bevy_ex(both, *algo, flat)).map_err(|e| tag(format!("panic: {}", e)))?;
            export_ok(&out, width, &verts, wants, flat).map_err(tag)?;
            wantb("usage", out.asset_usage == both, true)?;
            let mut old = old_mesh();
            guarded(|| m.bevy_set_ex(&mut old, *algo, flat, &mut TesselationMeta::default())).map_err(|e| tag(format!("bevy_set_ex: panic: {}", e)))?;
            export_ok(&old, width, &verts, wants, flat).map_err(|e| tag(format!("bevy_set_ex: {}", e)))?;
        }
    }
    let out = guarded(|| m.to_bevy(RenderAssetUsages::MAIN_WORLD))?;
    export_ok(&out, width, &verts, wants, false).map_err(|e| format!("to_bevy: {}", e))?;
    let mut old = old_mesh();
    guarded(|| m.bevy_set(&mut old))?;
    export_ok(&old, width, &verts, wants, false).map_err(|e| format!("bevy_set: {}", e))
}
fn straight3(p: &[P]) -> bool {
    let n = p.len();
    (0..n).any(|a| (a + 1..n).any(|b| (b + 1..n).any(|c| cross(p[a], p[b], p[c]) == 0)))
}
/// a face alone in every axis plane; in the plane z = const also with vertices on a line
fn placed(ctx: &Ctx, polys: &[Vec<P>]) {
    let planes = planes();
    ctx.bound("placed faces", format!("{} polygons in {} planes, {} algorithms", polys.len(), planes.len(), ALGOS.len()));
    ctx.par(polys.len() as u64, 4, |i| {
        ctx.states.fetch_add(1, SeqCst);
        let p = &polys[i as usize];
        for (k, pl) in planes.iter().enumerate() {
            let up = *pl == ((1, 0, 0), (0, 1, 0));
            if straight3(p) && !up {
                continue;
            }
            let o = [(0, 0, 0), (10, -5, 2)][(i as usize + k) % 2];
            step(ctx, || format!("placed {:?} plane {:?} at {:?}", p, pl, o).replace(' ', ""), || {
                let pos: Vec<I3> = p.iter().map(|q| (o.0 + q.0 * pl.0 .0 + q.1 * pl.1 .0, o.1 + q.0 * pl.0 .1 + q.1 * pl.1 .1, o.2 + q.0 * pl.0 .2 + q.1 * pl.1 .2)).collect();
                let m = build::<BevyMeshType3d32>(&pos, &[(0..p.len() as u32).collect()]);
                exports(&m, 4, &[want(pos.clone())], &ALGOS)
            });
        }
    });
}
/// solids with every set of removed faces and removed or added vertices
fn solid_exports<T: HalfEdgeImplMeshType<VP = BevyVertexPayload3d, Mesh = HalfEdgeMeshImpl<T>> + MeshType3D<Vec = Vec3, S = f32> + MeshTypeHalfEdge>(ctx: &Ctx, ty: &str, width: usize)
where
    T::EP: Default,
    T::FP: Default,
{
    for s in solids() {
        let n = s.faces.len();
        if n > 8 || s.pos.len() > 200 {
            continue;
        }
        ctx.bound(&format!("{} {}", ty, s.name), format!("all {} sets of removed faces", 1u32 << n));
        ctx.par(1 << n, 4, |k| {
            ctx.states.fetch_add(1, SeqCst);
            step(ctx, || format!("solid {} {} removed {:b}", ty, s.name, k), || {
                // an isolated vertex among the others
                let mut pos = s.pos.clone();
                pos.push((50, 60, 70));
                let mut m = build::<T>(&pos, &s.faces);
                let fids: Vec<T::F> = m.face_ids().collect();
                for i in 0..n {
                    if k >> i & 1 == 1 {
                        MeshBuilder::<T>::remove_face(&mut m, fids[i]);
                    }
                }
                let ws: Vec<Want> = (0..n).filter(|i| k >> i & 1 == 0).map(|i| want(s.faces[i].iter().map(|v| s.pos[*v as usize]).collect())).collect();
                exports(&m, width, &ws, &[A::Delaunay, A::Sweep, A::MinWeight])
            });
        });
    }
}
/// meshes with more vertices than fit smaller index types
fn fields<T: HalfEdgeImplMeshType<VP = BevyVertexPayload3d, Mesh = HalfEdgeMeshImpl<T>> + MeshType3D<Vec = Vec3, S = f32> + MeshTypeHalfEdge>(ctx: &Ctx, ty: &str, width: usize, sizes: &[(u32, u32)])
where
    T::EP: Default,
    T::FP: Default,
{
    ctx.bound(&format!("{} fields", ty), format!("cells {:?}", sizes));
    ctx.par(sizes.len() as u64, 1, |i| {
        ctx.states.fetch_add(1, SeqCst);
        let (w, h) = sizes[sizes.len() - 1 - i as usize];
        step(ctx, || format!("field {} {}x{}", ty, w, h), || {
            let (pos, faces) = field(w, h);
            let m = crate::realize::realize_ids::<T>(
                &marked(from_faces(pos.len() as u32, &faces)),
                |v| {
                    let mut p = BevyVertexPayload3d::from_pos(v3(pos[v as usize]));
                    p.set_normal(normal_of(v as usize));
                    p
                },
                |_| Default::default(),
                |_| Default::default(),
            );
            let both = RenderAssetUsages::MAIN_WORLD | RenderAssetUsages::RENDER_WORLD;
            let copies: usize = faces.iter().map(|f| f.len()).sum();
            for algo in [A::Auto, A::Sweep, A::MinWeight, A::Fan] {
                for flat in [false, true] {
                    // the copies must fit the index
                    if flat && (width == 2 && copies > 65535 || width == 1 && copies > 255) {
                        continue;
                    }
                    let tag = |e: String| format!("{:?} flat {}: {}", algo, flat, e);
                    let mut old = old_mesh();
                    let set = algo == A::Sweep;
                    let out = guarded(|| {
                        if set {
                            m.bevy_set_ex(&mut old, algo, flat, &mut TesselationMeta::default());
                            old
                        } else {
                            m.to_bevy_ex(both, algo, flat)
                        }
                    })
                    .map_err(|e| tag(format!("panic: {}", e)))?;
                    let (ind, wd) = indices(&out).map_err(tag)?;
                    let (ps, ns) = (attr(&out, Mesh::ATTRIBUTE_POSITION).map_err(tag)?, attr(&out, Mesh::ATTRIBUTE_NORMAL).map_err(tag)?);
                    let count = if flat { copies } else { pos.len() };
                    if wd != width.max(2) || ps.len() != count || ns.len() != count || ind.len() != (w * h * 6) as usize || ind.iter().any(|i| *i >= count) {
                        return Err(tag(format!("{} byte indices, {} positions, {} normals, {} indices", wd, ps.len(), ns.len(), ind.len())));
                    }
                    let up = Vec3::new(-2.0, -3.0, 1.0).normalize();
                    for i in 0..count {
                        let n = Vec3::from_array(ns[i]);
                        let ok = if flat { (n - up).length() < 1e-3 } else { ps[i] == v3(pos[i]).to_array() && n == normal_of(i) };
                        if !ok {
                            return Err(tag(format!("vertex {} is {:?} with normal {:?}", i, ps[i], ns[i])));
                        }
                    }
                    let at = |i: usize| (ps[i][0] as i64, ps[i][1] as i64);
                    let t: Vec<_> = ind.chunks(3).map(|c| [at(c[0]), at(c[1]), at(c[2])]).collect();
                    field_ok(w, h, &t).map_err(tag)?;
                }
            }
            Ok(())
        });
    });
}
/// faces as cycles of positions with normals and texture coordinates, rotated to a canonical start
type Cyc = Vec<([u32; 3], [u32; 3], [u32; 2])>;
fn canon(mut c: Cyc) -> Cyc {
    let k = (0..c.len()).min_by_key(|i| c[*i]).unwrap_or(0);
    c.rotate_left(k);
    c
}
fn bits3(v: [f32; 3]) -> [u32; 3] {
    // + 0.0 makes the zeros equal
    [(v[0] + 0.0).to_bits(), (v[1] + 0.0).to_bits(), (v[2] + 0.0).to_bits()]
}
fn cycles(m: &BevyMesh3d) -> Vec<Cyc> {
    let mut r: Vec<Cyc> = m
        .faces()
        .map(|f| {
            canon(
                f.vertices(m)
                    .map(|v| {
                        let p: &BevyVertexPayload3d = v.payload();
                        (bits3(p.pos().to_array()), bits3(p.normal().to_array()), [p.uv().x.to_bits(), p.uv().y.to_bits()])
                    })
                    .collect(),
            )
        })
        .collect();
    r.sort();
    r
}
/// From<&Mesh3d64>: solids with removed faces
fn from_double(ctx: &Ctx) {
    for s in solids() {
        let n = s.faces.len();
        if n > 8 {
            continue;
        }
        ctx.par(1 << n, 4, |k| {
            ctx.states.fetch_add(1, SeqCst);
            step(ctx, || format!("from double {} removed {:b}", s.name, k), || {
                let c = 1.0 + 1.0 / 3.0;
                let mut d = mesh3(&from_faces(s.pos.len() as u32, &s.faces), |v| i3(s.pos[v as usize]) * c);
                for (i, v) in d.vertices_mut().enumerate() {
                    v.payload_mut().set_normal(V3::new(0.1, i as f64, 3.0));
                    v.payload_mut().set_uv(na::Vec2::new(0.3, i as f64));
                }
                let fids: Vec<usize> = d.face_ids().collect();
                for i in 0..n {
                    if k >> i & 1 == 1 {
                        MeshBuilder::<na::MeshType3d64PNU>::remove_face(&mut d, fids[i]);
                    }
                }
                let b = BevyMesh3d::from(&d);
                // edges without any face are only tolerated where the source has them
                wantb("check agrees with the source", b.check().is_ok(), d.check().is_ok())?;
                if (b.num_vertices(), b.num_edges(), b.num_faces()) != (d.num_vertices(), d.num_edges(), d.num_faces()) {
                    return Err(format!("{} vertices, {} edges and {} faces instead of {}, {}, {}", b.num_vertices(), b.num_edges(), b.num_faces(), d.num_vertices(), d.num_edges(), d.num_faces()));
                }
                let mut w: Vec<Cyc> = (0..n)
                    .filter(|i| k >> i & 1 == 0)
                    .map(|i| {
                        canon(
                            s.faces[i]
                                .iter()
                                .map(|v| {
                                    let p = s.pos[*v as usize];
                                    (bits3([(p.0 as f64 * c) as f32, (p.1 as f64 * c) as f32, (p.2 as f64 * c) as f32]), bits3([0.1, *v as f32, 3.0]), [0.3f32.to_bits(), (*v as f32).to_bits()])
                                })
                                .collect(),
                        )
                    })
                    .collect();
                w.sort();
                wantb("the faces are those of the source", cycles(&b) == w, true)
            });
        });
    }
}
type Q = (f64, f64);
fn mix(a: Q, b: Q, t: f64) -> Q {
    (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t)
}
pub fn eval(p: &[Q], t: f64) -> Q {
    let mut b = p.to_vec();
    while b.len() > 1 {
        b = b.windows(2).map(|w| mix(w[0], w[1], t)).collect();
    }
    b[0]
}
pub fn dist_seg(p: Q, a: Q, b: Q) -> f64 {
    let l = (b.0 - a.0).powi(2) + (b.1 - a.1).powi(2);
    let t = if l == 0.0 { 0.0 } else { (((p.0 - a.0) * (b.0 - a.0) + (p.1 - a.1) * (b.1 - a.1)) / l).clamp(0.0, 1.0) };
    let m = mix(a, b, t);
    ((p.0 - m.0).powi(2) + (p.1 - m.1).powi(2)).sqrt()
}
/// whether the polyline from start to end stays within `tol` of the curve, its points on the curve
fn follows(curve: &[Q], line: &[Q], tol: f64) -> Result<(), String> {
    let n = 400;
    let s: Vec<Q> = (0..=n).map(|i| eval(curve, i as f64 / n as f64)).collect();
    // parameters of the points: nearest sample after the previous one
    let mut at = 0;
    for p in line {
        let d = |i: usize| if i < n { dist_seg(*p, s[i], s[i + 1]) } else { dist_seg(*p, s[n], s[n]) };
        let Some(k) = (at..=n).find(|i| d(*i) < 1e-4) else {
            return Err(format!("the point {:?} is not on the curve {:?} after its predecessors", p, curve));
        };
        at = k;
    }
    for x in &s {
        let d = line.windows(2).map(|w| dist_seg(*x, w[0], w[1])).fold(f64::MAX, f64::min);
        if d > tol + 1e-4 {
            return Err(format!("the polyline {:?} leaves the curve {:?} by {}", line, curve, d));
        }
    }
    Ok(())
}
/// BevyMesh2d::to_3d with straight and curved edges
fn flat_to_space(ctx: &Ctx, polys: &[Vec<P>]) {
    ctx.bound("2d to 3d", format!("{} polygons, every assignment of 4 curve types to up to 4 edges on either half-edge, 2 tolerances", polys.len()));
    ctx.par(polys.len() as u64, 1, |i| {
        ctx.states.fetch_add(1, SeqCst);
        let p = &polys[i as usize];
        let n = p.len();
        for k in 0..4u32.pow(n.min(4) as u32) {
            step(ctx, || format!("to 3d {:?} curves {}", p, k).replace(' ', ""), || {
                let mut m = realize::<BevyMeshType2d32>(
                    &marked(from_faces(n as u32, &[(0..n as u32).collect()])),
                    |v| BevyVertexPayload2d::from_pos(Vec2::new(p[v as usize].0 as f32, p[v as usize].1 as f32)),
                    |_| Default::default(),
                    |_| Default::default(),
                );
                let mut curves: Vec<Vec<Q>> = vec![];
                for e in 0..n {
                    let c = if e < 4 { k >> (2 * e) & 3 } else { 0 };
                    let (a, b) = (p[e], p[(e + 1) % n]);
                    let (fa, fb) = ((a.0 as f64, a.1 as f64), (b.0 as f64, b.1 as f64));
                    let (c0, c1) = ((fa.0 + 0.25, fa.1 - 0.5), (fb.0 + 0.5, fb.1 + 0.25));
                    let v = |q: Q| Vec2::new(q.0 as f32, q.1 as f32);
                    // kinds 2 and 3 alternate between the half-edge of the face and its twin
                    let fwd = m.shared_edge_id(e as u32, ((e + 1) % n) as u32).ok_or("no edge")?;
                    let inner = if m.edge(fwd).origin_id() == e as u32 { fwd } else { m.edge(fwd).twin_id() };
                    let twin = m.edge(inner).twin_id();
                    match c {
                        1 => {
                            m.edge_mut(inner).set_curve_type(CurvedEdgeType::QuadraticBezier(v(c0)));
                            curves.push(vec![fa, c0, fb]);
                        }
                        2 => {
                            m.edge_mut(twin).set_curve_type(CurvedEdgeType::QuadraticBezier(v(c0)));
                            curves.push(vec![fa, c0, fb]);
                        }
                        3 => {
                            m.edge_mut(inner).set_curve_type(CurvedEdgeType::CubicBezier(v(c0), v(c1)));
                            curves.push(vec![fa, c0, c1, fb]);
                        }
                        _ => curves.push(vec![fa, fb]),
                    }
                }
                let before = format!("{:?}", m);
                for tol in [0.5f32, 0.01] {
                    let d = m.to_3d(tol);
                    d.check().map_err(|e| format!("{:?}", e))?;
                    wantb("the source mesh is unchanged", format!("{:?}", m) == before, true)?;
                    if d.num_faces() != 1 || d.num_vertices() * 2 != d.num_edges() * if d.edges().count() == d.num_vertices() { 2 } else { 1 } {
                        return Err(format!("{} faces, {} vertices, {} edges", d.num_faces(), d.num_vertices(), d.num_edges()));
                    }
                    let f = d.faces().next().unwrap();
                    let ring: Vec<Vec3> = f.vertices(&d).map(|v| *v.payload().pos()).collect();
                    wantb("all vertices are on the face", ring.len() == d.num_vertices(), true)?;
                    wantb("z is zero", ring.iter().all(|v| v.z == 0.0), true)?;
                    let pts: Vec<Q> = ring.iter().map(|v| (v.x as f64, v.y as f64)).collect();
                    // the corners in order, the pieces between them on the curves
                    let at: Vec<usize> = p.iter().map(|q| pts.iter().position(|x| *x == (q.0 as f64, q.1 as f64)).ok_or_else(|| format!("corner {:?} is missing", q))).collect::<Result<_, _>>()?;
                    let mut total = 0;
                    for e in 0..n {
                        let (s, mut t) = (at[e], at[(e + 1) % n]);
                        if t <= s {
                            t += pts.len();
                        }
                        total += t - s;
                        let line: Vec<Q> = (s..=t).map(|j| pts[j % pts.len()]).collect();
                        if curves[e].len() == 2 && line.len() != 2 {
                            return Err(format!("the straight edge {} got {} points", e, line.len()));
                        }
                        follows(&curves[e], &line, tol as f64)?;
                    }
                    wantb("the corners are in order", total == pts.len(), true)?;
                }
                Ok(())
            });
        }
    });
}
pub fn b02(ctx: &Ctx) {
    let mut ps = vec![];
    polygons(&grid(3, 3), 3, 7, true, true, &mut ps);
    if ctx.full() {
        polygons(&grid(4, 3), 3, 7, true, true, &mut ps);
    }
    let mut seen = BTreeMap::new();
    ps.retain(|p| seen.insert(p.clone(), ()).is_none());
    placed(ctx, &ps);
    let mut gp = vec![];
    polygons(&general(7, 3), 4, ctx.b(6, 7), false, false, &mut gp);
    placed(ctx, &gp);
    solid_exports::<BevyMeshType3d32>(ctx, "u32", 4);
    solid_exports::<Narrow<u16>>(ctx, "u16", 2);
    solid_exports::<Narrow<u8>>(ctx, "u8", 2);
    fields::<BevyMeshType3d32>(ctx, "u32", 4, &[(3, 2), (16, 15), (70, 60), (257, 255)]);
    fields::<Narrow<u16>>(ctx, "u16", 2, &[(16, 15), (70, 60), (250, 250)]);
    fields::<Narrow<u8>>(ctx, "u8", 1, &[(3, 2), (14, 15)]);
    from_double(ctx);
    let mut small = vec![];
    polygons(&grid(3, 3), 3, ctx.b(4, 5), false, true, &mut small);
    flat_to_space(ctx, &small);
    ctx.assume("whether texture coordinates are exported is unspecified; positions and normals are");
    ctx.assume("faces with three vertices on a line are only placed in the plane z = 0, since rounding decides elsewhere");
}
