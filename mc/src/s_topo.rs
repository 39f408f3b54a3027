//! S01, S02: builder operations.
use crate::engine::*;
use crate::explore::*;
use crate::ops::*;
use crate::realize::*;
use crate::shapes::{huge, larger};
use crate::topo::*;
use procedural_modelling::prelude::*;
use std::collections::BTreeSet;
use std::sync::atomic::Ordering::SeqCst;

/// S01: reachable meshes are valid; the library check accepts them and rejects broken links.
pub fn s01(ctx: &Ctx) {
    let b = Bounds { max_v: ctx.b(6, 7), max_e: ctx.b(5, 6), depth: ctx.b(9, 12), al: Alphabet::all(), reps: true };
    ctx.bound("mesh", format!("<= {} vertices, <= {} edges, <= 3 faces closed at once, {} operations", b.max_v, b.max_e, b.depth));
    explore(ctx, &b, true, &|n| {
        ctx.sample(|| path_key(&n.path));
        n.raw.validate()?;
        check_verdict(&n.mesh, &n.raw)?;
        // printing the mesh must work on every valid mesh
        let _ = format!("{:?}", n.mesh);
        mutations(ctx, n, 1)
    });
    let (l, h) = (larger(8), huge(ctx.thorough));
    ctx.bound("larger meshes", format!("{} with up to {} half-edges: every broken link; {} with up to {}: every 499th", l.len(), l.iter().map(|x| x.1.ne()).max().unwrap(), h.len(), h.iter().map(|x| x.1.ne()).max().unwrap()));
    let all: Vec<(&(String, Raw), usize)> = h.iter().map(|x| (x, 499)).chain(l.iter().map(|x| (x, 1))).collect();
    ctx.par(all.len() as u64 * 2, 1, |i| {
        let ((name, raw), step) = all[i as usize / 2];
        let raw = if i % 2 == 0 { raw.clone() } else { scramble(raw, 1) };
        ctx.case(
            || format!("{}{}", name, if i % 2 == 0 { "" } else { " renumbered" }),
            || {
                let n = node(&raw)?;
                check_verdict(&n.mesh, &n.raw)?;
                let _ = format!("{:?}", n.mesh);
                mutations(ctx, &n, step)
            },
        );
    });
}
fn node(raw: &Raw) -> Result<Node, String> {
    let mesh = realize_ids::<TagMT>(raw, |v| Tag(raw.vv(v).tag), |e| Tag(raw.ee(e).tag), |f| Tag(raw.ff(f).tag));
    raw.same_as(&snap(&mesh)?).map_err(|e| format!("harness: {}", e))?;
    Ok(Node { mesh, raw: raw.clone(), path: vec![] })
}

/// every `every`-th single broken link
fn mutations(ctx: &Ctx, n: &Node, every: usize) -> Result<(), String> {
    let r = &n.raw;
    if !(r.no_faceless_edge() && r.all_faces_nondegenerate()) || r.ne() == 0 {
        return Ok(());
    }
    let (mut k, mut all) = (0u64, 0usize);
    let mut probe = |what: String, f: &dyn Fn(&mut TagMesh), still_valid: bool| -> Result<(), String> {
        all += 1;
        if all % every != 0 {
            return Ok(());
        }
        k += 1;
        let mut m = n.mesh.clone();
        f(&mut m);
        let ok = match guarded(|| m.check()) {
            Ok(Ok(())) => true,
            _ => false,
        };
        if ok != still_valid {
            return Err(format!("library check says {} after {}", if ok { "ok" } else { "invalid" }, what));
        }
        Ok(())
    };
    for e in r.eids() {
        for x in r.eids() {
            if x != r.next(e) {
                probe(format!("next of {} set to {}", e, x), &|m| m.edge_mut(e as u16).set_next(x as u16), false)?;
            }
            if x != r.prev(e) {
                probe(format!("prev of {} set to {}", e, x), &|m| m.edge_mut(e as u16).set_prev(x as u16), false)?;
            }
            if x != r.twin(e) {
                probe(format!("twin of {} set to {}", e, x), &|m| m.edge_mut(e as u16).set_twin(x as u16), false)?;
            }
        }
        for v in r.vids() {
            if v != r.origin(e) {
                probe(format!("origin of {} set to {}", e, v), &|m| m.edge_mut(e as u16).set_origin(v), false)?;
            }
        }
        if r.face(e) != NONE {
            probe(format!("face of {} deleted", e), &|m| m.edge_mut(e as u16).delete_face(), false)?;
            for f in r.fids() {
                if f != r.face(e) {
                    probe(
                        format!("face of {} set to {}", e, f),
                        &|m| {
                            m.edge_mut(e as u16).delete_face();
                            m.edge_mut(e as u16).set_face(f as u8)
                        },
                        false,
                    )?;
                }
            }
        } else {
            for f in r.fids() {
                probe(format!("face of {} set to {}", e, f), &|m| m.edge_mut(e as u16).set_face(f as u8), false)?;
            }
        }
        for v in r.vids() {
            probe(format!("representative of vertex {} set to {}", v, e), &|m| m.vertex_mut(v).set_edge(e as u16), r.origin(e) == v)?;
        }
        for f in r.fids() {
            probe(format!("representative of face {} set to {}", f, e), &|m| m.face_mut(f as u8).set_edge(e as u16), r.face(e) == f)?;
        }
    }
    ctx.count("broken links probed", k);
    Ok(())
}

/// S02: each operation equals the reference; exact representation, every id order.
pub fn s02(ctx: &Ctx) {
    let b = Bounds { max_v: ctx.b(6, 7), max_e: ctx.b(6, 7), depth: ctx.b(7, 8), al: Alphabet::all(), reps: true };
    ctx.bound("mesh", format!("<= {} vertices, <= {} edges, {} operations", b.max_v, b.max_e, b.depth));
    explore(ctx, &b, true, &|n| {
        ctx.sample(|| path_key(&n.path));
        Ok(())
    });
    on_larger(ctx);
}
/// Operations on meshes larger than the exploration reaches: every operation on the families, as built and
/// renumbered, whole and with faces removed; thinned out on the huge ones; long paths, loops and splits.
fn on_larger(ctx: &Ctx) {
    let mut work: Vec<(String, Raw, usize, Vec<u32>)> = vec![];
    for (name, raw) in larger(ctx.b(7, 9)) {
        let every = if raw.ne() > 60 { 7 } else { 1 };
        work.push((name.clone(), raw.clone(), every, vec![]));
        work.push((format!("{} renumbered", name), scramble(&raw, 0), every, vec![]));
        let fs = raw.fids();
        for i in 0..fs.len() {
            for j in i..fs.len().min(i + 3) {
                work.push((format!("{} without {} {}", name, fs[i], fs[j]), raw.clone(), every * 5, vec![fs[i], fs[j]]));
            }
        }
    }
    let n = work.len();
    for (name, raw) in huge(ctx.thorough) {
        let every = raw.ne() * raw.ne() / 200;
        work.push((format!("{} renumbered", name), scramble(&raw, 1), every, vec![]));
        work.push((name, raw, every, vec![]));
    }
    ctx.bound("larger meshes", format!("{} (families with up to two faces removed), {} huge ones; operations thinned out evenly beyond 60 half-edges", n, work.len() - n));
    let al = Alphabet { path: 0, loops: 0, clear: false, ..Alphabet::all() };
    ctx.par(work.len() as u64, 1, |i| {
        // the huge ones first
        let (name, raw, every, without) = &work[work.len() - 1 - i as usize];
        let n = ctx.case(
            || name.clone(),
            || {
                let mut n = node(raw)?;
                for f in without.iter().collect::<BTreeSet<_>>() {
                    let (mesh, raw) = step(&n, &Op::RemoveFace(*f))?;
                    n = Node { mesh, raw, path: vec![] };
                }
                Ok(n)
            },
        );
        let n = match n {
            Some(n) => n,
            None => return,
        };
        let raw = &n.raw;
        ctx.states.fetch_add(1, SeqCst);
        let every = *every;
        let mut ops: Vec<Op> = enabled(raw, &al, raw.nv() + 4, raw.ne() / 2 + 4).into_iter().enumerate().filter(|(k, op)| k % every == i as usize % every || matches!(op, Op::FlipAll | Op::AddVertex | Op::IsolatedEdge)).map(|x| x.1).collect();
        let es = raw.eids();
        for (k, s) in [7, 40, 100].into_iter().enumerate() {
            if let Some(e) = es.get((i as usize * 5 + k * 3) % es.len().max(1)) {
                ops.push(Op::SplitEdge(*e, s));
            }
        }
        for op in ops {
            ctx.transitions.fetch_add(1, SeqCst);
            ctx.case(|| format!("{}: {:?}", name, op), || step(&n, &op).map(|_| ()));
            ctx.traces.fetch_add(1, SeqCst);
        }
    });
    let root = Node { mesh: TagMesh::new(), raw: Raw::default(), path: vec![] };
    let top = ctx.b(120, 250);
    ctx.bound("long paths and loops", format!("up to {} vertices, the loop closed", top));
    ctx.par(top as u64, 4, |i| {
        let k = i as usize;
        for op in [Op::Path(k + 2), Op::Loop(k + 3)] {
            ctx.transitions.fetch_add(1, SeqCst);
            let key = || format!("{:?}", op);
            if let Some((mesh, raw)) = ctx.case(&key, || step(&root, &op)) {
                let n = Node { mesh, raw, path: vec![op.clone()] };
                let ends: Vec<u32> = n.raw.eids().into_iter().filter(|e| n.raw.face(*e) == NONE).collect();
                for e in [ends[0], ends[ends.len() - 1]] {
                    for op2 in [Op::ViaEdge(e, n.raw.next(e)), Op::CloseHole(e, false), Op::SplitEdge(e, 2)] {
                        if matches!((&op, &op2), (Op::Path(_), Op::CloseHole(..))) {
                            continue;
                        }
                        ctx.transitions.fetch_add(1, SeqCst);
                        ctx.case(|| format!("{:?};{:?}", op, op2), || step(&n, &op2).map(|_| ()));
                        ctx.traces.fetch_add(1, SeqCst);
                    }
                }
            }
        }
    });
}
