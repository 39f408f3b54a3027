//! Breadth-first exhaustive exploration of mesh states reachable by builder operations.
use crate::engine::*;
use crate::ops::*;
use crate::topo::*;
use procedural_modelling::prelude::*;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Mutex;

pub struct Node {
    pub mesh: TagMesh,
    pub raw: Raw,
    pub path: Vec<Op>,
}

pub fn path_key(p: &[Op]) -> String {
    if p.is_empty() {
        return "empty".into();
    }
    p.iter().map(|o| format!("{:?}", o).replace(' ', "")).collect::<Vec<_>>().join(";")
}

pub struct Bounds {
    pub max_v: usize,
    pub max_e: usize,
    pub depth: usize,
    pub al: Alphabet,
    /// keep representative edges in the canonical key
    pub reps: bool,
}

/// Explores all states; on every transition the real mesh is compared with the reference model,
/// and `visit` is called once per canonical state. Returns the number of states.
pub fn explore(
    ctx: &Ctx,
    b: &Bounds,
    check_ops: bool,
    visit: &(dyn Fn(&Node) -> Result<(), String> + Sync),
) -> u64 {
    const SH: usize = 64;
    let seen: Vec<Mutex<HashSet<Vec<u8>>>> = (0..SH).map(|_| Mutex::new(HashSet::new())).collect();
    // level-synchronous and deterministic: of all ways to reach a new state in one level, the first in
    // (parent, operation) order represents it, whatever the thread schedule
    let level: Vec<Mutex<HashMap<Vec<u8>, (u64, Node)>>> = (0..SH).map(|_| Mutex::new(HashMap::new())).collect();
    let shard = |code: &[u8]| -> usize {
        let mut h = 1469598103934665603u64;
        for c in code {
            h = (h ^ *c as u64).wrapping_mul(1099511628211);
        }
        (h >> 20) as usize % SH
    };
    let root = Node { mesh: TagMesh::new(), raw: Raw::default(), path: vec![] };
    let code = root.raw.canon(b.reps);
    seen[shard(&code)].lock().unwrap().insert(code);
    let mut frontier = vec![root];
    let mut total = 0u64;
    for d in 0..=b.depth {
        total += frontier.len() as u64;
        ctx.states.fetch_add(frontier.len() as u64, SeqCst);
        ctx.count(&format!("states at depth {:02}", d), frontier.len() as u64);
        if frontier.is_empty() || ctx.full() {
            break;
        }
        let last = d == b.depth;
        ctx.par(frontier.len() as u64, 4, |i| {
            let n = &frontier[i as usize];
            ctx.case(|| path_key(&n.path), || visit(n));
            if last {
                return;
            }
            for (k, op) in enabled(&n.raw, &b.al, b.max_v, b.max_e).into_iter().enumerate() {
                let key = || {
                    let mut p = n.path.clone();
                    p.push(op.clone());
                    path_key(&p)
                };
                let res = if check_ops {
                    ctx.case(&key, || step(n, &op))
                } else {
                    // generation only: a state the operation does not reach is reported by S01/S02
                    guarded(|| step(n, &op)).ok().and_then(|r| r.ok())
                };
                ctx.transitions.fetch_add(1, SeqCst);
                if let Some((mesh, raw)) = res {
                    if check_ops {
                        ctx.traces.fetch_add(1, SeqCst);
                    }
                    if matches!(op, Op::Clear) {
                        continue;
                    }
                    let code = raw.canon(b.reps);
                    let h = shard(&code);
                    if seen[h].lock().unwrap().contains(&code) {
                        continue;
                    }
                    let order = i << 20 | k as u64;
                    let mut g = level[h].lock().unwrap();
                    if g.get(&code).map_or(true, |(o, _)| order < *o) {
                        let mut path = n.path.clone();
                        path.push(op.clone());
                        g.insert(code, (order, Node { mesh, raw, path }));
                    }
                }
            }
        });
        let mut next: Vec<(u64, Node)> = vec![];
        for h in 0..SH {
            let mut s = seen[h].lock().unwrap();
            for (code, on) in level[h].lock().unwrap().drain() {
                s.insert(code);
                next.push(on);
            }
        }
        next.sort_by_key(|x| x.0);
        frontier = next.into_iter().map(|x| x.1).collect();
    }
    total
}

/// Executes one operation on a copy, compares with the reference and checks validity.
pub fn step(n: &Node, op: &Op) -> Result<(TagMesh, Raw), String> {
    let mut mesh = n.mesh.clone();
    let want = apply(&mut mesh, &n.raw, op)?;
    let got = snap(&mesh)?;
    got.validate().map_err(|e| format!("after {:?}: {}", op, e))?;
    want.same_as(&got).map_err(|e| format!("{:?}: {}", op, e))?;
    check_verdict(&mesh, &got)?;
    if matches!(op, Op::Clear) && (mesh.num_vertices() != 0 || mesh.max_vertex_index() != 0) {
        return Err("clear left vertices".into());
    }
    Ok((mesh, got))
}

/// The library's own check accepts exactly the valid meshes without faceless edges.
pub fn check_verdict(mesh: &TagMesh, raw: &Raw) -> Result<(), String> {
    let want = raw.validate().is_ok() && raw.all_faces_nondegenerate() && raw.no_faceless_edge();
    let got = mesh.check();
    if got.is_ok() != want {
        return Err(format!("library check says {:?} but expected {}", got, if want { "ok" } else { "an error" }));
    }
    Ok(())
}
