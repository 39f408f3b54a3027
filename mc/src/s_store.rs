//! S03: the soft-deleting slot storage against a map model, all operation sequences.
use crate::engine::*;
use procedural_modelling::prelude::*;
use std::collections::HashSet;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq)]
struct El<I> {
    id: Option<I>,
    tag: u32,
}
impl<I: IndexType> Deletable<I> for El<I> {
    fn is_deleted(&self) -> bool {
        self.id.is_none()
    }
    fn delete(&mut self) {
        assert!(self.id.is_some());
        self.id = None;
    }
    fn set_id(&mut self, id: I) {
        assert!(self.id.is_none());
        self.id = Some(id);
    }
    fn allocate() -> Self {
        El { id: None, tag: 0 }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Slot {
    Free,
    Pending,
    Live(u32),
}
#[derive(Clone, Copy, Debug)]
enum SOp {
    Push,
    Allocate,
    AllocateSet,
    Set(usize),
    Delete(usize),
    Modify,
    ModifyOne(usize),
    Clear,
    // requests that must be rejected
    BadGet(usize),
    BadGetMut(usize),
    BadSet(usize),
    BadSetLiveElement(usize),
    BadPush,
    BadDelete(usize),
}
#[derive(Clone)]
struct St<I: IndexType> {
    im: DeletableVector<El<I>, I>,
    m: Vec<Slot>,
    path: Vec<SOp>,
    next: u32,
}

fn observe<I: IndexType>(s: &mut St<I>) -> Result<(), String> {
    let live: Vec<(usize, u32)> = s.m.iter().enumerate().filter_map(|(i, x)| if let Slot::Live(t) = x { Some((i, *t)) } else { None }).collect();
    let pending = s.m.iter().any(|x| *x == Slot::Pending);
    let got: Vec<(usize, u32)> = s.im.iter().map(|e| (e.id.unwrap().index(), e.tag)).collect();
    if got != live {
        return Err(format!("iteration gives {:?}, expected {:?}", got, live));
    }
    let got: Vec<(usize, u32)> = s.im.iter_mut().map(|e| (e.id.unwrap().index(), e.tag)).collect();
    if got != live {
        return Err(format!("mutable iteration gives {:?}, expected {:?}", got, live));
    }
    if !pending && s.im.len() != live.len() {
        return Err(format!("len is {}, expected {}", s.im.len(), live.len()));
    }
    if s.im.capacity() != s.m.len() {
        return Err(format!("capacity is {}, expected {}", s.im.capacity(), s.m.len()));
    }
    for i in 0..s.m.len() + 2 {
        let l = matches!(s.m.get(i), Some(Slot::Live(_)));
        if s.im.has(I::new(i)) != l {
            return Err(format!("has({}) is {}, expected {}", i, !l, l));
        }
        if let Some(Slot::Live(t)) = s.m.get(i) {
            if s.im.get(I::new(i)).tag != *t || s.im.get(I::new(i)).id != Some(I::new(i)) {
                return Err(format!("get({}) is {:?}, expected tag {}", i, s.im.get(I::new(i)), t));
            }
            if s.im.get_mut(I::new(i)).tag != *t {
                return Err(format!("get_mut({}) differs from tag {}", i, t));
            }
        }
    }
    if s.im.has(<I as IndexType>::max()) {
        return Err("has(none) is true".into());
    }
    Ok(())
}

fn reserve<I: IndexType>(s: &mut St<I>, i: usize) -> Result<(), String> {
    let any_free = s.m.iter().any(|x| *x == Slot::Free);
    if i == s.m.len() {
        if any_free {
            return Err(format!("storage grew to slot {} although a deleted slot is free", i));
        }
        s.m.push(Slot::Pending);
    } else if i > s.m.len() || s.m[i] != Slot::Free {
        return Err(format!("returned id {} which is {:?}", i, s.m.get(i)));
    } else {
        s.m[i] = Slot::Pending;
    }
    Ok(())
}

fn rejected<I: IndexType>(s: &St<I>, what: &str, f: impl FnOnce(&mut DeletableVector<El<I>, I>)) -> Result<(), String> {
    let mut c = s.im.clone();
    match guarded(|| f(&mut c)) {
        Err(_) => Ok(()),
        Ok(_) => Err(format!("{} was accepted", what)),
    }
}

fn sstep<I: IndexType>(s: &St<I>, op: SOp) -> Result<St<I>, String> {
    let mut s = s.clone();
    s.next += 1;
    let t = s.next;
    let el = || El { id: None, tag: t };
    match op {
        SOp::Push => {
            let i = s.im.push(el()).index();
            reserve(&mut s, i)?;
            s.m[i] = Slot::Live(t);
        }
        SOp::Allocate => {
            let i = s.im.allocate().index();
            reserve(&mut s, i)?;
        }
        SOp::AllocateSet => {
            let i = s.im.allocate();
            reserve(&mut s, i.index())?;
            s.im.set(i, el());
            s.m[i.index()] = Slot::Live(t);
        }
        SOp::Set(i) => {
            s.im.set(I::new(i), el());
            s.m[i] = Slot::Live(t);
        }
        SOp::Delete(i) => {
            s.im.delete_internal(I::new(i));
            s.m[i] = Slot::Free;
        }
        SOp::Modify => {
            let k = s.im.iter_mut().map(|e| e.tag += 1000).count();
            let mut n = 0;
            for x in s.m.iter_mut() {
                if let Slot::Live(t) = x {
                    *t += 1000;
                    n += 1;
                }
            }
            if k != n {
                return Err(format!("mutable iteration visited {} of {}", k, n));
            }
        }
        SOp::ModifyOne(i) => {
            s.im.get_mut(I::new(i)).tag = t;
            s.m[i] = Slot::Live(t);
        }
        SOp::Clear => {
            s.im.clear();
            s.m.clear();
        }
        SOp::BadGet(i) => rejected(&s, &format!("get({}) of a missing element", i), |v| {
            let _ = v.get(I::new(i)).tag;
        })?,
        SOp::BadGetMut(i) => rejected(&s, &format!("get_mut({}) of a missing element", i), |v| v.get_mut(I::new(i)).tag = 0)?,
        SOp::BadSet(i) => rejected(&s, &format!("set({}) on an occupied or missing slot", i), |v| v.set(I::new(i), el()))?,
        SOp::BadSetLiveElement(i) => rejected(&s, "set of an element that has an id", |v| v.set(I::new(i), El { id: Some(I::new(0)), tag: 0 }))?,
        SOp::BadPush => rejected(&s, "push of an element that has an id", |v| {
            v.push(El { id: Some(I::new(0)), tag: 0 });
        })?,
        SOp::BadDelete(i) => rejected(&s, &format!("delete({}) of a missing element", i), |v| v.delete_internal(I::new(i)))?,
    }
    s.path.push(op);
    observe(&mut s)?;
    Ok(s)
}

fn ops<I: IndexType>(s: &St<I>, maxslots: usize) -> Vec<SOp> {
    let mut o = vec![];
    let free = s.m.iter().any(|x| *x == Slot::Free);
    if free || s.m.len() < maxslots {
        o.extend([SOp::Push, SOp::Allocate, SOp::AllocateSet]);
    }
    o.push(SOp::BadPush);
    for i in 0..s.m.len() + 1 {
        match s.m.get(i) {
            Some(Slot::Live(_)) => o.extend([SOp::Delete(i), SOp::ModifyOne(i), SOp::BadSet(i), SOp::BadSetLiveElement(i)]),
            Some(Slot::Pending) => o.extend([SOp::Set(i), SOp::BadGet(i), SOp::BadGetMut(i), SOp::BadSetLiveElement(i), SOp::BadDelete(i)]),
            Some(Slot::Free) => o.extend([SOp::BadGet(i), SOp::BadGetMut(i), SOp::BadSetLiveElement(i), SOp::BadDelete(i)]),
            None => o.extend([SOp::BadGet(i), SOp::BadGetMut(i), SOp::BadSet(i), SOp::BadDelete(i)]),
        }
    }
    o.extend([SOp::Modify, SOp::Clear]);
    o
}

fn run<I: IndexType + Send + Sync>(ctx: &Ctx, name: &str, maxslots: usize, depth: usize)
where
    DeletableVector<El<I>, I>: Send + Sync,
{
    let seen: Mutex<HashSet<String>> = Default::default();
    // tags renamed in order of appearance: the storage never looks at them
    let norm = |s: &St<I>| {
        let t: Vec<String> = s.m.iter().map(|x| match x { Slot::Free => "f", Slot::Pending => "p", Slot::Live(_) => "l" }.to_string()).collect();
        let mut im = format!("{:?}", s.im);
        // drop payload tags from the key
        while let Some(a) = im.find("tag: ") {
            let b = im[a..].find(' ').unwrap() + a + 1;
            let c = im[b..].find(|c: char| !c.is_ascii_digit()).unwrap() + b;
            im.replace_range(a..c, "#");
        }
        format!("{} {}", t.join(""), im)
    };
    let mut fr = vec![St::<I> { im: DeletableVector::new(), m: vec![], path: vec![], next: 0 }];
    for d in 0..=depth {
        ctx.states.fetch_add(fr.len() as u64, SeqCst);
        ctx.count(&format!("{} states at depth {:02}", name, d), fr.len() as u64);
        if d == depth {
            break;
        }
        let nx: Mutex<Vec<St<I>>> = Default::default();
        ctx.par(fr.len() as u64, 1, |i| {
            let s = &fr[i as usize];
            let mut out = vec![];
            for op in ops(s, maxslots) {
                ctx.transitions.fetch_add(1, SeqCst);
                let r = ctx.case(
                    || format!("{}:{}", name, s.path.iter().chain([&op]).map(|o| format!("{:?}", o)).collect::<Vec<_>>().join(";")),
                    || sstep(s, op),
                );
                if let Some(n) = r {
                    ctx.traces.fetch_add(1, SeqCst);
                    if seen.lock().unwrap().insert(norm(&n)) {
                        ctx.sample(|| format!("{:?}", n.path));
                        out.push(n);
                    }
                }
            }
            nx.lock().unwrap().extend(out);
        });
        fr = nx.into_inner().unwrap();
    }
}

pub fn s03(ctx: &Ctx) {
    let (sl, d) = (ctx.b(4, 6), ctx.b(10, 14));
    ctx.bound("storage", format!("<= {} slots, <= {} operations, index types usize and u8", sl, d));
    run::<usize>(ctx, "usize", sl, d);
    run::<u8>(ctx, "u8", sl, d);
    large(ctx);
}
/// Storages far larger than the exploration reaches: filled, thinned out in several orders, refilled.
fn large(ctx: &Ctx) {
    let top = ctx.b(180, 250);
    let sizes: Vec<usize> = (1..=24).chain((25..=top).step_by(31)).collect();
    ctx.bound("large storages", format!("up to {} slots: filled, every a-th of them deleted in four orders, refilled in three ways, cleared and filled again", top));
    ctx.par(sizes.len() as u64, 1, |i| {
        let n = sizes[i as usize];
        for a in [1, 2, 3, 7] {
            for off in 0..a {
                for order in 0..4usize {
                    for fill in 0..3usize {
                        ctx.transitions.fetch_add(1, SeqCst);
                        ctx.case(
                            || format!("large {} every {} from {} order {} fill {}", n, a, off, order, fill),
                            || {
                                ctx.traces.fetch_add(1, SeqCst);
                                large_one::<usize>(n, a, off, order, fill)?;
                                large_one::<u8>(n, a, off, order, fill)
                            },
                        );
                    }
                }
            }
        }
    });
}
fn large_one<I: IndexType>(n: usize, a: usize, off: usize, order: usize, fill: usize) -> Result<(), String> {
    let mut s = St::<I> { im: DeletableVector::new(), m: vec![], path: vec![], next: 0 };
    // without observing after every single step
    let quiet = |s: &mut St<I>, op: SOp| -> Result<(), String> {
        s.next += 1;
        let t = s.next;
        let el = El { id: None, tag: t };
        match op {
            SOp::Push => {
                let i = s.im.push(el).index();
                reserve(s, i)?;
                s.m[i] = Slot::Live(t);
            }
            SOp::AllocateSet => {
                let i = s.im.allocate();
                reserve(s, i.index())?;
                s.im.set(i, el);
                s.m[i.index()] = Slot::Live(t);
            }
            SOp::Delete(i) => {
                s.im.delete_internal(I::new(i));
                s.m[i] = Slot::Free;
            }
            _ => unreachable!(),
        }
        Ok(())
    };
    for k in 0..n {
        quiet(&mut s, if k % 2 == 0 { SOp::Push } else { SOp::AllocateSet })?;
    }
    observe(&mut s)?;
    let mut del: Vec<usize> = (off..n).step_by(a).collect();
    match order {
        1 => del.reverse(),
        2 => {
            let (x, y) = del.split_at(del.len() / 2);
            del = y.iter().chain(x.iter().rev()).copied().collect();
        }
        3 => del.sort_by_key(|i| (i * 7919 % 251, *i)),
        _ => {}
    }
    for d in &del {
        quiet(&mut s, SOp::Delete(*d))?;
    }
    observe(&mut s)?;
    let count = del.len();
    match fill {
        0 => {
            for _ in 0..count + 2 {
                quiet(&mut s, SOp::Push)?;
            }
        }
        1 => {
            // deletions in between
            for k in 0..count {
                quiet(&mut s, SOp::AllocateSet)?;
                if k % 3 == 1 {
                    let live: Vec<usize> = (0..s.m.len()).filter(|i| matches!(s.m[*i], Slot::Live(_))).collect();
                    quiet(&mut s, SOp::Delete(live[k * 13 % live.len()]))?;
                }
            }
        }
        _ => {
            // allocated together, set in another order
            let mut ids = vec![];
            for _ in 0..count + 1 {
                let i = s.im.allocate().index();
                reserve(&mut s, i)?;
                ids.push(i);
            }
            for (k, i) in ids.iter().rev().enumerate() {
                let t = 100000 + k as u32;
                s.im.set(I::new(*i), El { id: None, tag: t });
                s.m[*i] = Slot::Live(t);
            }
        }
    }
    observe(&mut s)?;
    s.im.clear();
    s.m.clear();
    observe(&mut s)?;
    for _ in 0..n {
        quiet(&mut s, SOp::Push)?;
    }
    observe(&mut s)
}
