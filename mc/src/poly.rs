//! Exact integer plane geometry, exhaustive enumeration of simple polygons, exact tiling oracle.
pub type P = (i64, i64);

pub fn cross(a: P, b: P, c: P) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
pub fn dot(a: P, b: P, c: P) -> i64 {
    (b.0 - a.0) * (c.0 - a.0) + (b.1 - a.1) * (c.1 - a.1)
}
pub fn on_segment(a: P, b: P, p: P) -> bool {
    cross(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}
pub fn proper_cross(a: P, b: P, c: P, d: P) -> bool {
    cross(a, b, c).signum() * cross(a, b, d).signum() < 0 && cross(c, d, a).signum() * cross(c, d, b).signum() < 0
}
/// closed segments share a point
pub fn touch(a: P, b: P, c: P, d: P) -> bool {
    proper_cross(a, b, c, d) || on_segment(a, b, c) || on_segment(a, b, d) || on_segment(c, d, a) || on_segment(c, d, b)
}
pub fn area2(p: &[P]) -> i64 {
    (0..p.len()).map(|i| p[i].0 * p[(i + 1) % p.len()].1 - p[i].1 * p[(i + 1) % p.len()].0).sum()
}
/// positive iff d lies strictly inside the circle through the counter-clockwise a, b, c
pub fn in_circle(a: P, b: P, c: P, d: P) -> i128 {
    let f = |p: P| {
        let (x, y) = ((p.0 - d.0) as i128, (p.1 - d.1) as i128);
        (x, y, x * x + y * y)
    };
    let (a, b, c) = (f(a), f(b), f(c));
    a.0 * (b.1 * c.2 - b.2 * c.1) - a.1 * (b.0 * c.2 - b.2 * c.0) + a.2 * (b.0 * c.1 - b.1 * c.0)
}
/// 1 inside, 0 on the boundary, -1 outside
pub fn locate(poly: &[P], p: P) -> i32 {
    let n = poly.len();
    let mut w = 0;
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        if on_segment(a, b, p) {
            return 0;
        }
        if a.1 <= p.1 && b.1 > p.1 && cross(a, b, p) > 0 {
            w += 1;
        }
        if a.1 > p.1 && b.1 <= p.1 && cross(a, b, p) < 0 {
            w -= 1;
        }
    }
    if w != 0 {
        1
    } else {
        -1
    }
}
pub fn is_simple(p: &[P]) -> bool {
    let n = p.len();
    for i in 0..n {
        for j in i + 1..n {
            let (a, b, c, d) = (p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]);
            if j == i + 1 {
                if cross(a, b, d) == 0 && dot(b, a, d) > 0 {
                    return false;
                }
            } else if (j + 1) % n == i {
                if cross(c, a, b) == 0 && dot(a, c, b) > 0 {
                    return false;
                }
            } else if touch(a, b, c, d) {
                return false;
            }
        }
    }
    true
}
pub fn has_straight(p: &[P]) -> bool {
    let n = p.len();
    (0..n).any(|i| cross(p[i], p[(i + 1) % n], p[(i + 2) % n]) == 0)
}
pub fn strictly_convex(p: &[P]) -> bool {
    let n = p.len();
    (0..n).all(|i| cross(p[i], p[(i + 1) % n], p[(i + 2) % n]) > 0) && {
        // one turn only
        (0..n).all(|i| (0..n).all(|j| cross(p[i], p[(i + 1) % n], p[j]) >= 0))
    }
}
/// exact: the open diagonal (i, j) lies in the interior of the polygon
pub fn is_diagonal(p: &[P], i: usize, j: usize) -> bool {
    let n = p.len();
    let (a, b) = (p[i], p[j]);
    for k in 0..n {
        if k != i && k != j && on_segment(a, b, p[k]) {
            return false;
        }
        let l = (k + 1) % n;
        if k != i && k != j && l != i && l != j && touch(a, b, p[k], p[l]) {
            return false;
        }
    }
    // in the cone at i
    let d: Vec<P> = p.iter().map(|q| (2 * q.0, 2 * q.1)).collect();
    locate(&d, (a.0 + b.0, a.1 + b.1)) == 1
}

/// All counter-clockwise simple polygons with 3..=nmax vertices among `pts` (each once, starting at its
/// smallest index); `straight` also yields those with 180 degree corners. Calls `f` with the index list.
pub fn polygons(pts: &[P], nmin: usize, nmax: usize, straight: bool, anchored: bool, out: &mut Vec<Vec<P>>) {
    let m = pts.len();
    let mut conf = vec![false; m * m * m * m];
    for a in 0..m {
        for b in 0..m {
            for c in 0..m {
                for d in 0..m {
                    conf[((a * m + b) * m + c) * m + d] = touch(pts[a], pts[b], pts[c], pts[d]);
                }
            }
        }
    }
    struct S<'a> {
        pts: &'a [P],
        m: usize,
        conf: Vec<bool>,
        nmin: usize,
        nmax: usize,
        straight: bool,
        anchored: bool,
        out: &'a mut Vec<Vec<P>>,
    }
    fn corner(s: &S, a: usize, b: usize, c: usize) -> bool {
        let (p, q, r) = (s.pts[a], s.pts[b], s.pts[c]);
        cross(p, q, r) != 0 || (s.straight && dot(q, p, r) < 0)
    }
    fn rec(s: &mut S, path: &mut Vec<usize>, used: u64) {
        let n = path.len();
        let l = path[n - 1];
        let clear = |s: &S, path: &[usize], q: usize, from: usize| (from..n.saturating_sub(2)).all(|i| !s.conf[((path[i] * s.m + path[i + 1]) * s.m + l) * s.m + q]);
        if n >= s.nmin.max(3)
            && clear(s, path, path[0], 1)
            && corner(s, path[n - 2], l, path[0])
            && corner(s, l, path[0], path[1])
        {
            let poly: Vec<P> = path.iter().map(|i| s.pts[*i]).collect();
            if area2(&poly) > 0
                && (!s.anchored
                    || (poly.iter().any(|p| p.0 == 0) && poly.iter().any(|p| p.1 == 0)))
            {
                s.out.push(poly);
            }
        }
        if n == s.nmax {
            return;
        }
        for q in path[0] + 1..s.m {
            if used >> q & 1 == 1 || (n >= 2 && !corner(s, path[n - 2], l, q)) || !clear(s, path, q, 0) {
                continue;
            }
            path.push(q);
            rec(s, path, used | 1 << q);
            path.pop();
        }
    }
    let mut s = S { pts, m, conf, nmin, nmax, straight, anchored, out };
    for i in 0..m {
        rec(&mut s, &mut vec![i], 1 << i);
    }
}
pub fn grid(w: i64, h: i64) -> Vec<P> {
    (0..w).flat_map(|x| (0..h).map(move |y| (x, y))).collect()
}
/// m points without three on a line and with distinct coordinates (deterministic)
pub fn general(m: usize, seed: i64) -> Vec<P> {
    let mut r: Vec<P> = vec![];
    let mut x = 12345 + seed * 7919;
    while r.len() < m {
        x = (x * 1103515245 + 12345) & 0x7fffffff;
        let p = ((x >> 8) % 97, (x >> 16) % 89);
        if r.iter().any(|q| q.0 == p.0 || q.1 == p.1) {
            continue;
        }
        if (0..r.len()).any(|i| (0..i).any(|j| cross(r[i], r[j], p) == 0)) {
            continue;
        }
        r.push(p);
    }
    r
}
/// monotone strips: x = 0..k, lower heights in -lo.., upper heights above; all of them
pub fn strips(k: usize, h: i64, out: &mut Vec<Vec<P>>) {
    // columns 1..k-1 have an upper and a lower vertex, both ends are single points
    let m = k - 1;
    let total = (h as u64).pow(2 * m as u32);
    for mut c in 0..total {
        let mut lo = vec![(0, 0)];
        let mut hi = vec![];
        for x in 1..=m as i64 {
            lo.push((x, -1 - (c % h as u64) as i64));
            c /= h as u64;
            hi.push((x, 1 + (c % h as u64) as i64));
            c /= h as u64;
        }
        lo.push((k as i64, 0));
        hi.reverse();
        lo.extend(hi);
        out.push(lo);
    }
}
/// combs: a bar with teeth of all heights up and down, slanted tips; t teeth on both sides
pub fn combs(t: usize, h: i64, out: &mut Vec<Vec<P>>) {
    let total = (h as u64).pow(2 * t as u32);
    for mut c in 0..total {
        let mut p = vec![];
        for i in 0..t as i64 {
            let a = (c % h as u64) as i64;
            c /= h as u64;
            p.push((4 * i, 0));
            p.push((4 * i + 1, -1 - 2 * a));
            p.push((4 * i + 2, -2 * a));
            p.push((4 * i + 3, 0));
        }
        for i in (0..t as i64).rev() {
            let a = (c % h as u64) as i64;
            c /= h as u64;
            p.push((4 * i + 3, 1));
            p.push((4 * i + 2, 3 + 2 * a));
            p.push((4 * i + 1, 4 + 2 * a));
            p.push((4 * i, 1));
        }
        if is_simple(&p) && area2(&p) > 0 {
            out.push(p);
        }
    }
}
/// Decides exactly whether the triangles tile the polygon (given counter-clockwise as ids and points);
/// `flat`: triangles without area may occur.
pub fn tiles(ids: &[usize], pts: &[P], tris: &[[usize; 3]], flat: bool) -> Result<(), String> {
    let n = ids.len();
    if tris.len() != n - 2 {
        return Err(format!("{} triangles instead of {}: {:?}", tris.len(), n - 2, tris));
    }
    let mut chain: Vec<(usize, usize)> = Vec::with_capacity(3 * n);
    for t in tris {
        let mut k = [0usize; 3];
        for i in 0..3 {
            k[i] = ids.iter().position(|x| *x == t[i]).ok_or_else(|| format!("triangle {:?} uses {} which is no vertex of the polygon {:?}", t, t[i], ids))?;
        }
        let a = cross(pts[k[0]], pts[k[1]], pts[k[2]]);
        if a < 0 || (a == 0 && !flat) {
            return Err(format!("triangle {:?} has {} area; all: {:?}", t, if a == 0 { "zero" } else { "negative" }, tris));
        }
        for i in 0..3 {
            let e = (k[i], k[(i + 1) % 3]);
            if let Some(p) = chain.iter().position(|x| *x == (e.1, e.0)) {
                chain.swap_remove(p);
            } else {
                chain.push(e);
            }
        }
    }
    chain.sort();
    let mut want: Vec<(usize, usize)> = (0..n).map(|i| (i, (i + 1) % n)).collect();
    want.sort();
    if chain != want {
        return Err(format!("the triangles do not cover the polygon exactly: {:?}", tris));
    }
    Ok(())
}
/// minimum total diagonal length over all triangulations, by exhaustive dynamic programming over exactly valid diagonals
pub fn min_weight(p: &[P]) -> f64 {
    let n = p.len();
    let mut diag = vec![false; n * n];
    for i in 0..n {
        for j in 0..n {
            if i != j {
                diag[i * n + j] = (i + 1) % n == j || (j + 1) % n == i || is_diagonal(p, i, j);
            }
        }
    }
    let len = |i: usize, j: usize| {
        if (i + 1) % n == j || (j + 1) % n == i {
            0.0
        } else {
            (((p[i].0 - p[j].0).pow(2) + (p[i].1 - p[j].1).pow(2)) as f64).sqrt()
        }
    };
    let mut m = vec![f64::INFINITY; n * n];
    for i in 0..n - 1 {
        m[i * n + i + 1] = 0.0;
    }
    for l in 2..n {
        for i in 0..n - l {
            let j = i + l;
            if !diag[i * n + j] {
                continue;
            }
            let mut best = f64::INFINITY;
            for k in i + 1..j {
                if cross(p[i], p[k], p[j]) > 0 {
                    let c = m[i * n + k] + m[k * n + j];
                    if c < best {
                        best = c;
                    }
                }
            }
            m[i * n + j] = best + len(i, j);
        }
    }
    m[n - 1]
}
pub fn diagonals_weight(ids: &[usize], p: &[P], tris: &[[usize; 3]]) -> f64 {
    let n = ids.len();
    let mut w = 0.0;
    for t in tris {
        for i in 0..3 {
            let a = ids.iter().position(|x| *x == t[i]).unwrap();
            let b = ids.iter().position(|x| *x == t[(i + 1) % 3]).unwrap();
            if a < b && b != a + 1 && !(a == 0 && b == n - 1) {
                w += (((p[a].0 - p[b].0).pow(2) + (p[a].1 - p[b].1).pow(2)) as f64).sqrt();
            }
        }
    }
    w
}
/// every interior edge whose quadrilateral is strictly convex is locally Delaunay
pub fn locally_delaunay(ids: &[usize], p: &[P], tris: &[[usize; 3]]) -> Result<(), String> {
    let at = |id: usize| p[ids.iter().position(|x| *x == id).unwrap()];
    for (x, s) in tris.iter().enumerate() {
        for t in &tris[x + 1..] {
            for i in 0..3 {
                for j in 0..3 {
                    if s[i] == t[(j + 1) % 3] && s[(i + 1) % 3] == t[j] {
                        let (a, b, c, d) = (at(s[i]), at(s[(i + 1) % 3]), at(s[(i + 2) % 3]), at(t[(j + 2) % 3]));
                        if in_circle(a, b, c, d) > 0 {
                            return Err(format!("{:?} and {:?} violate the empty-circle criterion", s, t));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// affine images with integer matrices of positive determinant: quarter turns, an eighth turn, and shears
pub const TURNS: [[i64; 4]; 6] = [[1, 0, 0, 1], [0, -1, 1, 0], [-1, 0, 0, -1], [0, 1, -1, 0], [1, -1, 1, 1], [7, 1, -3, 11]];
pub fn map(p: &[P], m: &[i64; 4]) -> Vec<P> {
    p.iter().map(|q| (m[0] * q.0 + m[1] * q.1, m[2] * q.0 + m[3] * q.1)).collect()
}
/// large polygons of regular construction with about k corners per chain; each is counter-clockwise and simple
pub fn large(k: i64, straight: bool, nmax: usize) -> Vec<(&'static str, Vec<P>)> {
    let mut r: Vec<(&'static str, Vec<P>)> = vec![];
    // convex: one parabola, two parabolas
    r.push(("parabola", (0..=k).map(|x| (x, x * x)).collect()));
    let mut c: Vec<P> = (-k..=k).map(|x| (x, x * x)).collect();
    c.extend((-k..=k).rev().map(|x| (x, 2 * k * k + 1 - x * x)));
    r.push(("lens", c.clone()));
    // one reflex chain below a single apex
    let mut d: Vec<P> = vec![(0, 3 * k * k + 5)];
    d.extend((-k..=k).map(|x| (3 * x, -x * x)));
    r.push(("arch", { let mut e: Vec<P> = (-k..=k).map(|x| (2 * x, k * k - x * x)).collect(); e.push((0, 3 * k * k + 7)); e }));
    let _ = d;
    // sawtooth above a single lower edge, below a single upper edge, on both sides with two phases
    for (name, up, down, ph) in [("teeth up", true, false, 0), ("teeth down", false, true, 0), ("teeth both sides", true, true, 0), ("teeth shifted", true, true, 1)] {
        let mut q = vec![];
        let lo = |x: i64| if down && (x + ph) % 2 == 1 { -5 } else { -1 };
        let hi = |x: i64| if up && x % 2 == 1 { 8 } else { 1 };
        if down {
            (0..=2 * k).for_each(|x| q.push((2 * x, lo(x))));
        } else {
            q.extend([(0, -1), (4 * k, -1)]);
        }
        if up {
            (0..=2 * k).rev().for_each(|x| q.push((2 * x, hi(x))));
        } else {
            q.extend([(4 * k, 1), (0, 1)]);
        }
        r.push((name, q));
    }
    // corridor in the shape of a zigzag
    let mut z: Vec<P> = (0..=k).map(|x| (4 * x, if x % 2 == 0 { 0 } else { 17 + x })).collect();
    z.extend((0..=k).rev().map(|x| (4 * x, 3 + if x % 2 == 0 { 0 } else { 17 + x })));
    r.push(("zigzag", z));
    // star: every second corner of the lens moved towards its centre
    if k >= 2 {
        let m = k * k;
        let n = c.len();
        let q: Vec<P> = (0..n).map(|i| if i % 2 == 0 { (4 * c[i].0, 4 * (c[i].1 - m)) } else { (c[i].0, c[i].1 - m) }).collect();
        r.push(("star", q));
    }
    // stairs, rising and back down along a line
    let mut t: Vec<P> = vec![];
    for i in 0..k {
        t.push((2 * i, 3 * i));
        t.push((2 * i + 2, 3 * i));
    }
    t.push((2 * k, 3 * k));
    t.push((-1, 3 * k));
    t.push((-1, 0));
    if !straight {
        t = t.into_iter().filter(|p| *p != (0, 0)).collect();
    }
    r.push(("stairs", t));
    if straight {
        let mut b: Vec<P> = (0..k).map(|x| (x, 0)).collect();
        b.extend((0..k).map(|y| (k, y)));
        b.extend((0..k).map(|x| (k - x, k)));
        b.extend((0..k).map(|y| (0, k - y)));
        r.push(("square with points on its sides", b));
        // a lattice comb with level teeth
        let mut q = vec![];
        for i in 0..k {
            q.extend([(2 * i, 0), (2 * i + 1, 0)]);
            if i + 1 < k {
                q.extend([(2 * i + 1, 5), (2 * i + 2, 5)]);
            }
        }
        q.extend([(2 * k - 1, 6), (0, 6)]);
        r.push(("level comb", q));
    }
    r.retain(|p| p.1.len() <= nmax && is_simple(&p.1) && area2(&p.1) > 0 && (straight || !has_straight(&p.1)));
    r
}
