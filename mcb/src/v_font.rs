//! F01: laying out text yields a face for every contour of every glyph.
use crate::engine::*;
use crate::poly::*;
use crate::v_svg::*;
use procedural_modelling::{extensions::bevy::*, extensions::nalgebra::*, halfedge::*, math::*, mesh::*, prelude::*};
use std::sync::atomic::Ordering::SeqCst;

/// a font file made of simple tables
#[derive(Clone, Debug)]
struct Face {
    upem: u16,
    ascent: i16,
    descent: i16,
    gap: i16,
    glyphs: Vec<G>,
    kerns: Vec<(u16, u16, i16)>,
}
#[derive(Clone, Debug, Default)]
struct G {
    c: Option<char>,
    advance: u16,
    shape: Vec<Contour>,
}
#[derive(Clone, Debug)]
enum Contour {
    /// points and whether they are on the curve
    Quad(Vec<(i16, i16, bool)>),
    /// points of a closed outline with the control points towards the next, and whether the last piece is written although it is straight
    Cubic(Vec<Vec<(i16, i16)>>, bool),
}
trait Be {
    fn p(&mut self, v: i64, n: usize);
}
impl Be for Vec<u8> {
    fn p(&mut self, v: i64, n: usize) {
        self.extend_from_slice(&v.to_be_bytes()[8 - n..]);
    }
}
fn index(items: &[Vec<u8>]) -> Vec<u8> {
    let mut r = vec![];
    r.p(items.len() as i64, 2);
    if !items.is_empty() {
        r.push(4);
        let mut o = 1;
        r.p(o, 4);
        for i in items {
            o += i.len() as i64;
            r.p(o, 4);
        }
        for i in items {
            r.extend(i);
        }
    }
    r
}
impl Face {
    fn cubic(&self) -> bool {
        self.glyphs.iter().any(|g| g.shape.iter().any(|c| matches!(c, Contour::Cubic(..))))
    }
    fn bytes(&self) -> Vec<u8> {
        let n = self.glyphs.len() as i64;
        let cubic = self.cubic();
        let mut head = vec![];
        for (v, k) in [(0x10000, 4), (0, 4), (0, 4), (0x5F0F3CF5, 4), (0, 2), (self.upem as i64, 2), (0, 8), (0, 8), (0, 2), (0, 2), (1000, 2), (1000, 2), (0, 2), (8, 2), (2, 2), (1, 2), (0, 2)] {
            head.p(v, k);
        }
        let mut hhea = vec![];
        for (v, k) in [(0x10000, 4), (self.ascent as i64, 2), (self.descent as i64, 2), (self.gap as i64, 2), (9999, 2), (0, 2), (0, 2), (0, 2), (1, 2), (0, 2), (0, 2), (0, 8), (0, 2), (n, 2)] {
            hhea.p(v, k);
        }
        let mut maxp = vec![];
        if cubic {
            maxp.p(0x5000, 4);
            maxp.p(n, 2);
        } else {
            maxp.p(0x10000, 4);
            maxp.p(n, 2);
            for v in [64, 8, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0] {
                maxp.p(v, 2);
            }
        }
        let mut hmtx = vec![];
        for g in &self.glyphs {
            hmtx.p(g.advance as i64, 2);
            hmtx.p(0, 2);
        }
        let mut groups: Vec<(u32, usize)> = self.glyphs.iter().enumerate().filter_map(|(i, g)| g.c.map(|c| (c as u32, i))).collect();
        groups.sort();
        let mut cmap = vec![];
        for (v, k) in [(0, 2), (1, 2), (3, 2), (10, 2), (12, 4), (12, 2), (0, 2), (16 + 12 * groups.len() as i64, 4), (0, 4), (groups.len() as i64, 4)] {
            cmap.p(v, k);
        }
        for (c, i) in &groups {
            cmap.p(*c as i64, 4);
            cmap.p(*c as i64, 4);
            cmap.p(*i as i64, 4);
        }
        let mut tables: Vec<(&[u8; 4], Vec<u8>)> = vec![(b"cmap", cmap), (b"head", head), (b"hhea", hhea), (b"hmtx", hmtx), (b"maxp", maxp)];
        if cubic {
            let num = |v: &mut Vec<u8>, x: i16| {
                v.push(28);
                v.p(x as i64, 2);
            };
            let strings: Vec<Vec<u8>> = self
                .glyphs
                .iter()
                .map(|g| {
                    let mut s = vec![];
                    let mut at = (0i16, 0i16);
                    let mut go = |s: &mut Vec<u8>, p: (i16, i16)| {
                        num(s, p.0 - at.0);
                        num(s, p.1 - at.1);
                        at = p;
                    };
                    for c in &g.shape {
                        let Contour::Cubic(c, full) = c else { unreachable!() };
                        go(&mut s, c[0][0]);
                        s.push(21);
                        for i in 0..c.len() {
                            let to = c[(i + 1) % c.len()][0];
                            if c[i].len() == 1 {
                                if i + 1 == c.len() && !full {
                                    continue;
                                }
                                go(&mut s, to);
                                s.push(5);
                            } else {
                                go(&mut s, c[i][1]);
                                go(&mut s, c[i][2]);
                                go(&mut s, to);
                                s.push(8);
                            }
                        }
                    }
                    s.push(14);
                    s
                })
                .collect();
            let mut cff = vec![1, 0, 4, 4];
            cff.extend(index(&[b"F".to_vec()]));
            // header 4, name index 2+1+8+1, top dict index 2+1+8+6, strings 2, subroutines 2
            let off = cff.len() as i64 + 17 + 4;
            let mut top = vec![29];
            top.p(off, 4);
            top.push(17);
            cff.extend(index(&[top]));
            cff.extend([0, 0, 0, 0]);
            assert!(cff.len() as i64 == off);
            cff.extend(index(&strings));
            tables.insert(0, (b"CFF ", cff));
        } else {
            let (mut glyf, mut loca): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
            for g in &self.glyphs {
                loca.p(glyf.len() as i64, 4);
                if g.shape.is_empty() {
                    continue;
                }
                let cs: Vec<&Vec<(i16, i16, bool)>> = g.shape.iter().map(|c| if let Contour::Quad(c) = c { c } else { unreachable!() }).collect();
                let all: Vec<(i16, i16, bool)> = cs.iter().flat_map(|c| c.iter().copied()).collect();
                glyf.p(cs.len() as i64, 2);
                glyf.p(all.iter().map(|p| p.0).min().unwrap() as i64, 2);
                glyf.p(all.iter().map(|p| p.1).min().unwrap() as i64, 2);
                glyf.p(all.iter().map(|p| p.0).max().unwrap() as i64, 2);
                glyf.p(all.iter().map(|p| p.1).max().unwrap() as i64, 2);
                let mut end = -1;
                for c in &cs {
                    end += c.len() as i64;
                    glyf.p(end, 2);
                }
                glyf.p(0, 2);
                for p in &all {
                    glyf.push(p.2 as u8);
                }
                let mut last = 0;
                for p in &all {
                    glyf.p((p.0 - last) as i64, 2);
                    last = p.0;
                }
                last = 0;
                for p in &all {
                    glyf.p((p.1 - last) as i64, 2);
                    last = p.1;
                }
                while glyf.len() % 4 != 0 {
                    glyf.push(0);
                }
            }
            loca.p(glyf.len() as i64, 4);
            glyf.extend([0; 4]);
            tables.push((b"glyf", glyf));
            tables.push((b"loca", loca));
        }
        if !self.kerns.is_empty() {
            let mut k = vec![];
            let mut pairs = self.kerns.clone();
            pairs.sort();
            let np = pairs.len() as i64;
            for (v, s) in [(0, 2), (1, 2), (0, 2), (14 + 6 * np, 2), (1, 2), (np, 2), (0, 2), (0, 2), (0, 2)] {
                k.p(v, s);
            }
            for (a, b, v) in pairs {
                k.p(a as i64, 2);
                k.p(b as i64, 2);
                k.p(v as i64, 2);
            }
            tables.push((b"kern", k));
        }
        tables.sort_by_key(|t| *t.0);
        let mut r = vec![];
        r.p(if cubic { 0x4F54544F } else { 0x10000 }, 4);
        r.p(tables.len() as i64, 2);
        r.p(0, 6);
        let mut off = 12 + 16 * tables.len() as i64;
        for (t, d) in &tables {
            r.extend(*t);
            r.p(0, 4);
            r.p(off, 4);
            r.p(d.len() as i64, 4);
            off += (d.len() as i64 + 3) / 4 * 4;
        }
        for (_, d) in &tables {
            r.extend(d);
            while r.len() % 4 != 0 {
                r.push(0);
            }
        }
        r
    }
    fn glyph(&self, c: char) -> usize {
        self.glyphs.iter().position(|g| g.c == Some(c)).unwrap_or(0)
    }
    /// the outlines of a text, in the order of the text and the glyphs, and where the pen is afterwards
    fn expected(&self, text: &str, scale: f64) -> Vec<Outline> {
        let k = scale * (96.0 / 72.0) / self.upem as f64;
        let (mut x, mut last) = (0.0, None);
        let mut r = vec![];
        for c in text.chars() {
            let g = self.glyph(c);
            if let Some(l) = last {
                x += self.kerns.iter().find(|p| (p.0 as usize, p.1 as usize) == (l, g)).map(|p| p.2 as f64).unwrap_or(0.0);
            }
            for c in &self.glyphs[g].shape {
                r.push(pieces(c).into_iter().map(|p| p.into_iter().map(|q| ((q.0 + x) * k, q.1 * k)).collect()).collect());
            }
            x += self.glyphs[g].advance as f64;
            last = Some(g);
        }
        r
    }
}
/// the pieces of a contour
fn pieces(c: &Contour) -> Outline {
    match c {
        Contour::Cubic(c, _) => c.iter().map(|p| p.iter().map(|q| (q.0 as f64, q.1 as f64)).collect()).collect(),
        Contour::Quad(c) => {
            // corners in the middle between control points
            let n = c.len();
            let mut full: Vec<(Q, bool)> = vec![];
            for i in 0..n {
                let (a, b) = (c[i], c[(i + 1) % n]);
                full.push(((a.0 as f64, a.1 as f64), a.2));
                if !a.2 && !b.2 {
                    full.push((((a.0 as f64 + b.0 as f64) / 2.0, (a.1 as f64 + b.1 as f64) / 2.0), true));
                }
            }
            let s = full.iter().position(|p| p.1).unwrap();
            full.rotate_left(s);
            let mut r: Outline = vec![];
            for (q, on) in full {
                if on {
                    r.push(vec![q]);
                } else {
                    r.last_mut().unwrap().push(q);
                }
            }
            r
        }
    }
}
/// at least three pieces and no corner twice
fn plain(c: &Contour) -> bool {
    let p = pieces(c);
    p.len() >= 3 && (0..p.len()).all(|i| (0..i).all(|j| p[i][0] != p[j][0]))
}

fn judge<T: Planar>(bytes: &[u8], face: &Face, text: &str, scale: f32, eps: f64) -> Result<(), String>
where
    T::Edge: CurvedEdge<2, T>,
    T::EP: DefaultEdgePayload,
    T::FP: DefaultFacePayload,
    T::VP: HasPosition<2, <T as EuclideanMeshType<2>>::Vec, S = <T as EuclideanMeshType<2>>::S>,
{
    let want = face.expected(text, scale as f64);
    let size = want.iter().flatten().flatten().fold(scale as f64, |m, q| m.max(q.0.abs()).max(q.1.abs()));
    // the pen moves on in single precision
    let n = text.chars().count();
    let eps = eps * (1.0 + n as f64 / 10.0);
    for old in [false, true] {
        let mut m = HalfEdgeMeshImpl::<T>::default();
        let mut want = want.clone();
        if old {
            Make2dShape::<T>::insert_polygon(&mut m, [(-50.0, 50.0), (-49.0, 50.0), (-50.0, 51.0)].map(T::at));
            want.insert(0, outlines::<T>(&m)?.remove(0));
        }
        let mut font = Font::new(bytes, if old { 7.5 } else { scale });
        if old {
            font.set_scale(scale);
        }
        for c in text.chars() {
            let adv = face.glyphs[face.glyph(c)].advance as f64 * scale as f64 * (96.0 / 72.0) / face.upem as f64;
            let got = font.get_advance(c) as f64;
            if (got - adv).abs() > 1e-5 * adv.abs().max(scale as f64) {
                return Err(format!("the advance of {:?} is {} instead of {}", c, got, adv));
            }
        }
        font.layout_text::<2, T>(text, &mut m);
        m.check()?;
        compare::<T>(&m, &want, eps * size, false)?;
    }
    Ok(())
}
fn both(ctx: &Ctx, name: &str, face: &Face, text: &str, scale: f32) {
    let bytes = face.bytes();
    ctx.states.fetch_add(1, SeqCst);
    ctx.transitions.fetch_add(2, SeqCst);
    ctx.traces.fetch_add(2, SeqCst);
    ctx.sample(|| format!("{} text {:?} scale {}", name, text, scale));
    ctx.case(|| format!("f64 {} text {:?} scale {}", name, text, scale), || judge::<MeshType2d64PNUCurved>(&bytes, face, text, scale, 2e-6));
    ctx.case(|| format!("f32 {} text {:?} scale {}", name, text, scale), || judge::<BevyMeshType2d32>(&bytes, face, text, scale, 2e-5));
}
fn quad(p: &[P], mask: u32) -> Contour {
    Contour::Quad(p.iter().enumerate().map(|(i, q)| ((q.0 * 100) as i16, (q.1 * 100) as i16, mask >> (i % 32) & 1 == 1)).collect())
}
/// with a point off the curve after each chosen point
fn bulged(p: &[P], mask: u32) -> Contour {
    let mut r = vec![];
    for (i, q) in p.iter().enumerate() {
        let n = p[(i + 1) % p.len()];
        r.push(((q.0 * 100) as i16, (q.1 * 100) as i16, true));
        if mask >> (i % 32) & 1 == 1 {
            r.push((((q.0 + n.0) * 50 + 11) as i16, ((q.1 + n.1) * 50 - 23) as i16, false));
        }
    }
    Contour::Quad(r)
}
fn cubic(p: &[P], mask: u32, full: bool) -> Contour {
    let n = p.len();
    Contour::Cubic(
        (0..n)
            .map(|i| {
                let (a, b) = (p[i], p[(i + 1) % n]);
                let at = |q: P, d: (i64, i64)| ((q.0 * 100 + d.0) as i16, (q.1 * 100 + d.1) as i16);
                let mut r = vec![at(a, (0, 0))];
                if mask >> (i % 32) & 1 == 1 {
                    r.push(at(a, (13, -27)));
                    r.push(at(b, (35, 8)));
                }
                r
            })
            .collect(),
        full,
    )
}
/// neighbouring points only one unit apart, everywhere or only near the origin
fn fine(c: &Contour, far: bool) -> Contour {
    let f = |v: i16| if far && v > 100 { v * 3 } else { v.div_euclid(100) };
    match c {
        Contour::Quad(c) => Contour::Quad(c.iter().map(|q| (f(q.0), f(q.1), q.2)).collect()),
        Contour::Cubic(c, full) => Contour::Cubic(c.iter().map(|p| p.iter().map(|q| (f(q.0), f(q.1))).collect()).collect(), *full),
    }
}
fn font_of(shape: Vec<Contour>) -> Face {
    let cub = matches!(shape.first(), Some(Contour::Cubic(..)));
    let tri = [(0, 0), (3, 0), (0, 5)];
    Face {
        upem: 1000,
        ascent: 800,
        descent: -350,
        gap: 90,
        glyphs: vec![G { c: None, advance: 321, shape: vec![if cub { cubic(&tri, 0, true) } else { quad(&tri, 7) }] }, G { c: Some('a'), advance: 650, shape }],
        kerns: vec![],
    }
}

pub fn f01(ctx: &Ctx) {
    // single contours
    let nmax = ctx.b(6, 7);
    let mut polys: Vec<Vec<P>> = vec![];
    polygons(&grid(3, 3), 3, nmax, true, true, &mut polys);
    ctx.bound("single contours", format!("{} outlines of up to {} points, both directions, every choice of curved pieces or of points off the curve, quadratic and cubic fonts, last straight piece written or implied", polys.len(), nmax));
    ctx.par(polys.len() as u64, 1, |i| {
        for rev in [false, true] {
            let mut p = polys[i as usize].clone();
            if rev {
                p.reverse();
            }
            for mask in 0..1u32 << p.len() {
                let c = quad(&p, mask);
                for far in [false, true] {
                    for (what, c) in [("quadratic", quad(&p, mask)), ("bulged", bulged(&p, mask)), ("cubic", cubic(&p, mask, true))] {
                        let c = fine(&c, far);
                        if plain(&c) {
                            both(ctx, &format!("fine {} {} {:?} on {:b}", far, what, p, mask), &font_of(vec![c]), "a", 12.0);
                        }
                    }
                }
                if plain(&c) {
                    both(ctx, &format!("quadratic {:?} on {:b}", p, mask), &font_of(vec![c]), "a", 12.0);
                }
                both(ctx, &format!("bulged {:?} at {:b}", p, mask), &font_of(vec![bulged(&p, mask)]), "a", 12.0);
                for full in [false, true] {
                    if full || mask >> (p.len() - 1) & 1 == 0 {
                        both(ctx, &format!("cubic {:?} curved {:b} {}", p, mask, full), &font_of(vec![cubic(&p, mask, full)]), "a", 12.0);
                    }
                }
            }
        }
    });
    // several contours, one within or next to the other
    let small: Vec<Vec<P>> = vec![vec![(0, 0), (2, 0), (0, 2)], vec![(0, 0), (0, 1), (1, 1), (1, 0)], vec![(0, 0), (2, 0), (1, 1), (2, 2), (0, 2)]];
    let offs: Vec<(i64, i64)> = vec![(0, 0), (5, 1), (-7, 3), (40, -20)];
    ctx.bound("several contours", format!("all sequences of up to {} of {} outlines at {} places", ctx.b(2, 3), small.len(), offs.len()));
    let base: Vec<Vec<P>> = small.iter().flat_map(|s| offs.iter().map(move |o| s.iter().map(|p| (p.0 + o.0, p.1 + o.1)).collect())).collect();
    let nb = base.len() as u64;
    ctx.par(nb * nb * if ctx.thorough { nb } else { 1 }, 1, |i| {
        let mut ids = vec![i % nb, i / nb % nb];
        if ctx.thorough {
            ids.push(i / nb / nb);
        }
        for mask in [0u32, 0b10101, 0b11111, 0b01110] {
            let shapes: Vec<Contour> = ids.iter().map(|k| quad(&base[*k as usize], mask)).collect();
            if shapes.iter().all(plain) {
                both(ctx, &format!("quadratic contours {:?} on {:b}", ids, mask), &font_of(shapes), "a", 1.0);
            }
            let shapes: Vec<Contour> = ids.iter().map(|k| cubic(&base[*k as usize], mask, false)).collect();
            both(ctx, &format!("cubic contours {:?} curved {:b}", ids, mask), &font_of(shapes), "a", 1.0);
        }
    });
    // long contours and many of them
    let sizes = [33usize, 64, 100, 260];
    let masks = [0u32, !0, 0x5555_5555, 0x3333_3333, 0x8000_0001, 0x7fff_ffff, 0x0f0f_0f0f, 0x1249_2492];
    ctx.bound("long contours", format!("{:?} points, {} patterns of curved pieces or of points off the curve, quadratic and cubic fonts; up to 80 contours", sizes, masks.len()));
    ctx.par((sizes.len() * masks.len()) as u64, 1, |i| {
        let (n, mask) = (sizes[i as usize % sizes.len()] as i64, masks[i as usize / sizes.len()]);
        for rev in [false, true] {
            let h = n / 2;
            let mut p: Vec<P> = (0..n).map(|j| if j < h { (j, j * j / 128) } else { (n - 1 - j, 300 - j * j % 7) }).collect();
            if rev {
                p.reverse();
            }
            let c = quad(&p, mask);
            if plain(&c) {
                both(ctx, &format!("quadratic {} {} on {:b}", n, rev, mask), &font_of(vec![c]), "a", 12.0);
            }
            both(ctx, &format!("bulged {} {} at {:b}", n, rev, mask), &font_of(vec![bulged(&p, mask)]), "a", 12.0);
            for full in [false, true] {
                if full || mask >> ((n - 1) % 32) & 1 == 0 {
                    both(ctx, &format!("cubic {} {} curved {:b} {}", n, rev, mask, full), &font_of(vec![cubic(&p, mask, full)]), "a", 12.0);
                }
            }
        }
        // contours in a row
        let k = [8, 20, 40, 80][i as usize % 4];
        let at = |j: i64, s: &Vec<P>| -> Vec<P> { s.iter().map(|p| (p.0 + 4 * (j % 9), p.1 + 3 * (j / 9))).collect() };
        let shapes: Vec<Contour> = (0..k).map(|j| quad(&at(j, &small[j as usize % small.len()]), mask)).collect();
        if shapes.iter().all(plain) {
            both(ctx, &format!("{} quadratic contours on {:b}", k, mask), &font_of(shapes), "aa", 1.0);
        }
        let shapes: Vec<Contour> = (0..k).map(|j| cubic(&at(j, &small[j as usize % small.len()]), mask, false)).collect();
        both(ctx, &format!("{} cubic contours curved {:b}", k, mask), &font_of(shapes), "aa", 1.0);
    });
    // texts
    let chars = ['a', 'b', ' ', 'ä', '?', '\u{1F600}'];
    let tri = [(0, 0), (4, 0), (0, 3)];
    let ring = [(0, 0), (3, 0), (3, 3), (0, 3)];
    let hole: Vec<P> = vec![(1, 1), (1, 2), (2, 2), (2, 1)];
    let mut fonts = vec![];
    for cub in [false, true] {
        let mk = |p: &[P], mask: u32| if cub { cubic(p, mask, false) } else { bulged(p, mask) };
        for (upem, ascent, descent, gap) in [(1000, 725, -275, 250), (2048, 1900, -500, 0), (256, 300, -90, 17)] {
            for kern in 0..3 {
                fonts.push((
                    format!("{} font with {} units, kerning {}", if cub { "cubic" } else { "quadratic" }, upem, kern),
                    Face {
                        upem,
                        ascent,
                        descent,
                        gap,
                        glyphs: vec![
                            G { c: None, advance: 400, shape: vec![mk(&ring, 0)] },
                            G { c: Some('a'), advance: 500, shape: vec![mk(&tri, 0b010)] },
                            G { c: Some('b'), advance: 777, shape: vec![mk(&ring, 0b1010), mk(&hole, 0)] },
                            G { c: Some(' '), advance: 250, shape: vec![] },
                            G { c: Some('ä'), advance: 1500, shape: vec![mk(&tri, 0b100), mk(&hole.iter().map(|p| (p.0 + 9, p.1)).collect::<Vec<_>>(), 0b1111), mk(&tri.map(|p| (p.0 - 9, p.1)), 0)] },
                            G { c: Some('\u{1F600}'), advance: 0, shape: vec![mk(&tri, 0b111)] },
                        ],
                        kerns: match kern {
                            0 => vec![],
                            1 => vec![(1, 2, -120), (2, 1, 35), (1, 1, -7), (3, 4, 50), (1, 3, 900)],
                            _ => (0..6).flat_map(|a| (0..6).map(move |b| (a, b, (a as i16 * 13 - b as i16 * 29) * 3))).collect(),
                        },
                    },
                ));
            }
        }
    }
    let len = ctx.b(4, 6);
    let mut texts: Vec<String> = vec![String::new()];
    let mut last = texts.clone();
    for _ in 0..len {
        last = last.iter().flat_map(|t| chars.iter().map(move |c| format!("{}{}", t, c))).collect();
        texts.extend(last.clone());
    }
    texts.push("ab a b?ä".repeat(6));
    texts.push("b".repeat(100));
    for a in chars {
        for b in chars {
            texts.push(format!("{}{}", a, b).repeat(20));
            texts.push(format!("{}{}", a, b).repeat(150));
        }
    }
    let scales = [1.0f32, 0.03125, 12.0, 1000.0];
    ctx.bound("texts", format!("all of up to {} of {} characters and all pairs repeated 20 and 150 times (one without outline, one without glyph), {} fonts, scales {:?}", len, chars.len(), fonts.len(), scales));
    ctx.par((texts.len() * fonts.len()) as u64, 4, |i| {
        let (name, face) = &fonts[i as usize % fonts.len()];
        let t = &texts[i as usize / fonts.len()];
        for s in scales.iter().skip(if t.chars().count() == 3 { i as usize % 4 } else { 0 }).take(if t.chars().count() >= 3 { 1 } else { 4 }) {
            both(ctx, name, face, t, *s);
        }
    });
}
