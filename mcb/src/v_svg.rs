//! V01: importing an SVG drawing yields a face for every visible closed outline.
use crate::engine::*;
use crate::poly::*;
use procedural_modelling::{extensions::bevy::*, extensions::nalgebra::*, extensions::svg::BackendSVG, halfedge::*, math::*, mesh::*, prelude::*};
use std::sync::atomic::Ordering::SeqCst;

pub type Q = (f64, f64);
/// one piece of an outline: its start and the control points towards the next piece
pub type Piece = Vec<Q>;
pub type Outline = Vec<Piece>;

fn fmt(q: Q) -> String {
    format!("{} {}", q.0, q.1)
}
fn sub(a: Q, b: Q) -> Q {
    (a.0 - b.0, a.1 - b.1)
}
fn mirror(c: Q, p: Q) -> Q {
    (2.0 * p.0 - c.0, 2.0 * p.1 - c.1)
}
fn f(p: P) -> Q {
    (p.0 as f64, p.1 as f64)
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Line,
    Quad,
    Cubic,
    /// cubic whose first control point mirrors the last one
    Smooth,
    /// quadratic likewise
    SmoothQuad,
}
const KINDS: [Kind; 5] = [Kind::Line, Kind::Quad, Kind::Cubic, Kind::Smooth, Kind::SmoothQuad];
/// how the outline ends
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    /// the last edge is implied by Z
    Z,
    /// drawn back to the start, then Z
    BackZ,
    /// drawn back to the start
    Back,
    /// neither
    Open,
}
const ENDS: [End; 4] = [End::Z, End::BackZ, End::Back, End::Open];
#[derive(Clone, Copy, PartialEq, Debug)]
enum Style {
    Abs,
    Rel,
    /// H and V where possible
    Axis,
    /// h and v where possible
    AxisRel,
    /// without repeating the command letter
    Implicit,
}
const STYLES: [Style; 5] = [Style::Abs, Style::Rel, Style::Axis, Style::AxisRel, Style::Implicit];

/// writes the path data of an outline and returns it with the outline it describes
fn path_data(p: &[Q], kinds: &[Kind], end: End, style: Style, from: Option<Q>) -> (String, Outline) {
    let n = p.len();
    let rel = matches!(style, Style::Rel | Style::AxisRel);
    let mut d = match (rel, from) {
        (true, Some(o)) => format!("m{}", fmt(sub(p[0], o))),
        _ => format!("M{}", fmt(p[0])),
    };
    let mut out = vec![];
    let mut last: Option<(Kind, Q)> = None;
    let mut letter = 'M';
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        let mut k = kinds[i % kinds.len()];
        let closing = i == n - 1;
        if closing && matches!(end, End::Z | End::Open) {
            // drawn by the closing itself
            out.push(vec![a]);
            continue;
        }
        let c0 = (a.0 + 0.25, a.1 - 0.5);
        let c1 = (b.0 + 0.5, b.1 + 0.25);
        let o = if rel { a } else { (0.0, 0.0) };
        let w = |q: Q| fmt(sub(q, o));
        // the mirrored control point of a smooth command is the current point unless it follows its like
        let (m, x) = match k {
            Kind::Line => (vec![], format!("{}", w(b))),
            Kind::Quad => (vec![c0], format!("{} {}", w(c0), w(b))),
            Kind::Cubic => (vec![c0, c1], format!("{} {} {}", w(c0), w(c1), w(b))),
            Kind::Smooth => {
                let s = match last {
                    Some((Kind::Cubic | Kind::Smooth, c)) => mirror(c, a),
                    _ => a,
                };
                (vec![s, c1], format!("{} {}", w(c1), w(b)))
            }
            Kind::SmoothQuad => {
                let s = match last {
                    Some((Kind::Quad | Kind::SmoothQuad, c)) => mirror(c, a),
                    _ => a,
                };
                (vec![s], format!("{}", w(b)))
            }
        };
        let mut ch = match k {
            Kind::Line => 'L',
            Kind::Quad => 'Q',
            Kind::Cubic => 'C',
            Kind::Smooth => 'S',
            Kind::SmoothQuad => 'T',
        };
        let mut x = x;
        if k == Kind::Line && matches!(style, Style::Axis | Style::AxisRel) {
            if a.1 == b.1 {
                ch = 'H';
                x = format!("{}", b.0 - o.0);
            } else if a.0 == b.0 {
                ch = 'V';
                x = format!("{}", b.1 - o.1);
            }
        }
        if rel {
            ch = ch.to_ascii_lowercase();
        }
        if style == Style::Implicit && (letter == ch || letter == 'M' && ch == 'L') {
            d += &format!(" {}", x);
        } else {
            d += &format!("{}{}", ch, x);
        }
        letter = ch;
        last = m.last().map(|c| (k, *c));
        if m.is_empty() {
            k = Kind::Line;
        }
        let _ = k;
        let mut piece = vec![a];
        piece.extend(m);
        out.push(piece);
    }
    if matches!(end, End::Z | End::BackZ) {
        d.push(if rel { 'z' } else { 'Z' });
    }
    (d, out)
}
/// the same outline with its pieces in the given cyclic direction, starting anywhere
fn same(a: &Outline, b: &Outline, tol: f64) -> bool {
    let n = a.len();
    let eq = |x: &[Q], y: &[Q]| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| (p.0 - q.0).abs() <= tol && (p.1 - q.1).abs() <= tol);
    n == b.len() && (0..n).any(|s| (0..n).all(|i| eq(&a[i], &b[(i + s) % n])))
}
fn reversed(a: &Outline) -> Outline {
    let n = a.len();
    (0..n)
        .rev()
        .map(|i| {
            let mut p = vec![a[(i + 1) % n][0]];
            p.extend(a[i][1..].iter().rev());
            p
        })
        .collect()
}
pub trait Planar: HalfEdgeImplMeshType<Mesh = HalfEdgeMeshImpl<Self>> + EuclideanMeshType<2> + MeshTypeHalfEdge {
    fn q(v: &<Self as EuclideanMeshType<2>>::Vec) -> Q;
    fn at(p: Q) -> Self::VP;
}
impl Planar for MeshType2d64PNUCurved {
    fn q(v: &VecN<f64, 2>) -> Q {
        (v[0], v[1])
    }
    fn at(p: Q) -> Self::VP {
        VertexPayloadPNU::from_pos(VecN::<f64, 2>::new(p.0, p.1))
    }
}
impl Planar for BevyMeshType2d32 {
    fn q(v: &bevy::math::Vec2) -> Q {
        (v.x as f64, v.y as f64)
    }
    fn at(p: Q) -> Self::VP {
        BevyVertexPayload2d::from_pos(bevy::math::Vec2::new(p.0 as f32, p.1 as f32))
    }
}
pub fn outlines<T: Planar>(m: &HalfEdgeMeshImpl<T>) -> Result<Vec<Outline>, String>
where
    T::Edge: CurvedEdge<2, T>,
    T::VP: HasPosition<2, <T as EuclideanMeshType<2>>::Vec, S = <T as EuclideanMeshType<2>>::S>,
{
    let mut r = vec![];
    for face in m.faces() {
        let mut o = vec![];
        for e in face.edges(m) {
            let s = |k: CurvedEdgeType<2, T>| match k {
                CurvedEdgeType::Linear => vec![],
                CurvedEdgeType::QuadraticBezier(a) => vec![T::q(&a)],
                CurvedEdgeType::CubicBezier(a, b) => vec![T::q(&a), T::q(&b)],
            };
            let (fw, mut bw) = (s(e.curve_type()), s(m.edge(m.edge(e.id()).twin_id()).curve_type()));
            if !fw.is_empty() && !bw.is_empty() {
                return Err("both half-edges are curved".into());
            }
            bw.reverse();
            let mut piece = vec![T::q(m.vertex(e.origin_id()).payload().pos())];
            piece.extend(if fw.is_empty() { bw } else { fw });
            o.push(piece);
        }
        r.push(o);
    }
    Ok(r)
}
/// the imported faces are the expected outlines in order, everything else belongs to them
fn judge<T: Planar>(svg: &str, want: &[Outline], tol: f64) -> Result<(), String>
where
    T::Edge: CurvedEdge<2, T>,
    T::EP: DefaultEdgePayload,
    T::FP: DefaultFacePayload,
    T::VP: HasPosition<2, <T as EuclideanMeshType<2>>::Vec, S = <T as EuclideanMeshType<2>>::S>,
{
    for old in [false, true] {
        let mut m = HalfEdgeMeshImpl::<T>::default();
        if old {
            Make2dShape::<T>::insert_polygon(&mut m, [(50.0, 50.0), (51.0, 50.0), (50.0, 51.0)].map(T::at));
            BackendSVG::<T>::import_svg(&mut m, svg);
        } else {
            m = <HalfEdgeMeshImpl<T> as BackendSVG<T>>::from_svg(svg);
        }
        let mut want = want.to_vec();
        if old {
            want.insert(0, vec![vec![(50.0, 50.0)], vec![(51.0, 50.0)], vec![(50.0, 51.0)]]);
        }
        m.check()?;
        compare::<T>(&m, &want, tol, true).map_err(|e| format!("{} from {} into {}", e, svg, if old { "a mesh with a triangle" } else { "an empty mesh" }))?;
    }
    Ok(())
}
/// the mesh consists of the outlines as faces in order
pub fn compare<T: Planar>(m: &HalfEdgeMeshImpl<T>, want: &[Outline], tol: f64, both_ways: bool) -> Result<(), String>
where
    T::Edge: CurvedEdge<2, T>,
    T::VP: HasPosition<2, <T as EuclideanMeshType<2>>::Vec, S = <T as EuclideanMeshType<2>>::S>,
{
    let got = outlines::<T>(m)?;
    if got.len() != want.len() {
        return Err(format!("{} faces instead of {}: {:?}", got.len(), want.len(), got));
    }
    for (g, w) in got.iter().zip(want) {
        if !same(g, w, tol) && !(both_ways && same(&reversed(g), w, tol)) {
            return Err(format!("the face {:?} instead of {:?}", g, w));
        }
    }
    let n: usize = want.iter().map(|w| w.len()).sum();
    if m.num_vertices() != n || m.num_edges() != 2 * n && m.num_edges() != n {
        return Err(format!("{} vertices and {} edges for {} pieces", m.num_vertices(), m.num_edges(), n));
    }
    Ok(())
}
fn both(ctx: &Ctx, svg: &str, want: &[Outline], tol: f64) {
    ctx.transitions.fetch_add(2, SeqCst);
    ctx.traces.fetch_add(2, SeqCst);
    ctx.sample(|| svg.to_string());
    ctx.case(|| format!("f64 {}", svg), || judge::<MeshType2d64PNUCurved>(svg, want, tol));
    ctx.case(|| format!("f32 {}", svg), || judge::<BevyMeshType2d32>(svg, want, tol));
}
const NS: &str = "<svg xmlns='http://www.w3.org/2000/svg'>";
fn full(s: &str) -> String {
    format!("{}{}</svg>", NS, s)
}
/// single outlines: every way to write a polygon
fn single(ctx: &Ctx, polys: &[Vec<P>]) {
    ctx.bound("polygons", format!("{} outlines, both directions, {} ways to end, {} ways to write, as path, polygon and polyline", polys.len(), ENDS.len(), STYLES.len()));
    ctx.par(polys.len() as u64, 4, |i| {
        ctx.states.fetch_add(1, SeqCst);
        for rev in [false, true] {
            let mut p: Vec<Q> = polys[i as usize].iter().map(|q| f(*q)).collect();
            if rev {
                p.reverse();
            }
            for end in ENDS {
                for style in STYLES {
                    let (d, o) = path_data(&p, &[Kind::Line], end, style, None);
                    let e = format!("<path d='{}'/>", d);
                    both(ctx, &full(&e), &[o.clone()], 0.0);
                    if style == Style::Abs {
                        // without the document around it
                        both(ctx, &e, &[o], 0.0);
                    }
                }
            }
            let l: Vec<String> = p.iter().map(|q| format!("{},{}", q.0, q.1)).collect();
            let o: Outline = p.iter().map(|q| vec![*q]).collect();
            both(ctx, &full(&format!("<polygon points='{}'/>", l.join(" "))), &[o.clone()], 0.0);
            both(ctx, &full(&format!("<polyline points='{}'/>", l.join(" "))), &[o], 0.0);
        }
    });
}
/// every assignment of edge kinds
fn curves(ctx: &Ctx, nmax: usize) {
    let shapes: Vec<Vec<Q>> = vec![vec![(0.0, 0.0), (4.0, 0.0), (0.0, 4.0)], vec![(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (0.0, 4.0)], vec![(0.0, 0.0), (4.0, 0.0), (6.0, 3.0), (4.0, 4.0), (0.0, 4.0)]];
    ctx.bound("curves", format!("all assignments of {} kinds to the edges of outlines with 3 to {} edges, {} ways to end, absolute and relative", KINDS.len(), nmax, ENDS.len()));
    for p in shapes.iter().filter(|p| p.len() <= nmax) {
        let n = p.len() as u32;
        let k = KINDS.len() as u64;
        ctx.par(k.pow(n), 8, |i| {
            ctx.states.fetch_add(1, SeqCst);
            let kinds: Vec<Kind> = (0..n).map(|j| KINDS[(i / k.pow(j) % k) as usize]).collect();
            for end in ENDS {
                for style in [Style::Abs, Style::Rel, Style::Implicit] {
                    let (d, o) = path_data(p, &kinds, end, style, None);
                    both(ctx, &full(&format!("<path d='{}'/>", d)), &[o], 1e-5);
                }
            }
        });
    }
}
#[derive(Clone, Copy, Debug)]
enum Tf {
    Translate,
    Scale,
    ScaleX,
    Turn,
    Skew,
    Matrix,
    Pair,
}
const TFS: [Tf; 7] = [Tf::Translate, Tf::Scale, Tf::ScaleX, Tf::Turn, Tf::Skew, Tf::Matrix, Tf::Pair];
type M = [f64; 6];
fn mul(a: M, b: M) -> M {
    [a[0] * b[0] + a[2] * b[1], a[1] * b[0] + a[3] * b[1], a[0] * b[2] + a[2] * b[3], a[1] * b[2] + a[3] * b[3], a[0] * b[4] + a[2] * b[5] + a[4], a[1] * b[4] + a[3] * b[5] + a[5]]
}
impl Tf {
    fn text(self) -> &'static str {
        match self {
            Tf::Translate => "translate(3 -2)",
            Tf::Scale => "scale(2)",
            Tf::ScaleX => "scale(0.5 4)",
            Tf::Turn => "rotate(90)",
            Tf::Skew => "skewX(45)",
            Tf::Matrix => "matrix(1 2 -1 1 5 6)",
            Tf::Pair => "translate(1 0) scale(-1 2)",
        }
    }
    fn matrix(self) -> M {
        match self {
            Tf::Translate => [1.0, 0.0, 0.0, 1.0, 3.0, -2.0],
            Tf::Scale => [2.0, 0.0, 0.0, 2.0, 0.0, 0.0],
            Tf::ScaleX => [0.5, 0.0, 0.0, 4.0, 0.0, 0.0],
            Tf::Turn => [0.0, 1.0, -1.0, 0.0, 0.0, 0.0],
            Tf::Skew => [1.0, 0.0, 1.0, 1.0, 0.0, 0.0],
            Tf::Matrix => [1.0, 2.0, -1.0, 1.0, 5.0, 6.0],
            Tf::Pair => mul([1.0, 0.0, 0.0, 1.0, 1.0, 0.0], [-1.0, 0.0, 0.0, 2.0, 0.0, 0.0]),
        }
    }
}
fn apply(m: M, o: &Outline) -> Outline {
    o.iter().map(|p| p.iter().map(|q| (m[0] * q.0 + m[2] * q.1 + m[4], m[1] * q.0 + m[3] * q.1 + m[5])).collect()).collect()
}
/// nested transforms on groups, elements and reused definitions
fn transforms(ctx: &Ctx, depth: usize) {
    let (d, o) = path_data(&[(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (1.0, 4.0)], &[Kind::Line, Kind::Quad, Kind::Cubic, Kind::Smooth], End::BackZ, Style::Abs, None);
    ctx.bound("transforms", format!("all chains of up to {} of {} transforms on nested groups and the path, directly and through a reused definition", depth, TFS.len()));
    let k = TFS.len() as u64;
    for l in 0..=depth {
        ctx.par(k.pow(l as u32), 4, |i| {
            ctx.states.fetch_add(1, SeqCst);
            let w: Vec<Tf> = (0..l).map(|j| TFS[(i / k.pow(j as u32) % k) as usize]).collect();
            let mut m: M = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];
            for t in &w {
                m = mul(m, t.matrix());
            }
            let exp = apply(m, &o);
            let tol = 1e-5 * exp.iter().flatten().map(|q| q.0.abs().max(q.1.abs())).fold(1.0, f64::max);
            let wrap = |inner: String, w: &[Tf]| w.iter().rev().fold(inner, |s, t| format!("<g transform='{}'>{}</g>", t.text(), s));
            // all on groups
            both(ctx, &full(&wrap(format!("<path d='{}'/>", d), &w)), &[exp.clone()], tol);
            if let Some((last, rest)) = w.split_last() {
                both(ctx, &full(&wrap(format!("<path d='{}' transform='{}'/>", d, last.text()), rest)), &[exp.clone()], tol);
                both(ctx, &full(&wrap(format!("<use href='#a' transform='{}'/>", last.text()), rest).replacen("", &format!("<defs><path id='a' d='{}'/></defs>", d), 1)), &[exp.clone()], tol);
            }
            let all: Vec<&str> = w.iter().map(|t| t.text()).collect();
            if !all.is_empty() {
                both(ctx, &full(&format!("<path d='{}' transform='{}'/>", d, all.join(" "))), &[exp], tol);
            }
        });
    }
}
/// elements of a document with their outlines
fn alphabet() -> Vec<(String, Vec<Outline>)> {
    let a = [(0.0, 0.0), (4.0, 0.0), (0.0, 4.0)];
    let b = [(10.0, 0.0), (14.0, 0.0), (14.0, 4.0), (10.0, 4.0)];
    let line = |p: &[Q]| p.iter().map(|q| vec![*q]).collect::<Outline>();
    let mut r = vec![];
    let (da, oa) = path_data(&a, &[Kind::Line], End::Z, Style::Abs, None);
    let (db, ob) = path_data(&b, &[Kind::Quad, Kind::Line], End::BackZ, Style::Rel, None);
    r.push((format!("<path d='{}'/>", da), vec![oa.clone()]));
    r.push((format!("<path d='{}' fill='none' stroke='red'/>", db), vec![ob.clone()]));
    r.push((format!("<path d='{}' visibility='hidden'/>", db), vec![]));
    r.push((format!("<path d='{}' display='none'/>", db), vec![]));
    r.push((format!("<g visibility='hidden'><path d='{}'/><path d='{}' visibility='visible'/></g>", db, da), vec![oa.clone()]));
    r.push((format!("<g><g><path d='{}'/></g><path d='{}'/></g>", da, db), vec![oa.clone(), ob.clone()]));
    r.push((format!("<g opacity='0.5'><path d='{}'/></g>", db), vec![ob.clone()]));
    r.push(("<rect x='1' y='2' width='3' height='5'/>".into(), vec![line(&[(1.0, 2.0), (4.0, 2.0), (4.0, 7.0), (1.0, 7.0)])]));
    r.push(("<rect width='3' height='0'/>".into(), vec![]));
    r.push(("<g/>".into(), vec![]));
    for (ea, eb) in [(End::Z, End::Z), (End::BackZ, End::Back), (End::Back, End::BackZ), (End::Open, End::Open), (End::Z, End::Open)] {
        for style in [Style::Abs, Style::Rel, Style::Axis, Style::AxisRel] {
            let (da, oa) = path_data(&a, &[Kind::Line], ea, style, None);
            // where a relative move starts
            let from = if matches!(ea, End::Open) { a[2] } else { a[0] };
            let (db, ob) = path_data(&b, &[Kind::Line, Kind::Cubic], eb, style, Some(from));
            r.push((format!("<path d='{}{}'/>", da, db), vec![oa, ob]));
        }
    }
    // drawing on after closing starts again at the same place
    r.push(("<path d='M0 0L4 0L0 4ZL-4 0L0 -4Z'/>".into(), vec![line(&a), line(&[(0.0, 0.0), (-4.0, 0.0), (0.0, -4.0)])]));
    r
}
/// documents of several elements
fn documents(ctx: &Ctx, len: usize) {
    let al = alphabet();
    ctx.bound("documents", format!("all sequences of up to {} of {} elements", len, al.len()));
    let k = al.len() as u64;
    for l in 0..=len {
        ctx.par(k.pow(l as u32), 8, |i| {
            ctx.states.fetch_add(1, SeqCst);
            let mut s = String::new();
            let mut o = vec![];
            for j in 0..l {
                let e = &al[(i / k.pow(j as u32) % k) as usize];
                s += &e.0;
                o.extend(e.1.clone());
            }
            both(ctx, &full(&s), &o, 1e-5);
        });
    }
    // view boxes place the drawing
    for (vb, size, m) in [("0 0 10 10", "width='10' height='10'", [1.0, 0.0, 0.0, 1.0, 0.0, 0.0]), ("-2 3 10 10", "width='10' height='10'", [1.0, 0.0, 0.0, 1.0, 2.0, -3.0]), ("0 0 10 10", "width='20' height='20'", [2.0, 0.0, 0.0, 2.0, 0.0, 0.0]), ("0 0 20 20", "", [1.0, 0.0, 0.0, 1.0, 0.0, 0.0])] {
        for e in &al {
            let s = format!("<svg xmlns='http://www.w3.org/2000/svg' viewBox='{}' {}>{}</svg>", vb, size, e.0);
            both(ctx, &s, &e.1.iter().map(|o| apply(m, o)).collect::<Vec<_>>(), 1e-5);
        }
    }
}
/// ellipses, round rectangles and arcs consist of curves along the ideal outline
fn rounds(ctx: &Ctx) {
    let on = |svg: String, d: &(dyn Fn(Q) -> f64 + Sync), tol: f64, area: f64| {
        ctx.transitions.fetch_add(1, SeqCst);
        ctx.traces.fetch_add(1, SeqCst);
        ctx.case(
            || svg.clone(),
            || {
                let m = <Mesh2d64Curved as BackendSVG<MeshType2d64PNUCurved>>::from_svg(&svg);
                m.check()?;
                let o = outlines::<MeshType2d64PNUCurved>(&m)?;
                let [o] = &o[..] else { return Err(format!("{} faces", o.len())) };
                let mut pts = vec![];
                for i in 0..o.len() {
                    let mut c = o[i].clone();
                    c.push(o[(i + 1) % o.len()][0]);
                    for t in 0..20 {
                        let q = crate::b_mesh::eval(&c, t as f64 / 20.0);
                        if d(q).abs() > tol {
                            return Err(format!("the outline passes {:?}, {} off", q, d(q)));
                        }
                        pts.push(q);
                    }
                }
                let n = pts.len();
                let a: f64 = (0..n).map(|i| pts[i].0 * pts[(i + 1) % n].1 - pts[i].1 * pts[(i + 1) % n].0).sum::<f64>().abs() / 2.0;
                if (a - area).abs() > 0.01 * area {
                    return Err(format!("the area is {} instead of {}", a, area));
                }
                Ok(())
            },
        );
    };
    let pi = std::f64::consts::PI;
    for r in [1.0, 2.5, 16.0] {
        for c in [(0.0, 0.0), (7.0, -3.0)] {
            on(full(&format!("<circle cx='{}' cy='{}' r='{}'/>", c.0, c.1, r)), &|q| (q.0 - c.0).hypot(q.1 - c.1) - r, 0.005 * r, pi * r * r);
            on(full(&format!("<ellipse cx='{}' cy='{}' rx='{}' ry='{}'/>", c.0, c.1, r, 2.0 * r)), &|q| ((q.0 - c.0) / r).hypot((q.1 - c.1) / (2.0 * r)) - 1.0, 0.005, 2.0 * pi * r * r);
            for sweep in [0, 1] {
                let s = format!("<path d='M{} {}A{} {} 0 1 {} {} {}A{} {} 0 1 {} {} {}Z'/>", c.0 - r, c.1, r, r, sweep, c.0 + r, c.1, r, r, sweep, c.0 - r, c.1);
                on(full(&s), &|q| (q.0 - c.0).hypot(q.1 - c.1) - r, 0.005 * r, pi * r * r);
                // half a disc
                let s = format!("<path d='M{} {}A{} {} 0 0 {} {} {}Z'/>", c.0 - r, c.1, r, r, sweep, c.0 + r, c.1);
                on(full(&s), &|q| if (q.1 - c.1).abs() < 1e-6 * r { ((q.0 - c.0).abs() - r).max(0.0) } else { (q.0 - c.0).hypot(q.1 - c.1) - r }, 0.005 * r, pi * r * r / 2.0);
            }
        }
        on(full(&format!("<rect width='{}' height='{}' rx='{}'/>", 4.0 * r, 6.0 * r, r)), &|q| {
            let (x, y) = ((q.0 - 2.0 * r).abs() - r, (q.1 - 3.0 * r).abs() - 2.0 * r);
            x.max(0.0).hypot(y.max(0.0)) + x.max(y).min(0.0) - r
        }, 0.01 * r, 24.0 * r * r - (4.0 - pi) * r * r);
    }
}
/// long outlines and documents
fn long(ctx: &Ctx) {
    let sizes = [40usize, 100, 300];
    let pats: Vec<Vec<Kind>> = KINDS.iter().map(|k| vec![*k]).chain(KINDS.iter().flat_map(|a| KINDS.iter().filter(move |b| *b != a).map(move |b| vec![*a, *b]))).chain([KINDS.to_vec()]).collect();
    ctx.bound("long outlines", format!("{:?} points, {} patterns of kinds of edges, {} ways to end, {} ways to write", sizes, pats.len(), ENDS.len(), STYLES.len()));
    ctx.par((sizes.len() * pats.len() * ENDS.len() * STYLES.len()) as u64, 1, |i| {
        let mut i = i as usize;
        let mut pick = |k: usize| {
            let r = i % k;
            i /= k;
            r
        };
        let (n, end, style, pat) = (sizes[pick(sizes.len())], ENDS[pick(ENDS.len())], STYLES[pick(STYLES.len())], &pats[pick(pats.len())]);
        ctx.states.fetch_add(1, SeqCst);
        // down a parabola with some level steps and back
        let h = n as i64 / 2;
        let p: Vec<Q> = (0..n as i64).map(|j| if j < h { (j as f64, (j * j / 64) as f64) } else { ((n as i64 - 1 - j) as f64 - 0.5, 500.0 - (j * j % 7) as f64) }).collect();
        let kinds: Vec<Kind> = (0..n).map(|j| pat[j % pat.len()]).collect();
        let (d, o) = path_data(&p, &kinds, end, style, None);
        // relative coordinates add up
        both(ctx, &full(&format!("<path d='{}'/>", d)), &[o], 0.05);
    });
    let al = alphabet();
    let k = al.len();
    let reps = [8usize, 30, 120];
    ctx.bound("long documents", format!("all pairs of {} elements repeated {:?} times, side by side or nested in as many groups", k, reps));
    ctx.par((k * k) as u64, 1, |i| {
        let (a, b) = (&al[i as usize % k], &al[i as usize / k]);
        for n in reps {
            ctx.states.fetch_add(1, SeqCst);
            let s = format!("{}{}", a.0, b.0).repeat(n);
            let o: Vec<Outline> = (0..n).flat_map(|_| a.1.iter().chain(&b.1).cloned()).collect();
            both(ctx, &full(&s), &o, 1e-5);
            if n < 50 {
                let s = format!("{}{}{}{}", format!("<g>{}", a.0).repeat(n), b.0, a.0, "</g>".repeat(n));
                let o: Vec<Outline> = (0..n).flat_map(|_| a.1.clone()).chain(b.1.iter().chain(&a.1).cloned()).collect();
                both(ctx, &full(&s), &o, 1e-5);
            }
        }
    });
}
pub fn v01(ctx: &Ctx) {
    let mut ps = vec![];
    polygons(&grid(3, 3), 3, ctx.b(6, 7), true, true, &mut ps);
    single(ctx, &ps);
    curves(ctx, ctx.b(4, 5));
    transforms(ctx, ctx.b(3, 4));
    documents(ctx, 3);
    rounds(ctx);
    long(ctx);
    ctx.assume("the direction of a face relative to the direction of drawing is unspecified; texts and images are not supported; fill rules do not matter: every outline becomes a face");
    ctx.assume("outlines that use a point twice (other than their start) or consist of two edges are outside the claim");
}
