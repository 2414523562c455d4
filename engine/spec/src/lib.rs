//! The properties, written once over an abstract algebra of geometric facts. The symbolic engine
//! instantiates it with formulas over the symbolic coordinates, the native replayer with truth
//! values computed exactly from concrete coordinates.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use wire::*;

pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;

/// Point numbers 0..n are input points, n and n+1 the artificial head and tail.
pub trait Alg {
    type B: Clone;
    fn k(&mut self, v: bool) -> Self::B;
    fn and(&mut self, v: Vec<Self::B>) -> Self::B;
    fn or(&mut self, v: Vec<Self::B>) -> Self::B;
    fn not(&mut self, b: Self::B) -> Self::B;
    fn xor(&mut self, a: Self::B, b: Self::B) -> Self::B;
    /// sign of x(a) - x(b)
    fn cx(&mut self, a: usize, b: usize, set: u8) -> Self::B;
    fn cy(&mut self, a: usize, b: usize, set: u8) -> Self::B;
    /// positive if a, b, c turn counter-clockwise
    fn orient(&mut self, a: usize, b: usize, c: usize, set: u8) -> Self::B;
    /// positive if d is inside of the circle through a, b, c (which are counter-clockwise)
    fn incircle(&mut self, a: usize, b: usize, c: usize, d: usize, set: u8) -> Self::B;
    /// sign of the signed area of a ring
    fn area(&mut self, ring: &[usize], set: u8) -> Self::B;
    /// a box that contains the point whatever the values are: x from, x to, y from, y to
    fn range(&mut self, p: usize) -> [f64; 4];
}

/// classes of failures that are listed as known findings
pub fn known(class: &str) -> bool {
    std::env::var("VERIF_KNOWN").map_or(false, |v| v.split(',').any(|x| x == class))
}

pub struct Ob<B> {
    pub what: String,
    pub holds: B,
}

pub struct Obs<B> {
    pub v: Vec<Ob<B>>,
}

impl<B> Obs<B> {
    pub fn new() -> Self {
        Obs { v: vec![] }
    }
    fn fail<A: Alg<B = B>>(&mut self, a: &mut A, what: String) {
        let f = a.k(false);
        self.v.push(Ob { what, holds: f });
    }
    fn add(&mut self, what: impl Into<String>, holds: B) {
        self.v.push(Ob { what: what.into(), holds });
    }
}

fn edges(ring: &[usize]) -> Vec<(usize, usize)> {
    (0..ring.len()).map(|i| (ring[i], ring[(i + 1) % ring.len()])).collect()
}

fn distinct<A: Alg>(a: &mut A, i: usize, j: usize) -> A::B {
    let ex = a.cx(i, j, ZERO);
    let ey = a.cy(i, j, ZERO);
    let e = a.and(vec![ex, ey]);
    a.not(e)
}

/// p on the open segment a b
fn on_segment<A: Alg>(al: &mut A, a: usize, b: usize, p: usize) -> A::B {
    // collinear and p strictly between in (y, x) order; for collinear points this is betweenness
    let col = al.orient(a, b, p, ZERO);
    let ap = lex_less(al, a, p);
    let pb = lex_less(al, p, b);
    let bp = lex_less(al, b, p);
    let pa = lex_less(al, p, a);
    let m1 = al.and(vec![ap, pb]);
    let m2 = al.and(vec![bp, pa]);
    let m = al.or(vec![m1, m2]);
    al.and(vec![col, m])
}

/// (y, x) lexicographic order
pub fn lex_less<A: Alg>(al: &mut A, p: usize, q: usize) -> A::B {
    let ly = al.cy(p, q, NEG);
    let ey = al.cy(p, q, ZERO);
    let lx = al.cx(p, q, NEG);
    let e = al.and(vec![ey, lx]);
    al.or(vec![ly, e])
}

/// (x, y) lexicographic order
fn xlex<A: Alg>(al: &mut A, p: usize, q: usize, or_equal: bool) -> A::B {
    let l = al.cx(p, q, NEG);
    let e = al.cx(p, q, ZERO);
    let ly = al.cy(p, q, if or_equal { NEG | ZERO } else { NEG });
    let m = al.and(vec![e, ly]);
    al.or(vec![l, m])
}

fn proper_cross<A: Alg>(al: &mut A, a: usize, b: usize, c: usize, d: usize) -> A::B {
    let mut opposite = |p, q, r, s| {
        let n1 = al.orient(p, q, r, NEG);
        let p2 = al.orient(p, q, s, POS);
        let p1 = al.orient(p, q, r, POS);
        let n2 = al.orient(p, q, s, NEG);
        let m1 = al.and(vec![n1, p2]);
        let m2 = al.and(vec![p1, n2]);
        al.or(vec![m1, m2])
    };
    let u = opposite(a, b, c, d);
    let v = opposite(c, d, a, b);
    al.and(vec![u, v])
}

fn join(a: [f64; 4], b: [f64; 4]) -> [f64; 4] {
    [a[0].min(b[0]), a[1].max(b[1]), a[2].min(b[2]), a[3].max(b[3])]
}

fn around<A: Alg>(al: &mut A, ring: &[usize]) -> [f64; 4] {
    let v: Vec<[f64; 4]> = ring.iter().map(|&p| al.range(p)).collect();
    v.into_iter().reduce(join).unwrap()
}

fn apart(a: &[f64; 4], b: &[f64; 4]) -> bool {
    a[1] < b[0] || b[1] < a[0] || a[3] < b[2] || b[3] < a[2]
}

/// Pairs (index into u, index into v) whose boxes may meet: boxes without a common value cannot
/// coincide, touch or cross.
fn near(u: &[[f64; 4]], v: &[[f64; 4]]) -> Vec<(usize, usize)> {
    // a sweep along both lists, the other way round if the boxes are heaped up in this direction
    let mut pairs = match along(u, v, 0, 200 * (u.len() + v.len())) {
        Some(p) => p,
        None => along(u, v, 1, usize::MAX).unwrap(),
    };
    pairs.sort();
    pairs
}

fn along(u: &[[f64; 4]], v: &[[f64; 4]], axis: usize, limit: usize) -> Option<Vec<(usize, usize)>> {
    let mut e: Vec<(f64, bool, usize)> = vec![];
    e.extend(u.iter().enumerate().map(|(i, b)| (b[2 * axis], true, i)));
    e.extend(v.iter().enumerate().map(|(i, b)| (b[2 * axis], false, i)));
    e.sort_by(|a, b| a.0.total_cmp(&b.0));
    let (mut lu, mut lv): (Vec<usize>, Vec<usize>) = (vec![], vec![]);
    let mut pairs = vec![];
    let mut work = 0;
    for (at, is_u, i) in e {
        if is_u {
            lv.retain(|&j| v[j][2 * axis + 1] >= at);
            work += lv.len();
            pairs.extend(lv.iter().filter(|&&j| !apart(&u[i], &v[j])).map(|&j| (i, j)));
            lu.push(i);
        } else {
            lu.retain(|&j| u[j][2 * axis + 1] >= at);
            work += lu.len();
            pairs.extend(lu.iter().filter(|&&j| !apart(&u[j], &v[i])).map(|&j| (j, i)));
            lv.push(i);
        }
        if work > limit {
            return None;
        }
    }
    Some(pairs)
}

/// p strictly inside of the ring, for p not on it: crossing parity of the ray to the right
pub fn inside<A: Alg>(al: &mut A, ring: &[usize], p: usize) -> A::B {
    let mut acc = al.k(false);
    let r = al.range(p);
    for (a, b) in edges(ring) {
        let e = { let (u, v) = (al.range(a), al.range(b)); join(u, v) };
        if e[3] < r[2] || r[3] < e[2] || e[1] < r[0] {
            // the ray to the right does not meet the edge
            continue;
        }
        let a_low = al.cy(a, p, NEG | ZERO);
        let b_high = al.cy(b, p, POS);
        let left = al.orient(a, b, p, POS);
        let up = al.and(vec![a_low, b_high, left]);
        let b_low = al.cy(b, p, NEG | ZERO);
        let a_high = al.cy(a, p, POS);
        let right = al.orient(a, b, p, NEG);
        let down = al.and(vec![b_low, a_high, right]);
        let c = al.or(vec![up, down]);
        acc = al.xor(acc, c);
    }
    acc
}

/// The precondition: see the statement of C01.
pub fn valid<A: Alg>(al: &mut A, spec: &Spec) -> A::B {
    let (rings, _) = spec.shape();
    let n = spec.n();
    let mut c = vec![];
    if rings.is_empty() || rings.iter().any(|r| r.len() < 3) {
        return al.k(false);
    }
    let pts: Vec<[f64; 4]> = (0..n).map(|p| al.range(p)).collect();
    for (i, j) in near(&pts, &pts) {
        if j < i {
            c.push(distinct(al, i, j));
        }
    }
    let all: Vec<(usize, usize)> = rings.iter().flat_map(|r| edges(r)).collect();
    let segs: Vec<[f64; 4]> = all.iter().map(|&(a, b)| join(pts[a], pts[b])).collect();
    for (i, p) in near(&segs, &pts) {
        let (a, b) = all[i];
        if p != a && p != b {
            let on = on_segment(al, a, b, p);
            let off = al.not(on);
            c.push(off);
        }
    }
    for (i, j) in near(&segs, &segs) {
        let (a, b) = all[i];
        let (p, q) = all[j];
        if j >= i || a == p || a == q || b == p || b == q {
            continue;
        }
        let x = proper_cross(al, a, b, p, q);
        let nx = al.not(x);
        c.push(nx);
    }
    let boxes: Vec<[f64; 4]> = rings.iter().map(|r| r.iter().map(|&p| pts[p]).reduce(join).unwrap()).collect();
    for h in 1..rings.len() {
        let v = rings[h][0];
        let i = inside(al, &rings[0], v);
        c.push(i);
        for g in 1..rings.len() {
            if g != h && !apart(&boxes[g], &pts[v]) {
                let i = inside(al, &rings[g], v);
                let o = al.not(i);
                c.push(o);
            }
        }
    }
    al.and(c)
}

fn tris(out: &Out) -> Vec<[usize; 3]> {
    out.indices.chunks(3).filter(|c| c.len() == 3).map(|c| [c[0] as usize, c[1] as usize, c[2] as usize]).collect()
}

fn key(a: usize, b: usize) -> (usize, usize) {
    (a.min(b), a.max(b))
}

fn basic<A: Alg>(al: &mut A, n: usize, out: &Out, o: &mut Obs<A::B>) -> bool {
    if out.indices.len() % 3 != 0 {
        o.fail(al, format!("index list has length {}", out.indices.len()));
        return false;
    }
    for t in tris(out) {
        if t.iter().any(|&i| i >= n) {
            o.fail(al, format!("triangle {t:?} has a corner that is not an input point"));
            return false;
        }
        if t[0] == t[1] || t[1] == t[2] || t[0] == t[2] {
            o.fail(al, format!("triangle {t:?} repeats a corner"));
            return false;
        }
    }
    true
}

/// C02
pub fn tiling<A: Alg>(al: &mut A, spec: &Spec, out: &Out, o: &mut Obs<A::B>) {
    let n = spec.n();
    if !basic(al, n, out, o) {
        return;
    }
    let (rings, _) = spec.shape();
    let mut net: BTreeMap<(usize, usize), i32> = BTreeMap::new();
    for t in tris(out) {
        let c = al.orient(t[0], t[1], t[2], POS);
        o.add(format!("triangle {t:?} is not strictly counter-clockwise"), c);
        for k in 0..3 {
            let (a, b) = (t[k], t[(k + 1) % 3]);
            *net.entry(key(a, b)).or_insert(0) += if a < b { 1 } else { -1 };
        }
    }
    for (ri, r) in rings.iter().enumerate() {
        let mut sign = 0;
        for (a, b) in edges(r) {
            let v = net.remove(&key(a, b)).unwrap_or(0) * if a < b { 1 } else { -1 };
            if v.abs() != 1 || (sign != 0 && sign != v) {
                o.fail(al, format!("edge {a}-{b} of ring {ri} is not the border of the triangles on one side"));
                return;
            }
            sign = v;
        }
        // triangles are counter-clockwise, so the border runs counter-clockwise around the
        // outline and clockwise around a hole
        let want = if (ri == 0) == (sign == 1) { POS } else { NEG };
        let ok = al.area(r, want);
        o.add(format!("the triangles lie on the wrong side of ring {ri}"), ok);
    }
    for (e, v) in net {
        if v != 0 {
            o.fail(al, format!("edge {e:?} is on the border of the triangles but is no input edge"));
            return;
        }
    }
}

/// C03
pub fn constraints<A: Alg>(al: &mut A, spec: &Spec, out: &Out, o: &mut Obs<A::B>) {
    let n = spec.n();
    if !basic(al, n, out, o) {
        return;
    }
    let (rings, _) = spec.shape();
    let ts = tris(out);
    let mut all: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut ring_edges = BTreeSet::new();
    let mut directed: HashMap<(usize, usize), usize> = HashMap::new();
    for t in &ts {
        for k in 0..3 {
            all.insert(key(t[k], t[(k + 1) % 3]));
            *directed.entry((t[k], t[(k + 1) % 3])).or_insert(0) += 1;
        }
    }
    for (ri, r) in rings.iter().enumerate() {
        for (a, b) in edges(r) {
            ring_edges.insert(key(a, b));
            let fwd = directed.get(&(a, b)).copied().unwrap_or(0);
            let bwd = directed.get(&(b, a)).copied().unwrap_or(0);
            if fwd + bwd != 1 {
                o.fail(al, format!("edge {a}-{b} of ring {ri} belongs to {} triangles", fwd + bwd));
                continue;
            }
            let want = if (ri == 0) == (fwd == 1) { POS } else { NEG };
            let ok = al.area(r, want);
            o.add(format!("the triangle at edge {a}-{b} of ring {ri} is on the wrong side"), ok);
        }
    }
    if n <= 14 {
        for &(a, b) in &all {
            for &(c, d) in &ring_edges {
                if a == c || a == d || b == c || b == d {
                    continue;
                }
                let x = proper_cross(al, a, b, c, d);
                let nx = al.not(x);
                o.add(format!("result edge {a}-{b} crosses input edge {c}-{d}"), nx);
            }
        }
    }
}

fn ring_edge_set(spec: &Spec) -> HashSet<(usize, usize)> {
    spec.shape().0.iter().flat_map(|r| edges(r)).map(|(a, b)| key(a, b)).collect()
}

/// shared edges a b of two triangles with apexes: (a, b, c) counter-clockwise and d opposite
fn shared(ts: &[[usize; 3]]) -> Vec<(usize, usize, usize, usize)> {
    let mut apex: HashMap<(usize, usize), usize> = HashMap::new();
    for t in ts {
        for k in 0..3 {
            apex.insert((t[k], t[(k + 1) % 3]), t[(k + 2) % 3]);
        }
    }
    let mut v = vec![];
    for t in ts {
        for k in 0..3 {
            let (a, b, c) = (t[k], t[(k + 1) % 3], t[(k + 2) % 3]);
            if a < b {
                if let Some(&d) = apex.get(&(b, a)) {
                    v.push((a, b, c, d));
                }
            }
        }
    }
    v
}

/// C04
pub fn delaunay<A: Alg>(al: &mut A, spec: &Spec, out: &Out, o: &mut Obs<A::B>) {
    if !basic(al, spec.n(), out, o) {
        return;
    }
    let cons = ring_edge_set(spec);
    for (a, b, c, d) in shared(&tris(out)) {
        if cons.contains(&key(a, b)) {
            continue;
        }
        if c == d {
            o.fail(al, format!("two triangles on the same side of {a}-{b}"));
            continue;
        }
        let ok = al.incircle(a, b, c, d, NEG | ZERO);
        o.add(format!("edge {a}-{b} is not locally Delaunay (apexes {c}, {d})"), ok);
    }
}

/// C05
pub fn vertices<A: Alg>(al: &mut A, spec: &Spec, out: &Out, o: &mut Obs<A::B>) {
    let n = spec.n();
    if !basic(al, n, out, o) {
        return;
    }
    let (rings, st) = spec.shape();
    let used: HashSet<usize> = out.indices.iter().map(|&i| i as usize).collect();
    for r in &rings {
        for &v in r {
            if !used.contains(&v) {
                o.fail(al, format!("ring vertex {v} is not used"));
            }
        }
    }
    let boxes: Vec<[f64; 4]> = rings[1..].iter().map(|r| around(al, r)).collect();
    for &s in &st {
        let mut c = vec![inside(al, &rings[0], s)];
        let at = al.range(s);
        for (h, b) in rings[1..].iter().zip(&boxes) {
            if !apart(b, &at) {
                let i = inside(al, h, s);
                c.push(al.not(i));
            }
        }
        let inn = al.and(c);
        if used.contains(&s) {
            o.add(format!("steiner point {s} is used but is not inside"), inn);
        } else {
            let out = al.not(inn);
            o.add(format!("steiner point {s} is inside but not used"), out);
        }
    }
    let given: HashSet<&(Raw, Raw)> = out.points.iter().collect();
    for p in &out.iter {
        for c in p {
            if !given.contains(c) {
                o.fail(al, "the iterator gives a point that is no input point".into());
            }
        }
    }
    tiling(al, spec, out, o);
}

/// C06
pub fn api<A: Alg>(al: &mut A, spec: &Spec, input: &[(Raw, Raw)], out: &Out, o: &mut Obs<A::B>) {
    let n = spec.n();
    let mut check = |ok: bool, what: &str| {
        if !ok {
            o.fail(al, what.to_string());
        }
    };
    check(out.points == input, "points() differ from the input points");
    check(out.points_after == out.points, "points() change during iteration");
    check(out.data == (0..n).map(data_of).collect::<Vec<_>>(), "data() is not in the order of the points");
    check(out.data_after == out.data, "data() changes during iteration");
    check(out.indices.len() % 3 == 0, "the index list is not a multiple of three");
    check(out.indices == out.indices_mid, "the index list changes after the first next()");
    check(out.indices == out.indices_after, "the index list changes after iteration");
    check(out.extra_next == 0, "next() gives a triangle after the end");
    check(out.iter.len() * 3 == out.indices.len(), "iterator and index list have different lengths");
    for (i, t) in out.iter.iter().enumerate() {
        for k in 0..3 {
            let idx = out.indices.get(3 * i + k).map(|&x| x as usize).unwrap_or(usize::MAX);
            check(out.points.get(idx) == Some(&t[k]), "an iterated triangle is not the one of the index list");
        }
    }
}

/// C07, C13: two runs give the same
pub fn same<A: Alg>(al: &mut A, a: &Out, b: &Out, coords: bool, what: &str, o: &mut Obs<A::B>) {
    let mut eq = a.indices == b.indices && a.data == b.data;
    if coords {
        eq = eq && a == b;
    }
    if !eq {
        o.fail(al, format!("{what}: {:?} and {:?}", a.indices, b.indices));
    }
}

/// C08
pub fn protocol<A: Alg>(al: &mut A, spec: &Spec, log: &Log, o: &mut Obs<A::B>) {
    let n = spec.n();
    let cons = ring_edge_set(spec);
    let mut order: Vec<usize> = vec![];
    let mut inside_event: Option<u32> = None;
    let mut last_exit: Option<u32> = None;
    let mut seen = HashSet::new();
    let mut legalizing: Option<usize> = None;
    let mut phase = 0;
    for (cb, _) in &log.evs {
        if phase > 0 && !matches!((phase, cb), (1, Cb::Finalized)) {
            o.fail(al, format!("{cb:?} after the end of the sweep"));
            return;
        }
        match *cb {
            Cb::Enter(p) => {
                if inside_event.is_some() || legalizing.is_some() {
                    o.fail(al, format!("{cb:?} inside of another event"));
                }
                inside_event = Some(p);
                order.push(p as usize);
            }
            Cb::Exit(p) => {
                if inside_event != Some(p) || legalizing.is_some() {
                    o.fail(al, format!("{cb:?} does not match the entered point"));
                }
                inside_event = None;
                last_exit = Some(p);
            }
            Cb::Edge(p, q) => {
                if inside_event.is_some() || legalizing.is_some() || last_exit != Some(q) {
                    o.fail(al, format!("{cb:?} is not reported after its upper end"));
                }
                let k = key(p as usize, q as usize);
                if !cons.contains(&k) || !seen.insert(k) {
                    o.fail(al, format!("{cb:?} is no input edge or is reported twice"));
                } else {
                    let l = lex_less(al, p as usize, q as usize);
                    o.add(format!("{cb:?} does not name the lower end first"), l);
                }
            }
            Cb::SweepDone => {
                if inside_event.is_some() || legalizing.is_some() {
                    o.fail(al, "sweep_done inside of an event".into());
                }
                phase = 1;
            }
            Cb::Finalized => {
                if phase != 1 {
                    o.fail(al, "finalized before sweep_done".into());
                }
                phase = 2;
            }
            Cb::WillLegalize(t) => {
                if legalizing.is_some() {
                    o.fail(al, format!("{cb:?} nested"));
                }
                legalizing = Some(t);
            }
            Cb::Legalized(t) => {
                if legalizing != Some(t) {
                    o.fail(al, format!("{cb:?} does not close will_legalize"));
                }
                legalizing = None;
            }
            Cb::LegalizeStep(_) | Cb::Rotated(..) => {
                if legalizing.is_none() {
                    o.fail(al, format!("{cb:?} outside of a legalization"));
                }
            }
        }
    }
    if phase != 2 {
        o.fail(al, "sweep_done or finalized is missing".into());
    }
    for e in &cons {
        if !seen.contains(e) {
            o.fail(al, format!("edge {e:?} was never reported"));
        }
    }
    let set: HashSet<usize> = order.iter().copied().collect();
    let missing: Vec<usize> = (0..n).filter(|i| !set.contains(i)).collect();
    if set.len() != order.len() || missing.len() != 1 || order.iter().any(|&p| p >= n) {
        o.fail(al, format!("entered points {order:?} of {n}"));
        return;
    }
    let mut prev = missing[0];
    for &p in &order {
        let l = lex_less(al, prev, p);
        o.add(format!("point {p} is entered after {prev} but is not above it"), l);
        prev = p;
    }
}

/// C09
pub fn mesh<A: Alg>(al: &mut A, spec: &Spec, log: &Log, o: &mut Obs<A::B>) {
    let n = spec.n();
    let mut ccw: HashSet<([u32; 3], bool)> = HashSet::new();
    let mut before: HashSet<[u32; 3]> = HashSet::new();
    let straight = known("straight-fill");
    let mut point_event = false;
    for (ei, (cb, s)) in log.evs.iter().enumerate() {
        match cb {
            Cb::Enter(_) => point_event = true,
            Cb::Exit(_) => point_event = false,
            _ => {}
        }
        let Some(s) = s else { continue };
        let mut dir: HashMap<(u32, u32), usize> = HashMap::new();
        let at = format!("at callback {ei} {cb:?}");
        let mut now: HashSet<[u32; 3]> = HashSet::new();
        for (ti, t) in s.tris.iter().enumerate() {
            if t.p.iter().any(|&p| p as usize >= n + 2) || t.p[0] == t.p[1] || t.p[1] == t.p[2] || t.p[0] == t.p[2] {
                o.fail(al, format!("triangle {ti} {:?} has unknown or repeated corners {at}", t.p));
                return;
            }
            let m = t.p.iter().min().unwrap();
            let i = t.p.iter().position(|x| x == m).unwrap();
            let canon = [t.p[i], t.p[(i + 1) % 3], t.p[(i + 2) % 3]];
            if !before.contains(&canon) {
                // known finding: while the holes of the front near a new point are filled, a straight
                // angle of the front is filled with a triangle without area
                let fill = straight && point_event && matches!(cb, Cb::WillLegalize(w) if *w == ti) && ti + 1 == s.tris.len();
                if ccw.insert((canon, fill)) {
                    let c = al.orient(canon[0] as usize, canon[1] as usize, canon[2] as usize, if fill { POS | ZERO } else { POS });
                    o.add(format!("triangle {ti} {:?} is not strictly counter-clockwise {at}", t.p), c);
                }
            }
            now.insert(canon);
            for k in 0..3 {
                if dir.insert((t.p[k], t.p[(k + 1) % 3]), ti).is_some() {
                    o.fail(al, format!("two triangles on the same side of edge {}-{} {at}", t.p[k], t.p[(k + 1) % 3]));
                    return;
                }
            }
        }
        for (ti, t) in s.tris.iter().enumerate() {
            for k in 0..3 {
                // edge k is opposite to corner k
                let (a, b) = (t.p[(k + 1) % 3], t.p[(k + 2) % 3]);
                let other = dir.get(&(b, a)).copied();
                let nb = if t.nb[k] == NOTRI { None } else { Some(t.nb[k]) };
                if nb != other {
                    o.fail(al, format!("triangle {ti} {:?} names neighbour {nb:?} across {a}-{b}, it is {other:?} {at}", t.p));
                    return;
                }
                if let Some(j) = other {
                    let u = &s.tris[j];
                    let kk = (0..3).find(|&q| u.p[(q + 1) % 3] == b && u.p[(q + 2) % 3] == a).unwrap();
                    if u.con[kk] != t.con[k] {
                        o.fail(al, format!("the sides of edge {a}-{b} disagree on being constrained {at}"));
                        return;
                    }
                }
            }
        }
        before = now;
    }
}

/// C10
pub fn persistence<A: Alg>(al: &mut A, spec: &Spec, log: &Log, o: &mut Obs<A::B>) {
    let cons = ring_edge_set(spec);
    let mut inserted: Vec<(u32, u32)> = vec![];
    for (ei, (cb, s)) in log.evs.iter().enumerate() {
        if let Cb::Edge(p, q) = cb {
            inserted.push((*p, *q));
        }
        let Some(s) = s else { continue };
        let at = format!("at callback {ei} {cb:?}");
        let mut marked: HashMap<(usize, usize), (usize, usize)> = HashMap::new();
        for t in &s.tris {
            for k in 0..3 {
                let e = key(t.p[(k + 1) % 3] as usize, t.p[(k + 2) % 3] as usize);
                let m = marked.entry(e).or_insert((0, 0));
                m.0 += 1;
                if t.con[k] {
                    m.1 += 1;
                    if !cons.contains(&e) {
                        o.fail(al, format!("edge {e:?} is marked as constrained but is no input edge {at}"));
                        return;
                    }
                }
            }
        }
        for &(p, q) in &inserted {
            let m = marked.get(&key(p as usize, q as usize)).copied().unwrap_or((0, 0));
            if m.0 == 0 || m.0 != m.1 {
                o.fail(al, format!("input edge {p}-{q} is in {} triangles and marked in {} {at}", m.0, m.1));
                return;
            }
        }
    }
}

/// C11
pub fn front<A: Alg>(al: &mut A, spec: &Spec, log: &Log, o: &mut Obs<A::B>) {
    let n = spec.n();
    let mut ordered = HashSet::new();
    for (ei, (cb, s)) in log.evs.iter().enumerate() {
        if !matches!(cb, Cb::Exit(_) | Cb::Edge(..)) {
            continue;
        }
        let Some(s) = s else { continue };
        let at = format!("at callback {ei} {cb:?}");
        let f = &s.front;
        if f.len() < 2 || f[0].p != log.head || f[f.len() - 1].p != log.tail || log.head == log.tail {
            o.fail(al, format!("the front does not run from head to tail {at}"));
            return;
        }
        let found = f.iter().flat_map(|nd| [nd.located, nd.got, nd.prev, nd.next]);
        let found = found.chain(s.probes.iter().flat_map(|x| [x.1, x.2])).chain(s.far.iter().flat_map(|x| [x.0, x.1]));
        let mut found = found.chain(s.nth).chain(s.kept.iter().flat_map(|x| x.1));
        if found.any(|p| p == ODD) {
            o.fail(al, format!("a node found in another way than by iteration has another place, triangle or position {at}"));
            return;
        }
        for i in 0..f.len() {
            let nd = &f[i];
            let prev = if i > 0 { f[i - 1].p } else { NOPT };
            let next = if i + 1 < f.len() { f[i + 1].p } else { NOPT };
            if nd.p as usize >= n + 2 || nd.prev != prev || nd.next != next {
                o.fail(al, format!("front node {} has neighbours {}, {} instead of {prev}, {next} {at}", nd.p, nd.prev, nd.next));
                return;
            }
            if !nd.own {
                o.fail(al, format!("front node {} does not have the coordinates of its point {at}", nd.p));
                return;
            }
            if nd.located != nd.p || nd.got != nd.p {
                o.fail(al, format!("looking up front node {} finds {} and {} {at}", nd.p, nd.located, nd.got));
                return;
            }
            if i + 1 < f.len() {
                if ordered.insert((nd.p, next)) {
                    let l = xlex(al, nd.p as usize, next as usize, false);
                    o.add(format!("front nodes {}, {next} are not in order {at}", nd.p), l);
                }
                let ok = s.tris.get(nd.tri).map_or(false, |t| {
                    (0..3).any(|k| t.p[(k + 1) % 3] == next && t.p[(k + 2) % 3] == nd.p && t.nb[k] == NOTRI)
                });
                if !ok {
                    o.fail(al, format!("front node {}: edge to {next} is not a border edge of its triangle {at}", nd.p));
                    return;
                }
            }
        }
        for &(p, l, g) in &s.probes {
            let on = f.iter().any(|nd| nd.p == p);
            if g != if on { p } else { NOPT } {
                o.fail(al, format!("asking for the node of point {p}, which is {}on the front, finds {g} {at}", if on { "" } else { "not " }));
                return;
            }
            let Some(i) = f.iter().position(|nd| nd.p == l) else {
                o.fail(al, format!("locating point {p} finds {l}, which is not on the front {at}"));
                return;
            };
            if ordered.insert((l, p + 1_000_000)) {
                let le = xlex(al, l as usize, p as usize, true);
                o.add(format!("locating point {p} finds {l}, which is right of it {at}"), le);
            }
            if i + 1 < f.len() {
                let nx = f[i + 1].p;
                if ordered.insert((p + 1_000_000, nx)) {
                    let gt = xlex(al, p as usize, nx as usize, false);
                    o.add(format!("locating point {p} finds {l}, but {nx} is closer {at}"), gt);
                }
            }
        }
        let ends: Vec<(u32, u32)> = [NOPT, NOPT, log.tail, log.tail].iter().map(|&l| (l, NOPT)).collect();
        if s.far != ends {
            o.fail(al, format!("infinitely far positions find {:?} {at}", s.far));
            return;
        }
        let at_k = |k: usize| f.get(k).map_or(NOPT, |nd| nd.p);
        let nth = [0, 1, f.len() - 1, f.len(), f.len() + 1, usize::MAX].map(at_k);
        if s.nth != nth {
            o.fail(al, format!("nth gives {:?} instead of {nth:?} {at}", s.nth));
            return;
        }
        for &(p, [got, next, prev]) in &s.kept {
            let i = f.iter().position(|nd| nd.p == p);
            if got != if i.is_some() { p } else { NOPT } {
                o.fail(al, format!("the id of node {p}, which is {}on the front, finds {got} {at}", if i.is_some() { "" } else { "no longer " }));
                return;
            }
            let at_i = |k: usize| f.get(k).map_or(NOPT, |nd| nd.p);
            if let Some(i) = i {
                let before = if i > 0 { at_i(i - 1) } else { NOPT };
                if next != at_i(i + 1) || prev != before {
                    o.fail(al, format!("the id of node {p} finds the neighbours {prev}, {next} {at}"));
                    return;
                }
                continue;
            }
            // a deleted node: the neighbours it would have
            let (Some(a), Some(b)) = (f.iter().position(|nd| nd.p == prev), f.iter().position(|nd| nd.p == next)) else {
                o.fail(al, format!("the id of the deleted node {p} finds the neighbours {prev}, {next} {at}"));
                return;
            };
            if a + 1 != b {
                o.fail(al, format!("the id of the deleted node {p} finds the neighbours {prev}, {next} {at}"));
                return;
            }
            for (x, y, key) in [(prev, p, (prev, p + 1_000_000)), (p, next, (p + 1_000_000, next))] {
                if ordered.insert(key) {
                    let l = xlex(al, x as usize, y as usize, false);
                    o.add(format!("the id of the deleted node {p} finds the neighbours {prev}, {next} {at}"), l);
                }
            }
        }
    }
}

/// C12
pub fn legal<A: Alg>(al: &mut A, spec: &Spec, log: &Log, o: &mut Obs<A::B>) {
    let cons = ring_edge_set(spec);
    let mut seen = HashSet::new();
    for (ei, (cb, s)) in log.evs.iter().enumerate() {
        if !matches!(cb, Cb::Enter(_) | Cb::SweepDone) {
            continue;
        }
        let Some(s) = s else { continue };
        let ts: Vec<[usize; 3]> =
            s.tris.iter().map(|t| [t.p[0] as usize, t.p[1] as usize, t.p[2] as usize]).collect();
        for (a, b, c, d) in shared(&ts) {
            // an input edge may be unmarked as long as its upper end was not swept
            if c == d || !seen.insert((a, b, c, d)) {
                continue;
            }
            if cons.contains(&key(a, b)) {
                continue;
            }
            let ok = al.incircle(a, b, c, d, NEG | ZERO);
            o.add(format!("edge {a}-{b} is not legal (apexes {c}, {d}) at callback {ei} {cb:?}"), ok);
        }
    }
}

/// C19
pub fn truth<A: Alg>(al: &mut A, spec: &Spec, log: &Log, o: &mut Obs<A::B>) {
    let n = spec.n();
    let mut seen = HashSet::new();
    for (ei, (cb, s)) in log.evs.iter().enumerate() {
        let Some((said, fine)) = s.as_ref().and_then(|s| s.illegal.as_ref()) else { continue };
        let s = s.as_ref().unwrap();
        let at = format!("at callback {ei} {cb:?}");
        if *fine != said.is_empty() {
            o.fail(al, format!("verify_triangles is {fine} with the illegal triangles {said:?} {at}"));
            return;
        }
        let mut said: BTreeMap<(usize, usize), usize> = said.iter().fold(BTreeMap::new(), |mut m, &p| {
            *m.entry(p).or_insert(0) += 1;
            m
        });
        for (ti, t) in s.tris.iter().enumerate() {
            for k in 0..3 {
                let Some(u) = s.tris.get(t.nb[k]) else { continue };
                let (a, b) = (t.p[(k + 1) % 3], t.p[(k + 2) % 3]);
                let Some(kk) = (0..3).find(|&q| u.p[(q + 1) % 3] == b && u.p[(q + 2) % 3] == a) else { continue };
                if t.p.iter().chain(&u.p).any(|&p| p as usize >= n + 2) {
                    continue;
                }
                let listed = said.remove(&(ti, t.nb[k]));
                if u.con[kk] {
                    if listed.is_some() {
                        o.fail(al, format!("triangles {ti}, {} are called illegal across an input edge {at}", t.nb[k]));
                    }
                    continue;
                }
                let q = [t.p[k], a, b, u.p[kk]].map(|p| p as usize);
                if listed.is_some_and(|c| c != 1) {
                    o.fail(al, format!("triangles {ti}, {} are listed more than once {at}", t.nb[k]));
                }
                if !seen.insert((q, listed.is_some())) {
                    continue;
                }
                // of a triangle that is flat or clockwise (C09) the circle says nothing
                let ccw = al.orient(q[0], q[1], q[2], POS);
                let flat = al.not(ccw);
                let c = al.incircle(q[0], q[1], q[2], q[3], if listed.is_some() { POS } else { NEG | ZERO });
                let ok = al.or(vec![flat, c]);
                let is = if listed.is_some() { "called" } else { "not called" };
                o.add(format!("triangles {ti} {:?}, {} {:?} are {is} illegal {at}", t.p, t.nb[k], u.p), ok);
            }
        }
        if let Some((p, _)) = said.iter().next() {
            o.fail(al, format!("{p:?} are called illegal but are no neighbours {at}"));
            return;
        }
    }
}

/// C20
pub fn store<A: Alg>(al: &mut A, spec: &Spec, input: &[(Raw, Raw)], log: &Log, o: &mut Obs<A::B>) {
    let n = spec.n();
    let Some(s) = &log.store else {
        o.fail(al, "no callback".into());
        return;
    };
    let mut check = |ok: bool, what: &str| {
        if !ok {
            o.fail(al, what.to_string());
        }
        ok
    };
    check(log.evs.iter().all(|(_, s)| s.as_ref().is_none_or(|s| !s.store_changed)), "the point store changes during the sweep");
    let ok = check(s.len == n + 2 && s.points.len() == n + 2 && s.iter.len() == n + 2, "the store does not have two more points than the input")
        && check(s.points[..n] == *input && s.without_fake == input, "the points of the store are not the input")
        && check(s.head as usize + s.tail as usize == 2 * n + 1 && s.head.min(s.tail) as usize == n, "the artificial points are not the last two");
    if !ok {
        return;
    }
    check(s.iter_without_fake[..] == s.iter[..n], "iter_without_fake is not iter without the artificial points");
    for (i, (id, p, _)) in s.iter.iter().enumerate() {
        check(*id as usize == i && *p == s.points[i] && s.got[i] == Some(*p), "iter, points and get_point disagree");
    }
    check(s.iter[n..].iter().all(|e| e.2.is_empty()), "an artificial point has edges");
    let ids: Vec<u32> = s.by_y.iter().map(|e| e.0).collect();
    let mut sorted = ids[..n].to_vec();
    sorted.sort();
    if !check(sorted == (0..n as u32).collect::<Vec<_>>() && ids[n..].iter().all(|&i| i == NOPT), "the order by y does not have every input point once") {
        return;
    }
    for (k, (id, count, first)) in s.by_y.iter().enumerate() {
        let want = s.iter.get(*id as usize);
        check(*count == n.saturating_sub(k) && first.as_ref() == want, "iter_point_by_y and get_id_by_y disagree");
    }
    let entered: Vec<u32> = log.evs.iter().filter_map(|(c, _)| if let Cb::Enter(p) = c { Some(*p) } else { None }).collect();
    check(entered == ids[1..n], "the points are not entered in the order of the store");
    // every edge is kept for one of its ends
    let mut cons = ring_edge_set(spec);
    let mut upper = vec![];
    for (i, _, e) in &s.iter {
        for q in e {
            if !check(cons.remove(&key(*i as usize, *q as usize)), "an edge of the store is no input edge or is kept twice") {
                return;
            }
            upper.push((*q as usize, *i as usize));
        }
    }
    check(cons.is_empty(), "an input edge is missing in the store");
    for w in ids[..n].windows(2) {
        let l = lex_less(al, w[0] as usize, w[1] as usize);
        o.add(format!("point {} is before {} in the order by y", w[0], w[1]), l);
    }
    for (q, p) in upper {
        let l = lex_less(al, q, p);
        o.add(format!("edge {q}-{p} is not kept for its upper end"), l);
    }
    // the artificial points are below all others, and on their sides
    for i in 0..n {
        let (h, t) = (s.head as usize, s.tail as usize);
        let v = vec![al.cx(h, i, NEG), al.cy(h, i, NEG), al.cx(t, i, POS), al.cy(t, i, NEG)];
        let ok = al.and(v);
        o.add(format!("the artificial points are not below and beside point {i}"), ok);
    }
}

/// C21
pub fn access<A: Alg>(al: &mut A, log: &Log, out: &Out, o: &mut Obs<A::B>) {
    let mut done: Option<&Vec<MeshTri>> = None;
    for (ei, (cb, s)) in log.evs.iter().enumerate() {
        let at = format!("at callback {ei} {cb:?}");
        let Some(s) = s else {
            o.fail(al, format!("nothing was seen {at}"));
            return;
        };
        if let Some(f) = &s.fault {
            o.fail(al, format!("an accessor contradicts the stored fields: {f} {at}"));
            return;
        }
        if *cb == Cb::SweepDone {
            done = Some(&s.tris);
        }
        if *cb != Cb::Finalized {
            if !s.result.is_empty() || !s.interior.is_empty() {
                o.fail(al, format!("result {:?}, interior {:?} {at}", s.result, s.interior));
                return;
            }
            continue;
        }
        if done != Some(&s.tris) {
            o.fail(al, "the mesh changes after sweep_done".into());
            return;
        }
        let corners: Vec<[usize; 3]> = s.result.iter().filter_map(|&t| s.tris.get(t)).map(|t| t.p.map(|p| p as usize)).collect();
        if corners.len() != s.result.len() || corners != tris(out) {
            o.fail(al, format!("finalized shows the result {corners:?}, returned is {:?}", tris(out)));
            return;
        }
        let mut r = s.result.clone();
        r.sort();
        if r != s.interior {
            o.fail(al, format!("the result is {r:?}, marked as interior are {:?}", s.interior));
            return;
        }
    }
    if done.is_none() {
        o.fail(al, "sweep_done is missing".into());
    }
}

/// C22: the border of the stored triangles is the base and the front
pub fn swept<A: Alg>(al: &mut A, log: &Log, o: &mut Obs<A::B>) {
    let mut entered: BTreeSet<u32> = BTreeSet::new();
    let mut lowest = None;
    for (ei, (cb, s)) in log.evs.iter().enumerate() {
        if let Cb::Enter(p) = cb {
            entered.insert(*p);
        }
        let Some(s) = s else { continue };
        let at = format!("at callback {ei} {cb:?}");
        if lowest.is_none() {
            // the first triangle is that of the lowest point
            lowest = s.tris.first().and_then(|t| t.p.iter().copied().find(|&p| p != log.head && p != log.tail));
        }
        if !matches!(cb, Cb::Exit(_) | Cb::Edge(..) | Cb::SweepDone) {
            continue;
        }
        let mut want: BTreeSet<u32> = entered.clone();
        want.extend([log.head, log.tail]);
        want.extend(lowest);
        let used: BTreeSet<u32> = s.tris.iter().flat_map(|t| t.p).collect();
        if used != want {
            let odd: Vec<&u32> = used.symmetric_difference(&want).collect();
            o.fail(al, format!("of the swept points, {odd:?} are not in the mesh, or are and should not {at}"));
            return;
        }
        let mut border: BTreeSet<(u32, u32)> = BTreeSet::new();
        for t in &s.tris {
            for k in 0..3 {
                let (a, b) = (t.p[k], t.p[(k + 1) % 3]);
                if !border.remove(&(b, a)) && !border.insert((a, b)) {
                    o.fail(al, format!("two triangles on the same side of {a}-{b} {at}"));
                    return;
                }
            }
        }
        let mut chain: BTreeSet<(u32, u32)> = s.front.windows(2).map(|w| (w[1].p, w[0].p)).collect();
        chain.insert((log.head, log.tail));
        if border != chain {
            o.fail(al, format!("the border of the mesh is {border:?} instead of base and front {chain:?} {at}"));
            return;
        }
    }
}

/// C23
pub fn rotations<A: Alg>(al: &mut A, spec: &Spec, log: &Log, o: &mut Obs<A::B>) {
    let n = spec.n();
    let sorted = |t: &MeshTri| {
        let mut p = t.p;
        p.sort();
        p
    };
    let mut seen = HashSet::new();
    let mut before: Option<(&Cb, &Vec<MeshTri>)> = None;
    let mut legalizing = false;
    for (ei, (cb, s)) in log.evs.iter().enumerate() {
        let Some(s) = s else {
            o.fail(al, format!("nothing was seen at callback {ei}"));
            return;
        };
        let now = &s.tris;
        let at = format!("at callback {ei} {cb:?}");
        if let Some((last, old)) = before {
            // new triangles come one by one and are announced at once
            let new = now.len().wrapping_sub(old.len());
            if new != 0 && !(new == 1 && *cb == Cb::WillLegalize(old.len())) {
                o.fail(al, format!("there are {} triangles after {} {at}", now.len(), old.len()));
                return;
            }
            if legalizing {
                let changed: Vec<usize> = (0..old.len()).filter(|&i| sorted(&old[i]) != sorted(&now[i])).collect();
                if let Cb::Rotated(t, u) = *last {
                    // the quadrilateral before: p, a, q, b with the diagonal a-b; checked there
                    let (x, y) = (&old[t], &old[u]);
                    let a: Vec<u32> = x.p.iter().copied().filter(|p| y.p.contains(p)).collect();
                    let p = x.p.iter().copied().find(|p| !y.p.contains(p));
                    let q = y.p.iter().copied().find(|p| !x.p.contains(p));
                    let (Some(p), Some(q), &[a, b]) = (p, q, &a[..]) else { return };
                    let tri = |c: u32| {
                        let mut t = [p, q, c];
                        t.sort();
                        t
                    };
                    let got = [sorted(&now[t]), sorted(&now[u])];
                    if changed.iter().any(|&i| i != t && i != u) || got != [tri(a), tri(b)] && got != [tri(b), tri(a)] {
                        o.fail(al, format!("rotating triangles {t}, {u} changes {changed:?}: {:?} {:?} to {:?} {:?} {at}", x.p, y.p, now[t].p, now[u].p));
                        return;
                    }
                } else if !changed.is_empty() {
                    o.fail(al, format!("triangles {changed:?} change in a legalization without a reported rotation {at}"));
                    return;
                }
            }
        }
        match *cb {
            Cb::WillLegalize(_) => legalizing = true,
            Cb::Legalized(_) => legalizing = false,
            Cb::Rotated(t, u) => {
                let (Some(x), Some(y)) = (now.get(t), now.get(u)) else {
                    o.fail(al, format!("unknown triangles {at}"));
                    return;
                };
                let Some(k) = (0..3).find(|&k| x.nb[k] == u && !y.p.contains(&x.p[k]) && y.p.contains(&x.p[(k + 1) % 3]) && y.p.contains(&x.p[(k + 2) % 3])) else {
                    o.fail(al, format!("the triangles are no neighbours {at}"));
                    return;
                };
                if x.con[k] {
                    o.fail(al, format!("the edge between the triangles is constrained {at}"));
                    return;
                }
                let kk = (0..3).find(|&q| !x.p.contains(&y.p[q])).unwrap();
                let q = [x.p[k], x.p[(k + 1) % 3], x.p[(k + 2) % 3], y.p[kk]].map(|p| p as usize);
                if q.iter().any(|&p| p >= n + 2) {
                    o.fail(al, format!("unknown corners {at}"));
                    return;
                }
                if seen.insert(q) {
                    // the circle of a flat triangle (C09) says nothing
                    let ccw = al.orient(q[0], q[1], q[2], POS);
                    let flat = al.not(ccw);
                    let c = al.incircle(q[0], q[1], q[2], q[3], POS);
                    let ok = al.or(vec![flat, c]);
                    o.add(format!("the edge between {:?} and {:?} was legal {at}", x.p, y.p), ok);
                }
            }
            _ => {}
        }
        before = Some((cb, now));
    }
}

/// C15: `perm[j]` is the point of the first presentation that is point j of the second one
pub fn presentation<A: Alg>(al: &mut A, spec: &Spec, a: &Out, b: &Out, perm: &[usize], o: &mut Obs<A::B>) {
    let n = spec.n();
    if !basic(al, n, a, o) || !basic(al, n, b, o) {
        return;
    }
    let norm = |t: [usize; 3]| {
        let mut t = t;
        t.sort();
        t
    };
    let sa: BTreeSet<[usize; 3]> = tris(a).into_iter().map(norm).collect();
    let sb: BTreeSet<[usize; 3]> =
        tris(b).into_iter().map(|t| norm([perm[t[0]], perm[t[1]], perm[t[2]]])).collect();
    if sa == sb && a.indices.len() == b.indices.len() {
        return;
    }
    let what = format!("another presentation gives other triangles: {sa:?} and {sb:?}");
    // an edge that only one of the results has must lie between cocircular points
    let edges = |s: &BTreeSet<[usize; 3]>| -> BTreeSet<(usize, usize)> {
        s.iter().flat_map(|t| [key(t[0], t[1]), key(t[1], t[2]), key(t[0], t[2])]).collect()
    };
    let (ea, eb) = (edges(&sa), edges(&sb));
    let cons = ring_edge_set(spec);
    let mapped: Vec<[usize; 3]> = tris(b).into_iter().map(|t| [perm[t[0]], perm[t[1]], perm[t[2]]]).collect();
    let mut only = 0;
    for (ts, mine, other) in [(tris(a), &ea, &eb), (mapped, &eb, &ea)] {
        let mut left: BTreeSet<(usize, usize)> = mine.difference(other).copied().collect();
        only += left.len();
        for (x, y, c, d) in shared(&ts) {
            if c != d && !cons.contains(&key(x, y)) && left.remove(&key(x, y)) {
                let tie = al.incircle(x, y, c, d, ZERO);
                o.add(what.clone(), tie);
            }
        }
        if !left.is_empty() {
            o.fail(al, what.clone());
        }
    }
    if only == 0 || a.indices.len() != b.indices.len() {
        o.fail(al, what);
    }
}

/// C17: points n.. of the log are those loaded from the file
pub fn loaded<A: Alg>(al: &mut A, spec: &Spec, r: &Runs, o: &mut Obs<A::B>) {
    let n = spec.n();
    if let Some(e) = &r.error {
        o.fail(al, format!("the loader reports {e}"));
        return;
    }
    let Some(b) = r.more.first() else { return };
    if b.points.len() != n {
        o.fail(al, format!("{} points are loaded instead of {n}", b.points.len()));
        return;
    }
    for i in 0..n {
        let x = al.cx(i, n + i, ZERO);
        o.add(format!("x of point {i} is not the number in the file"), x);
        let y = al.cy(i, n + i, ZERO);
        o.add(format!("y of point {i} is not the number in the file"), y);
    }
    if b.indices != r.out.indices {
        o.fail(al, format!("the file gives triangles {:?}, the builder {:?}", b.indices, r.out.indices));
    }
}

/// All obligations of one property for one execution.
pub fn property<A: Alg>(al: &mut A, prop: &str, spec: &Spec, mode: &Mode, input: &[(Raw, Raw)], r: &Runs, o: &mut Obs<A::B>) {
    match prop {
        // C01, C14: nothing to check after a normal return
        "C01" | "C14" => {}
        // for surveys only
        "ALL" => {
            vertices(al, spec, &r.out, o);
            constraints(al, spec, &r.out, o);
            delaunay(al, spec, &r.out, o);
            api(al, spec, input, &r.out, o);
            protocol(al, spec, &r.log, o);
            mesh(al, spec, &r.log, o);
            persistence(al, spec, &r.log, o);
            front(al, spec, &r.log, o);
            legal(al, spec, &r.log, o);
            swept(al, &r.log, o);
            rotations(al, spec, &r.log, o);
        }
        "C02" => tiling(al, spec, &r.out, o),
        "C03" => constraints(al, spec, &r.out, o),
        "C04" => delaunay(al, spec, &r.out, o),
        "C05" => vertices(al, spec, &r.out, o),
        "C06" => {
            for f in &r.faults {
                o.fail(al, f.clone());
            }
            api(al, spec, input, &r.out, o)
        }
        "C07" => {
            for (i, b) in r.more.iter().enumerate() {
                let what = ["a cloned builder gives another result", "a cloned CDT with an observer gives another result", "the original CDT gives another result than its clone"];
                same(al, &r.out, b, true, what.get(i).copied().unwrap_or("another run differs"), o);
            }
        }
        "C08" => protocol(al, spec, &r.log, o),
        "C09" => mesh(al, spec, &r.log, o),
        "C10" => persistence(al, spec, &r.log, o),
        "C11" => front(al, spec, &r.log, o),
        "C12" => legal(al, spec, &r.log, o),
        "C19" => truth(al, spec, &r.log, o),
        "C20" => store(al, spec, input, &r.log, o),
        "C21" => access(al, &r.log, &r.out, o),
        "C22" => swept(al, &r.log, o),
        "C23" => rotations(al, spec, &r.log, o),
        "C13" => {
            for b in &r.more {
                same(al, &r.out, b, false, "the scaled input gives another result", o);
            }
        }
        "C24" => {
            for b in &r.more {
                same(al, &r.out, b, false, "the moved input gives another result", o);
            }
        }
        "C25" => {
            let perm: Vec<usize> = (0..spec.n()).collect();
            for b in &r.more {
                presentation(al, spec, &r.out, b, &perm, o);
            }
        }
        "C15" => {
            if let Mode::NegZero(_) = mode {
                for b in &r.more {
                    same(al, &r.out, b, false, "negative zeros give another result", o);
                }
            }
            if let Mode::Perm(_, perm) = mode {
                for b in &r.more {
                    presentation(al, spec, &r.out, b, perm, o);
                }
            }
        }
        "C17" => loaded(al, spec, r, o),
        "C16" => {
            tiling(al, spec, &r.out, o);
            delaunay(al, spec, &r.out, o);
        }
        _ => panic!("no such property: {prop}"),
    }
}
