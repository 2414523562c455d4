//! Drives the public API of poly2tri_rs. Compiled twice: natively, and through the symbolic
//! rewriting, so it only moves coordinates around and never computes with them.
use poly2tri_rs::{AsPoint, Builder, Edge, Float, Observer, Point, PointId, Sweeper, TriangleId, CDT};
use wire::*;

/// words per float in `Raw`
#[inline(never)]
fn raw(f: &Float) -> Raw {
    if core::mem::size_of::<Float>() == 8 {
        unsafe { *(f as *const Float as *const u64) }
    } else {
        unsafe { *(f as *const Float as *const u32) as u64 }
    }
}

#[inline(never)]
fn flt(r: &Raw) -> Float {
    if core::mem::size_of::<Float>() == 8 {
        unsafe { *(r as *const u64 as *const Float) }
    } else {
        let w = *r as u32;
        unsafe { *(&w as *const u32 as *const Float) }
    }
}

pub const IS_F32: bool = core::mem::size_of::<Float>() == 4;

fn pt(c: &(Raw, Raw)) -> Point {
    Point { x: flt(&c.0), y: flt(&c.1) }
}

pub fn builder(spec: &Spec, c: &[(Raw, Raw)]) -> Builder<u32> {
    builder_with(spec, c, data_of)
}

fn builder_with<D>(spec: &Spec, c: &[(Raw, Raw)], data: impl Fn(usize) -> D) -> Builder<D> {
    let mut i = 0;
    let mut take = |n: usize| {
        let v: Vec<Point> = c[i..i + n].iter().map(pt).collect();
        let d: Vec<D> = (i..i + n).map(&data).collect();
        i += n;
        (v, d)
    };
    let mut b: Option<Builder<D>> = None;
    for op in &spec.ops {
        b = Some(match op {
            Op::Outer(n) => Builder::new(take(*n)),
            Op::Hole(n) => b.unwrap().add_hole(take(*n)),
            Op::Holes(v) => {
                let hs: Vec<(Vec<Point>, Vec<D>)> = v.iter().map(|n| take(*n)).collect();
                b.unwrap().add_holes(hs)
            }
            Op::Steiner => {
                let (p, mut d) = take(1);
                b.unwrap().add_steiner_point(p[0], d.remove(0))
            }
            Op::Steiners(n) => b.unwrap().add_steiner_points(take(*n)),
        });
    }
    b.unwrap()
}

/// plain points without data
fn builder_plain(spec: &Spec, c: &[(Raw, Raw)]) -> Builder {
    let mut i = 0;
    let mut take = |n: usize| {
        let v: Vec<Point> = c[i..i + n].iter().map(pt).collect();
        i += n;
        v
    };
    let mut b: Option<Builder> = None;
    for op in &spec.ops {
        b = Some(match op {
            Op::Outer(n) => Builder::new(take(*n)),
            Op::Hole(n) => b.unwrap().add_hole(take(*n)),
            Op::Holes(v) => {
                let hs: Vec<Vec<Point>> = v.iter().map(|n| take(*n)).collect();
                b.unwrap().add_holes(hs)
            }
            Op::Steiner => b.unwrap().add_steiner_point(take(1)[0], ()),
            Op::Steiners(n) => b.unwrap().add_steiner_points(take(*n)),
        });
    }
    b.unwrap()
}

struct Rec<'a> {
    watch: Watch,
    log: &'a mut Log,
    n: usize,
    asked: usize,
    events: usize,
    /// front nodes met earlier: the point, and what asking for the node, the node after it and
    /// the node before it finds
    ids: Vec<(u32, [Option<Look>; 2])>,
}

type Look = Box<dyn Fn(&Sweeper, &Chain) -> [u32; 3]>;

/// The front as iteration shows it: the point and triangle of each node, and the points' places.
struct Chain {
    nodes: Vec<(u32, usize)>,
    place: std::collections::BTreeMap<u32, usize>,
}

/// A node in other words: point, triangle, the points of the nodes before and after it, whether
/// the coordinates are those of the point.
type Seen = (u32, usize, u32, u32, bool);

/// what a node of the front (its type has no public name) says
macro_rules! seen {
    ($node:expr, $ctx:expr) => {
        $node.map(|n| {
            let at = n.point();
            (
                n.point_id().as_u32(),
                tri(n.triangle),
                n.prev().map_or(NOPT, |m| m.point_id().as_u32()),
                n.next().map_or(NOPT, |m| m.point_id().as_u32()),
                $ctx.points.get_point(n.point_id()).is_some_and(|q| same(&q, &at)),
            )
        })
    };
}

impl Chain {
    /// the point of a node; ODD if it is not the node that iteration shows for this point
    fn of(&self, n: Option<Seen>) -> u32 {
        let Some((p, t, prev, next, own)) = n else { return NOPT };
        let Some(&i) = self.place.get(&p) else { return p };
        let at = |k: usize| self.nodes.get(k).map_or(NOPT, |n| n.0);
        if own && t == self.nodes[i].1 && prev == at(i.wrapping_sub(1)) && next == at(i + 1) {
            p
        } else {
            ODD
        }
    }
}

impl<'a> Rec<'a> {
    fn new(watch: Watch, log: &'a mut Log, n: usize) -> Self {
        Rec { watch, log, n, asked: 0, events: 0, ids: vec![] }
    }
}

fn tri(t: Option<TriangleId>) -> usize {
    match t {
        Some(t) if !t.invalid() => t.as_usize(),
        _ => NOTRI,
    }
}

impl Rec<'_> {
    fn ev(&mut self, cb: Cb, ctx: &Sweeper, event: bool) {
        if self.log.pts.is_empty() {
            for (_, p, _) in ctx.points.iter() {
                self.log.pts.push((raw(&p.x), raw(&p.y)));
            }
            self.log.head = ctx.points.head.as_u32();
            self.log.tail = ctx.points.tail.as_u32();
        }
        // of large inputs only some callbacks, always the first and the last ones
        let stride = if self.n > 160 { self.n / 25 } else { 1 };
        let last = matches!(cb, Cb::SweepDone | Cb::Finalized);
        self.events += event as usize;
        let turn = if event { self.events } else { self.log.evs.len() };
        let skip = turn % stride != 0 && !last && self.log.evs.len() > 1;
        let snap = match self.watch {
            Watch::Front | Watch::Store | Watch::Truth if skip => None,
            Watch::None | Watch::Events => None,
            Watch::Front | Watch::Full | Watch::Hostile if event => {
                let mut s = self.mesh(ctx);
                self.front(ctx, &mut s);
                Some(s)
            }
            Watch::Mesh | Watch::Full => Some(self.mesh(ctx)),
            Watch::Front => None,
            Watch::Hostile => {
                if cb == Cb::Finalized {
                    self.hostile(ctx);
                }
                None
            }
            Watch::Store => {
                let now = store(ctx);
                let mut s = Snap::default();
                match &self.log.store {
                    None => self.log.store = Some(now),
                    Some(st) => s.store_changed = *st != now,
                }
                Some(s)
            }
            Watch::Access => {
                let mut s = Snap::default();
                s.result = ctx.result.iter().map(|t| t.as_usize()).collect();
                s.interior = ctx.triangles.iter().filter(|(_, t)| t.interior).map(|(i, _)| i.as_usize()).collect();
                // in legalizations sometimes
                self.asked += !event as usize;
                if !skip && (event || self.asked % 3 == 1 || cb == Cb::Finalized) {
                    s.fault = accessors(ctx, matches!(cb, Cb::SweepDone | Cb::Finalized)).err();
                }
                if matches!(cb, Cb::SweepDone | Cb::Finalized) {
                    s.tris = self.mesh(ctx).tris;
                }
                Some(s)
            }
            Watch::Truth => {
                // asking costs a predicate for each edge: always after an event, else sometimes
                self.asked += !event as usize;
                if event && !matches!(cb, Cb::Enter(_) | Cb::SweepDone) || !event && self.asked % 3 != 1 {
                    None
                } else {
                    let mut s = self.mesh(ctx);
                    let v = ctx.illegal_triangles().iter().map(|(a, b)| (a.as_usize(), b.as_usize())).collect();
                    s.illegal = Some((v, ctx.verify_triangles()));
                    Some(s)
                }
            }
        };
        self.log.evs.push((cb, snap));
    }

    fn mesh(&self, ctx: &Sweeper) -> Snap {
        let mut s = Snap::default();
        for (_, t) in ctx.triangles.iter() {
            s.tris.push(MeshTri {
                p: [t.points[0].as_u32(), t.points[1].as_u32(), t.points[2].as_u32()],
                nb: [tri(Some(t.neighbors[0])), tri(Some(t.neighbors[1])), tri(Some(t.neighbors[2]))],
                con: [t.is_constrained(0), t.is_constrained(1), t.is_constrained(2)],
            });
        }
        s.result = ctx.result.iter().map(|t| t.as_usize()).collect();
        s
    }

    fn front(&mut self, ctx: &Sweeper, s: &mut Snap) {
        let af = &ctx.advancing_front;
        let nodes: Vec<_> = af.iter().map(|n| (n.point_id().as_u32(), tri(n.triangle))).collect();
        let chain = Chain { place: nodes.iter().enumerate().map(|(i, n)| (n.0, i)).collect(), nodes };
        for node in af.iter() {
            let p = node.point();
            s.front.push(FrontNode {
                p: node.point_id().as_u32(),
                tri: tri(node.triangle),
                located: chain.of(seen!(af.locate_node(p), ctx)),
                got: chain.of(seen!(af.get_node(p), ctx)),
                prev: chain.of(seen!(node.prev(), ctx)),
                next: chain.of(seen!(node.next(), ctx)),
                own: {
                    let id = node.get_node_id();
                    let stored = ctx.points.get_point(node.point_id());
                    id.point_id() == node.point_id() && same(&id.point(), &p) && stored.is_some_and(|q| same(&q, &p))
                },
            });
        }
        for (id, p, _) in ctx.points.iter() {
            if id.as_usize() < self.n {
                let l = chain.of(seen!(af.locate_node(*p), ctx));
                let g = chain.of(seen!(af.get_node(*p), ctx));
                s.probes.push((id.as_u32(), l, g));
            }
        }
        let inf = Float::INFINITY;
        for (x, y) in [(-inf, -inf), (-inf, inf), (inf, -inf), (inf, inf)] {
            let p = Point { x, y };
            let l = chain.of(seen!(af.locate_node(p), ctx));
            let g = chain.of(seen!(af.get_node(p), ctx));
            s.far.push((l, g));
        }
        s.nth = [0, 1, s.front.len() - 1, s.front.len(), s.front.len() + 1, usize::MAX]
            .map(|k| chain.of(seen!(af.nth(k), ctx)));
        // ids kept from earlier events: the nodes have moved or are gone
        for (p, looks) in &self.ids {
            for look in looks.iter().flatten() {
                s.kept.push((*p, look(ctx, &chain)));
            }
        }
        for node in af.iter() {
            let p = node.point_id().as_u32();
            let id = node.get_node_id();
            let look: Look = Box::new(move |ctx, chain| {
                let af = &ctx.advancing_front;
                [af.get_node_with_id(id), af.locate_next_node(id), af.locate_prev_node(id)]
                    .map(|n| chain.of(seen!(n, ctx)))
            });
            // the first one and the latest one
            match self.ids.iter_mut().find(|e| e.0 == p) {
                Some(e) => e.1[1] = Some(look),
                None => self.ids.push((p, [Some(look), None])),
            }
        }
    }
}

/// what the requests find is of no interest
#[inline(never)]
fn sink(log: &mut Log, v: u32) {
    log.head ^= v & 1;
    log.head ^= v & 1;
}

fn quiet(f: impl FnOnce()) {
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
}

impl Rec<'_> {
    /// requests with ids, indices and positions out of range: they may panic, no more
    fn hostile(&mut self, ctx: &Sweeper) {
        let n = ctx.triangles.len();
        for i in [n, n + 1, usize::MAX - 1, usize::MAX] {
            let t = TriangleId::from_index(i);
            if let Some(t) = t.try_get(&ctx.triangles) {
                sink(self.log, t.points[0].as_u32());
            }
        }
        let m = ctx.points.len();
        for k in [m - 2, m - 1, m, usize::MAX] {
            if let Some(i) = ctx.points.get_id_by_y(k) {
                sink(self.log, i.as_u32());
            }
            for (i, p, _) in ctx.points.iter_point_by_y(k) {
                sink(self.log, i.as_u32() ^ (raw(&p.x) as u32));
            }
        }
        let nan = Float::NAN;
        for (x, y) in [(nan, nan), (nan, 0.0), (0.0, nan)] {
            let p = Point { x, y };
            let a = ctx.advancing_front.locate_node(p).map_or(0, |n| n.point_id().as_u32());
            let b = ctx.advancing_front.get_node(p).map_or(0, |n| n.point_id().as_u32());
            sink(self.log, a ^ b);
        }
        for t in &ctx.result {
            if let Some(t) = t.try_get(&ctx.triangles) {
                sink(self.log, t.points[0].as_u32());
            }
        }
        for i in [n, n + 1, usize::MAX] {
            let t = TriangleId::from_index(i);
            quiet(|| sink(self.log, t.get(&ctx.triangles).points[0].as_u32()));
        }
    }
}

/// bit for bit
fn same(a: &Point, b: &Point) -> bool {
    raw(&a.x) == raw(&b.x) && raw(&a.y) == raw(&b.y)
}

macro_rules! must {
    ($c:expr, $($w:tt)*) => {
        if !$c {
            return Err(format!($($w)*));
        }
    };
}

#[cfg(no_access)]
fn accessors(_: &Sweeper, _: bool) -> Result<(), String> {
    Ok(())
}

/// Everything that triangles and their store say about themselves, against their fields.
#[cfg(not(no_access))]
fn accessors(ctx: &Sweeper, thorough: bool) -> Result<(), String> {
    let ts = &ctx.triangles;
    let none = TriangleId::INVALID;
    must!(none.invalid() && none.into_option().is_none() && none.try_get(ts).is_none(), "the invalid id is not invalid");
    must!(TriangleId::from_index(ts.len()).try_get(ts).is_none(), "an id that is not in use finds a triangle");
    must!(ts.iter().count() == ts.len(), "the number of triangles differs from those iterated");
    for (i, (id, t)) in ts.iter().enumerate() {
        must!(id.as_usize() == i && id == TriangleId::from_index(i) && !id.invalid() && id.into_option() == Some(id), "id of triangle {i}");
        for u in [ts.get(id), id.try_get(ts), Some(id.get(ts)), Some(ts.get_unchecked(id))] {
            must!(u.is_some_and(|u| u.points == t.points && u.neighbors == t.neighbors && u.interior == t.interior), "the id of triangle {i} finds another one");
        }
        let foreign = ctx.points.iter().map(|(p, _, _)| p).find(|p| !t.points.contains(p));
        if let Some(f) = foreign {
            must!(t.point_index(f).is_none() && t.edge_index(f, t.points[0]).is_none() && t.edge_index(t.points[1], f).is_none(), "triangle {i} finds a foreign point");
        }
        for k in 0..3 {
            let (p, a, b) = (t.points[k], t.points[(k + 1) % 3], t.points[(k + 2) % 3]);
            must!(t.point_ccw(p) == a && t.point_cw(p) == b && t.point_index(p) == Some(k), "corners of triangle {i}");
            must!(t.edge_index(a, b) == Some(k) && t.edge_index(b, a) == Some(k) && t.edge_index(p, p).is_none(), "edge index of triangle {i}");
            let nb = t.neighbors;
            must!(t.neighbor_across(p) == nb[k] && t.neighbor_ccw(p) == nb[(k + 2) % 3] && t.neighbor_cw(p) == nb[(k + 1) % 3], "neighbours of triangle {i}");
            must!(t.constrained_edge_cw(p) == t.is_constrained((k + 1) % 3), "constrained edge of triangle {i}");
            if thorough {
                let attr = |k: usize| format!("{:?}", t.edge_attrs[k % 3]);
                must!(format!("{:?}", t.edge_attr_ccw(p)) == attr(k + 2) && format!("{:?}", t.edge_attr_cw(p)) == attr(k + 1), "attributes of triangle {i}");
                // on a copy
                let (con, del) = ([0, 1, 2].map(|j| t.is_constrained(j)), [0, 1, 2].map(|j| t.is_delaunay(j)));
                let mut c = *t;
                c.set_constrained(k, !con[k]);
                let mut d = *t;
                d.set_delaunay(k, !del[k]);
                for j in 0..3 {
                    must!(c.is_constrained(j) == (con[j] != (j == k)) && c.is_delaunay(j) == del[j], "setting a mark of triangle {i}");
                    must!(d.is_delaunay(j) == (del[j] != (j == k)) && d.is_constrained(j) == con[j], "setting a flag of triangle {i}");
                }
                let mut c = *t;
                c.set_constrained_for_edge(b, a);
                must!((0..3).all(|j| c.is_constrained(j) == (con[j] || j == k)), "marking an edge of triangle {i}");
                let mut c = *t;
                c.set_edge_attr_ccw(p, t.edge_attrs[k]);
                let mut d = *t;
                d.set_edge_attr_cw(p, t.edge_attrs[k]);
                for j in 0..3 {
                    must!(c.is_constrained(j) == con[if j == (k + 2) % 3 { k } else { j }], "setting attributes of triangle {i}");
                    must!(d.is_constrained(j) == con[if j == (k + 1) % 3 { k } else { j }], "setting attributes of triangle {i}");
                }
                c.clear_neighbors();
                must!(c.neighbors == [none; 3], "clearing the neighbours of triangle {i}");
                if let Some(f) = foreign {
                    // the corner clockwise of p stays after p, the other one is exchanged for f
                    let mut c = *t;
                    c.rotate_cw(p, f);
                    let at = c.points.iter().position(|&q| q == p);
                    must!(at.is_some_and(|j| c.points[(j + 1) % 3] == f && c.points[(j + 2) % 3] == b), "rotating triangle {i}");
                }
            }
            // the neighbour
            if nb[k].invalid() {
                continue;
            }
            let Some(u) = ts.get(nb[k]) else { return Err(format!("triangle {i} has an unknown neighbour")) };
            must!(t.neighbor_index(nb[k]) <= k && nb[t.neighbor_index(nb[k])] == nb[k], "neighbour index of triangle {i}");
            if let Some(kk) = (0..3).find(|&q| u.points[(q + 1) % 3] == b && u.points[(q + 2) % 3] == a) {
                must!(u.opposite_point(t, p) == u.points[kk], "opposite point of triangle {i}");
                must!(t.common_edge_index(u) == Some((k, kk)), "common edge of triangle {i}");
            }
        }
        // most others have no common edge
        for (j, u) in ts.iter().skip(i + 1).take(3).map(|(j, u)| (j.as_usize(), u)) {
            let common = t.points.iter().filter(|p| u.points.contains(p)).count();
            must!(common > 1 || t.common_edge_index(u).is_none(), "triangles {i} and {j} are said to have a common edge");
        }
    }
    Ok(())
}

fn store(ctx: &Sweeper) -> Store {
    let p = ctx.points;
    let row = |x: &Point| (raw(&x.x), raw(&x.y));
    let mut s = Store {
        len: p.len(),
        points: pts(p.points()),
        without_fake: pts(p.points_without_fake()),
        head: p.head.as_u32(),
        tail: p.tail.as_u32(),
        ..Default::default()
    };
    for (id, x, e) in p.iter() {
        s.iter.push((id.as_u32(), row(x), e.map(|q| q.as_u32()).collect()));
        s.got.push(p.get_point(id).map(|x| row(&x)));
    }
    for (id, x, e) in p.iter_without_fake() {
        s.iter_without_fake.push((id.as_u32(), row(x), e.map(|q| q.as_u32()).collect()));
    }
    for k in 0..s.len + 2 {
        let id = p.get_id_by_y(k).map_or(NOPT, |i| i.as_u32());
        let count = p.iter_point_by_y(k).count();
        let first = p.iter_point_by_y(k).next().map(|(i, x, e)| (i.as_u32(), row(&x), e.map(|q| q.as_u32()).collect()));
        s.by_y.push((id, count, first));
    }
    s
}

impl Observer for Rec<'_> {
    fn enter_point_event(&mut self, id: PointId, ctx: &Sweeper) {
        self.ev(Cb::Enter(id.as_u32()), ctx, true)
    }
    fn exit_point_event(&mut self, id: PointId, ctx: &Sweeper) {
        self.ev(Cb::Exit(id.as_u32()), ctx, true)
    }
    fn edge_event(&mut self, e: Edge, ctx: &Sweeper) {
        self.ev(Cb::Edge(e.p.as_u32(), e.q.as_u32()), ctx, true)
    }
    fn sweep_done(&mut self, ctx: &Sweeper) {
        self.ev(Cb::SweepDone, ctx, true)
    }
    fn finalized(&mut self, ctx: &Sweeper) {
        self.ev(Cb::Finalized, ctx, false)
    }
    fn will_legalize(&mut self, t: TriangleId, ctx: &Sweeper) {
        self.ev(Cb::WillLegalize(t.as_usize()), ctx, false)
    }
    fn legalize_step(&mut self, t: TriangleId, ctx: &Sweeper) {
        self.ev(Cb::LegalizeStep(t.as_usize()), ctx, false)
    }
    fn triangle_rotated(&mut self, t: TriangleId, o: TriangleId, ctx: &Sweeper) {
        self.ev(Cb::Rotated(t.as_usize(), o.as_usize()), ctx, false)
    }
    fn legalized(&mut self, t: TriangleId, ctx: &Sweeper) {
        self.ev(Cb::Legalized(t.as_usize()), ctx, false)
    }
}

/// only looks at the front
struct Keep<'a, 'b>(&'a mut Rec<'b>);
impl Observer for Keep<'_, '_> {
    fn exit_point_event(&mut self, _: PointId, ctx: &Sweeper) {
        self.0.front(ctx, &mut Snap::default());
    }
    fn sweep_done(&mut self, ctx: &Sweeper) {
        self.0.front(ctx, &mut Snap::default());
    }
}

fn pts(v: &[Point]) -> Vec<(Raw, Raw)> {
    v.iter().map(|p| (raw(&p.x), raw(&p.y))).collect()
}

macro_rules! run_collect {
    ($t:expr) => {{
        let mut t = $t;
        let mut o = Out {
            indices: t.triangle_list_indices(),
            points: pts(t.points()),
            data: t.data().to_vec(),
            ..Default::default()
        };
        let cap = o.indices.len() + 8;
        let mut first = true;
        loop {
            let Some(tr) = t.next() else { break };
            let p = &tr.points;
            o.iter.push([
                (raw(&p[0].x), raw(&p[0].y)),
                (raw(&p[1].x), raw(&p[1].y)),
                (raw(&p[2].x), raw(&p[2].y)),
            ]);
            if first {
                o.indices_mid = t.triangle_list_indices();
                first = false;
            }
            if o.iter.len() > cap {
                break;
            }
        }
        if first {
            o.indices_mid = t.triangle_list_indices();
        }
        for _ in 0..2 {
            if t.next().is_some() {
                o.extra_next += 1;
            }
        }
        o.indices_after = t.triangle_list_indices();
        o.points_after = pts(t.points());
        o.data_after = t.data().to_vec();
        o
    }};
}

/// Build, triangulate and read everything the result offers.
pub fn run(spec: &Spec, c: &[(Raw, Raw)], watch: Watch, log: &mut Log) -> Out {
    let cdt = builder(spec, c).build();
    match watch {
        Watch::None => run_collect!(cdt.triangulate()),
        _ => {
            let mut rec = Rec::new(watch, log, c.len());
            if watch == Watch::Hostile {
                // ids of nodes of another front: more nodes, or other points
                quiet(|| drop(builder(spec, c).build().triangulate_with_observer(&mut Keep(&mut rec))));
                let small = vec![Point::new(0., 0.), Point::new(10., 0.), Point::new(0., 10.)];
                quiet(|| drop(Builder::new(small).build().triangulate_with_observer(&mut Keep(&mut rec))));
            }
            run_collect!(cdt.triangulate_with_observer(&mut rec))
        }
    }
}

/// The results of: a clone of the builder, the builder, a clone of the CDT with a reading
/// observer, the CDT.
pub fn run_clones(spec: &Spec, c: &[(Raw, Raw)]) -> Vec<Out> {
    let b = builder(spec, c);
    let b2 = b.clone();
    let o1 = run_collect!(b2.build().triangulate());
    let cdt = b.build();
    let cdt2 = cdt.clone();
    let mut log = Log::default();
    let mut rec = Rec::new(Watch::Front, &mut log, c.len());
    let o2 = run_collect!(cdt2.triangulate_with_observer(&mut rec));
    let o3 = run_collect!(cdt.triangulate());
    vec![o1, o2, o3]
}

type Corners = [(Raw, Raw); 3];

fn corners(t: &poly2tri_rs::Triangle) -> Corners {
    [0, 1, 2].map(|k| (raw(&t.points[k].x), raw(&t.points[k].y)))
}

/// Other ways of iterating, and points with other data or without: all have to give the same.
fn styles(spec: &Spec, c: &[(Raw, Raw)], out: &Out) -> Result<(), String> {
    let cdt: CDT<u32> = builder(spec, c).build();
    let all: &[Corners] = &out.iter;
    let m = all.len();
    let get = || cdt.clone().triangulate();

    let v: Vec<Corners> = get().map(|t| corners(&t)).collect();
    must!(v == all, "collect gives other triangles than next");
    let mut v = vec![];
    for t in get() {
        v.push(corners(&t));
    }
    must!(v == all, "a loop gives other triangles than next");
    let v = get().fold(vec![], |mut v, t| {
        v.push(corners(&t));
        v
    });
    must!(v == all, "fold gives other triangles than next");
    must!(get().count() == m, "count differs from the number of triangles");
    must!(get().last().map(|t| corners(&t)).as_ref() == all.last(), "last gives another triangle than next");
    must!(get().position(|_| false).is_none(), "position finds what is not there");

    // positions
    let mut ks = vec![0, 1, m / 2, m.saturating_sub(1), m, m + 1, usize::MAX];
    ks.dedup();
    for k in ks {
        let mut t = get();
        let hit = t.nth(k).map(|t| corners(&t));
        must!(hit.as_ref() == all.get(k), "nth({k}) gives another triangle than next");
        must!(t.triangle_list_indices() == out.indices, "the index list changes after nth({k})");
        let rest: Vec<Corners> = t.by_ref().map(|t| corners(&t)).collect();
        must!(rest[..] == all[k.saturating_add(1).min(m)..], "after nth({k}) the rest is not what next gives");
        must!(t.next().is_none() && t.nth(0).is_none(), "after nth({k}) and the rest there is more");
        let v: Vec<Corners> = get().skip(k).map(|t| corners(&t)).collect();
        must!(v[..] == all[k.min(m)..], "skip({k}) does not give what next gives");
        let mut t = get();
        let v: Vec<Corners> = t.by_ref().take(k).map(|t| corners(&t)).collect();
        must!(v[..] == all[..k.min(m)], "take({k}) does not give what next gives");
        must!(t.triangle_list_indices() == out.indices, "the index list changes after take({k})");
        must!(t.count() == m - k.min(m), "after take({k}) the count is wrong");
    }
    let v: Vec<Corners> = get().step_by(2).map(|t| corners(&t)).collect();
    must!(v.iter().eq(all.iter().step_by(2)), "step_by does not give what next gives");

    // what is left
    let mut t = get();
    for i in 0..=m {
        let (lo, hi) = t.size_hint();
        must!(lo <= m - i && hi.is_none_or(|h| h >= m - i), "size_hint is ({lo}, {hi:?}) with {} to come", m - i);
        if i < 4 || i % 7 == 0 || i + 2 > m {
            must!(t.triangle_list_indices() == out.indices && t.data() == out.data, "index list or data change after {i} steps");
        }
        t.next();
    }

    // data
    let t = builder_plain(spec, c).build().triangulate();
    must!(t.triangle_list_indices() == out.indices && t.data().len() == spec.n(), "points without data give another result");
    must!(pts(t.points()) == out.points, "points without data are given in another order");
    let t = builder_with(spec, c, |i| format!("data {i}")).build().triangulate();
    must!(t.triangle_list_indices() == out.indices, "points with other data give another result");
    must!(t.data().iter().enumerate().all(|(i, d)| *d == format!("data {i}")), "data that is not copied is given in another order");

    // the ways of giving a point
    for q in c {
        let p = pt(q);
        must!(same(&AsPoint::point(&p), &p) && same(&Point::new(p.x, p.y), &p), "a point is not the same as a point");
        must!(same(&(p, 5u8).point(), &p) && (p, 5u8).data() == 5, "a point with data is not the same as a point");
        must!(same(&([p.x, p.y], 6u8).point(), &p) && ([p.x, p.y], 6u8).data() == 6, "an array with data is not the same as a point");
    }
    Ok(())
}

/// `second` are the coordinates of the second run, for modes that have one.
pub fn execute(spec: &Spec, mode: &Mode, c: &[(Raw, Raw)], second: &[(Raw, Raw)], watch: Watch) -> Runs {
    let mut r = Runs::default();
    r.out = run(spec, c, watch, &mut r.log);
    match mode {
        Mode::Run => {}
        Mode::Clones => r.more = run_clones(spec, c),
        Mode::Styles => r.faults.extend(styles(spec, c, &r.out).err()),
        Mode::Load(_, path) => match run_loader(path, true) {
            Ok((points, indices)) => {
                r.log.pts = c.to_vec();
                r.log.pts.extend_from_slice(&points);
                r.more.push(Out { points, indices, ..Default::default() });
            }
            Err(e) => r.error = Some(e),
        },
        Mode::NegZero(mask) => {
            let minus = if IS_F32 { 1 << 31 } else { 1 << 63 };
            let neg = |v: Raw, k: usize| if v == 0 && mask >> (k % 64) & 1 == 1 { minus } else { v };
            let c2: Vec<(Raw, Raw)> = c.iter().enumerate().map(|(i, p)| (neg(p.0, 2 * i), neg(p.1, 2 * i + 1))).collect();
            r.more.push(run(spec, &c2, Watch::None, &mut Log::default()))
        }
        Mode::Scale(_) | Mode::Shift(..) | Mode::Turn(_) => r.more.push(run(spec, second, Watch::None, &mut Log::default())),
        Mode::Perm(s2, _) => r.more.push(run(s2, second, Watch::None, &mut Log::default())),
    }
    r
}

/// Load a file and triangulate what was loaded.
pub fn run_loader(path: &str, triangulate: bool) -> Result<(Vec<(Raw, Raw)>, Vec<u32>), String> {
    use poly2tri_rs::loader::Loader;
    let mut l = poly2tri_rs::loader::PlainFileLoader::default();
    match l.load(path) {
        Ok(b) => {
            if !triangulate {
                return Ok((vec![], vec![]));
            }
            let t = b.build().triangulate();
            Ok((pts(t.points()), t.triangle_list_indices()))
        }
        Err(e) => Err(format!("{e:?}")),
    }
}
