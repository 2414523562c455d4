//! Plain data shared by the driver (which runs poly2tri_rs), the property specifications, the
//! symbolic engine and the native replayer. Coordinates are raw machine words: either the bits of
//! a float or, in the symbolic build, the tag of a symbolic expression.

pub type Raw = u64;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Outer(usize),
    Hole(usize),
    Holes(Vec<usize>),
    Steiner,
    Steiners(usize),
}

/// What is triangulated: the sequence of builder calls. Points are numbered in call order.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Spec {
    pub ops: Vec<Op>,
}

impl Spec {
    pub fn n(&self) -> usize {
        self.ops
            .iter()
            .map(|o| match o {
                Op::Outer(n) | Op::Hole(n) | Op::Steiners(n) => *n,
                Op::Holes(v) => v.iter().sum(),
                Op::Steiner => 1,
            })
            .sum()
    }
    /// rings (outline first) and steiner points as point numbers
    pub fn shape(&self) -> (Vec<Vec<usize>>, Vec<usize>) {
        let mut rings = vec![];
        let mut st = vec![];
        let mut i = 0;
        for o in &self.ops {
            match o {
                Op::Outer(n) | Op::Hole(n) => {
                    rings.push((i..i + n).collect());
                    i += n;
                }
                Op::Holes(v) => {
                    for n in v {
                        rings.push((i..i + n).collect());
                        i += n;
                    }
                }
                Op::Steiner => {
                    st.push(i);
                    i += 1;
                }
                Op::Steiners(n) => {
                    st.extend(i..i + n);
                    i += n;
                }
            }
        }
        (rings, st)
    }
    pub fn to_text(&self) -> String {
        let v: Vec<String> = self
            .ops
            .iter()
            .map(|o| match o {
                Op::Outer(n) => format!("O{n}"),
                Op::Hole(n) => format!("H{n}"),
                Op::Holes(v) => {
                    format!("M{}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("/"))
                }
                Op::Steiner => "S".into(),
                Op::Steiners(n) => format!("B{n}"),
            })
            .collect();
        v.join(",")
    }
    pub fn parse(s: &str) -> Spec {
        let ops = s
            .split(',')
            .map(|t| {
                let r = &t[1..];
                match &t[..1] {
                    "O" => Op::Outer(r.parse().unwrap()),
                    "H" => Op::Hole(r.parse().unwrap()),
                    "M" => Op::Holes(
                        r.split('/').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
                    ),
                    "S" => Op::Steiner,
                    "B" => Op::Steiners(r.parse().unwrap()),
                    _ => panic!("bad op {t}"),
                }
            })
            .collect();
        Spec { ops }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Watch {
    /// `triangulate()`
    None,
    /// `triangulate_with_observer`, callbacks recorded
    Events,
    /// ... with a copy of the mesh at every callback
    Mesh,
    /// ... with a copy of mesh and front, and lookups in the front, at event callbacks
    Front,
    /// both of these
    Full,
    /// what the sweeper says about itself: a copy of the mesh and the pairs of triangles called
    /// illegal
    Truth,
    /// the point store at every callback
    Store,
    /// as `Front`, and requests with ids that do not belong to what is asked
    Hostile,
    /// the accessors of triangles and their store, and what is called interior
    Access,
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Cb {
    Enter(u32),
    Exit(u32),
    Edge(u32, u32),
    SweepDone,
    Finalized,
    WillLegalize(usize),
    LegalizeStep(usize),
    Rotated(usize, usize),
    Legalized(usize),
}

pub const NOTRI: usize = usize::MAX;

#[derive(Clone, Debug, Default, PartialEq, Hash)]
pub struct MeshTri {
    pub p: [u32; 3],
    pub nb: [usize; 3],
    pub con: [bool; 3],
}

#[derive(Clone, Debug, Default, PartialEq, Hash)]
pub struct FrontNode {
    pub p: u32,
    pub tri: usize,
    /// point found by locate_node(position of this node), get_node(position of this node)
    pub located: u32,
    pub got: u32,
    /// points of the neighbours as given by prev()/next()
    pub prev: u32,
    pub next: u32,
    /// node and node id name the point, and the coordinates that the store has for it
    pub own: bool,
}

pub const NOPT: u32 = u32::MAX;

/// in place of a node's point: the node found is not the one that iteration shows
pub const ODD: u32 = u32::MAX - 1;

#[derive(Clone, Debug, Default, PartialEq, Hash)]
pub struct Snap {
    pub tris: Vec<MeshTri>,
    pub front: Vec<FrontNode>,
    /// (input point, front point located for it, front node with this very point)
    pub probes: Vec<(u32, u32, u32)>,
    /// (point of a node met at an earlier event, what its id finds now: the node itself, the
    /// node after it, the node before it)
    pub kept: Vec<(u32, [u32; 3])>,
    /// located and got for the positions (-inf, -inf), (-inf, inf), (inf, -inf), (inf, inf)
    pub far: Vec<(u32, u32)>,
    /// nth of 0, 1, length-1, length, length+1, usize::MAX
    pub nth: [u32; 6],
    pub result: Vec<usize>,
    /// pairs of triangles called illegal, and whether all are called legal
    pub illegal: Option<(Vec<(usize, usize)>, bool)>,
    /// the point store differs from the one seen first
    pub store_changed: bool,
    /// triangles marked as interior
    pub interior: Vec<usize>,
    /// an accessor that contradicts the stored fields
    pub fault: Option<String>,
}

/// The point store as an observer sees it.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Store {
    pub len: usize,
    pub points: Vec<(Raw, Raw)>,
    pub without_fake: Vec<(Raw, Raw)>,
    /// id, point and the other ends of the edges that are kept for it
    pub iter: Vec<(u32, (Raw, Raw), Vec<u32>)>,
    pub iter_without_fake: Vec<(u32, (Raw, Raw), Vec<u32>)>,
    /// get_point of the ids in `iter`
    pub got: Vec<Option<(Raw, Raw)>>,
    /// get_id_by_y of 0, 1, ... one more than there are points, and the length and the first
    /// element of iter_point_by_y
    pub by_y: Vec<(u32, usize, Option<(u32, (Raw, Raw), Vec<u32>)>)>,
    pub head: u32,
    pub tail: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Log {
    pub evs: Vec<(Cb, Option<Snap>)>,
    /// coordinates of all points as the observer sees them, artificial ones last; read once
    pub pts: Vec<(Raw, Raw)>,
    pub head: u32,
    pub tail: u32,
    pub store: Option<Store>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Out {
    pub indices: Vec<u32>,
    /// index list taken again after one step of, and after complete iteration
    pub indices_mid: Vec<u32>,
    pub indices_after: Vec<u32>,
    pub iter: Vec<[(Raw, Raw); 3]>,
    /// calls of next() after the end that still gave a triangle
    pub extra_next: usize,
    pub points: Vec<(Raw, Raw)>,
    pub points_after: Vec<(Raw, Raw)>,
    pub data: Vec<u32>,
    pub data_after: Vec<u32>,
}

/// data value attached to point i
pub fn data_of(i: usize) -> u32 {
    (i as u32) * 7 + 1000
}

/// How the code is exercised.
#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    /// one run
    Run,
    /// clones of builder and CDT, with and without observer
    Clones,
    /// other ways of iterating, other kinds of point data
    Styles,
    /// a second run with all coordinates multiplied by two to this power
    Scale(i32),
    /// a second run with a vector added to all coordinates, in units of the input
    Shift(i64, i64),
    /// bit 0: x and y exchanged; then bit 1: x negated, bit 2: y negated
    Turn(u8),
    /// a second run with another presentation: builder calls, and the point of the first
    /// presentation for each point of the second
    Perm(Spec, Vec<usize>),
    /// a second run with some of the zero coordinates negated: those whose number, modulo 64,
    /// is a bit of this mask
    NegZero(u64),
    /// the same points from a file: its text with `{3x0}` for the x coordinate of point 3 in
    /// style 0, and the path it is written to
    Load(String, String),
}

/// One way of writing a number.
fn number(v: f64, style: u8) -> String {
    match style {
        b'1' => format!("{v:?}"),
        b'2' => format!("{}{v}", if v < 0.0 { "" } else { "+" }),
        b'3' => format!("{v:e}"),
        b'4' => format!("{v:E}"),
        b'5' => {
            let s = format!("{v}");
            match s.strip_prefix('-') {
                Some(r) => format!("-00{r}"),
                None => format!("00{s}"),
            }
        }
        b'6' => {
            let s = format!("{v}");
            if s.contains('.') { s + "000" } else { s + ".000" }
        }
        b'7' => {
            let s = format!("{v}");
            if s.contains('.') { s } else { s + "." }
        }
        _ => format!("{v}"),
    }
}

/// The text of a file, and its numbers in order: text, point, whether it is x.
pub fn render(template: &str, v: &[(f64, f64)]) -> (String, Vec<(String, usize, bool)>) {
    let (mut text, mut toks) = (String::new(), vec![]);
    let mut rest = template;
    while let Some(a) = rest.find('{') {
        text.push_str(&rest[..a]);
        let b = rest.find('}').unwrap();
        let t = &rest[a + 1..b];
        if let Some(t) = t.strip_prefix('+') {
            // one character many times
            let (n, c) = t.split_at(t.len() - 1);
            text.push_str(&c.repeat(n.parse().unwrap()));
            rest = &rest[b + 1..];
            continue;
        }
        let k = t.find(['x', 'y']).unwrap();
        let i: usize = t[..k].parse().unwrap();
        let x = t.as_bytes()[k] == b'x';
        let s = number(if x { v[i].0 } else { v[i].1 }, t.as_bytes()[k + 1]);
        text.push_str(&s);
        toks.push((s, i, x));
        rest = &rest[b + 1..];
    }
    text.push_str(rest);
    (text, toks)
}

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}
fn unhex(s: &str) -> String {
    let v: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(v).unwrap()
}

impl Mode {
    pub fn to_text(&self) -> String {
        match self {
            Mode::Run => "run".into(),
            Mode::Clones => "clones".into(),
            Mode::Styles => "styles".into(),
            Mode::NegZero(m) => format!("negzero:{m}"),
            Mode::Load(t, _) => format!("load:{}", hex(t)),
            Mode::Scale(k) => format!("scale:{k}"),
            Mode::Shift(x, y) => format!("shift:{x}:{y}"),
            Mode::Turn(k) => format!("turn:{k}"),
            Mode::Perm(s, p) => format!(
                "perm:{}:{}",
                s.to_text(),
                p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("/")
            ),
        }
    }
    pub fn parse(s: &str) -> Mode {
        let v: Vec<&str> = s.split(':').collect();
        match v[0] {
            "run" => Mode::Run,
            "clones" => Mode::Clones,
            "styles" => Mode::Styles,
            "negzero" => Mode::NegZero(v[1].parse().unwrap()),
            "load" => Mode::Load(unhex(v[1]), String::new()),
            "scale" => Mode::Scale(v[1].parse().unwrap()),
            "shift" => Mode::Shift(v[1].parse().unwrap(), v[2].parse().unwrap()),
            "turn" => Mode::Turn(v[1].parse().unwrap()),
            "perm" => Mode::Perm(Spec::parse(v[1]), v[2].split('/').map(|x| x.parse().unwrap()).collect()),
            _ => panic!("bad mode {s}"),
        }
    }
}

pub fn watch_parse(s: &str) -> Watch {
    match s {
        "none" => Watch::None,
        "events" => Watch::Events,
        "mesh" => Watch::Mesh,
        "front" => Watch::Front,
        "full" => Watch::Full,
        "truth" => Watch::Truth,
        "store" => Watch::Store,
        "hostile" => Watch::Hostile,
        "access" => Watch::Access,
        _ => panic!("bad watch {s}"),
    }
}

/// Everything that was observed.
#[derive(Clone, Debug, Default)]
pub struct Runs {
    pub out: Out,
    pub log: Log,
    pub more: Vec<Out>,
    /// what the loader reported instead of a result
    pub error: Option<String>,
    /// contradictions that the driver itself notices
    pub faults: Vec<String>,
}

/// The combinatorial part of what was observed, for comparing two executions.
pub fn digest(r: &Runs) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    let out = |o: &Out, h: &mut std::collections::hash_map::DefaultHasher| {
        o.indices.hash(h);
        o.indices_mid.hash(h);
        o.indices_after.hash(h);
        o.data.hash(h);
        o.data_after.hash(h);
        o.iter.len().hash(h);
        o.extra_next.hash(h);
    };
    out(&r.out, &mut h);
    for o in &r.more {
        out(o, &mut h);
    }
    for e in &r.log.evs {
        e.hash(&mut h);
    }
    r.error.is_some().hash(&mut h);
    r.faults.hash(&mut h);
    h.finish()
}

/// The coordinates in the result, in a fixed order.
pub fn result_coords(r: &Runs) -> Vec<(Raw, Raw)> {
    let mut v = vec![];
    for o in std::iter::once(&r.out).chain(r.more.iter()) {
        v.extend_from_slice(&o.points);
        v.extend_from_slice(&o.points_after);
        for t in &o.iter {
            v.extend_from_slice(t);
        }
    }
    v
}
