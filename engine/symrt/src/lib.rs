//! Runtime of the symbolic execution: expressions, path constraints, exploration.
//!
//! A symbolic float is a quiet NaN whose payload is the number of an expression. The rewritten IR
//! calls the `__sym_*` functions below for every floating point operation.
pub mod alg;
pub mod icp;
pub mod sat;
use sat::*;
use std::collections::HashMap;
use std::rc::Rc;

pub type Nid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    /// mantissa (odd or zero), exponent of two
    Const(i128, i32),
    Var(u32),
    Add(Nid, Nid),
    Sub(Nid, Nid),
    Mul(Nid, Nid),
    Neg(Nid),
    Max(Nid, Nid),
    Min(Nid, Nid),
}

/// sorted variable numbers + 1, packed into bytes, most significant first
pub type Mono = u64;

pub type Poly = Vec<(Mono, i128)>;

pub struct Node {
    pub kind: Kind,
    /// value is an integer in [lo, hi] times 2^e
    pub e: i32,
    pub lo: i128,
    pub hi: i128,
    pub flo: f64,
    pub fhi: f64,
    /// integer polynomial (times 2^e); opaque nodes are variables of their own
    pub poly: Option<Rc<Poly>>,
    stamp: u32,
    val: i128,
    stamp2: u32,
    val2: i128,
}

pub struct Atom {
    pub node: Nid,
    /// sign of the atom is the negated sign of the node
    flip: bool,
    /// few multiplications: goes into the first solver
    cheap: bool,
    stamp: u32,
    known: u8,
}

pub const ALL: u8 = 7;

#[derive(Clone, Debug)]
pub enum Form {
    K(bool),
    /// sign of atom in set
    A(u32, u8),
    And(Rc<Vec<Form>>),
    Or(Rc<Vec<Form>>),
    Not(Rc<Form>),
    Xor(Rc<(Form, Form)>),
}

#[derive(Clone)]
pub struct Dec {
    pub atom: u32,
    pub taken: u8,
    pub other: u8,
}

pub struct Var {
    pub lo: i128,
    pub hi: i128,
}

pub const BAIL_TICKS: i32 = 1;
pub const BAIL_UB: i32 = 2;
pub const BAIL_INEXACT: i32 = 3;
pub const BAIL_INTERNAL: i32 = 4;

extern "C" {
    fn sym_guard(f: extern "C" fn(*mut std::ffi::c_void), ctx: *mut std::ffi::c_void) -> i32;
    fn sym_bail(code: i32) -> !;
}

#[derive(Default, Clone)]
pub struct Stats {
    pub fcmp: u64,
    pub arith: u64,
    pub predicates: u64,
    pub decisions: u64,
    pub concretised: u64,
}

pub struct Engine {
    pub nodes: Vec<Node>,
    hash: HashMap<Kind, Nid>,
    pub atoms: Vec<Atom>,
    atom_hash: HashMap<AtomKey, u32>,
    sign_cache: HashMap<Nid, Ent>,
    pub vars: Vec<Var>,
    /// first solver: comparisons and orientations, kept for all queries
    l1: Option<Blast>,
    /// second solver: constraints that the first one does not know, added when violated
    l2: Option<Blast>,
    model2: Vec<i128>,
    epoch2: u32,
    pub q: QStats,
    /// some value needs more than 62 bits
    pub wide: bool,
    supports: HashMap<u32, Rc<Vec<u32>>>,
    pub icp_first: u64,
    pub icp_then: u64,
    pub rng: u64,
    /// concrete model of the current run
    pub model: Vec<i128>,
    epoch: u32,
    pub trace: Vec<Dec>,
    pub ticks: u64,
    pub tick_limit: u64,
    pub base_forms: Vec<Form>,
    pub why: String,
    pub stats: Stats,
    pub scale: i32,
    pub confl: i64,
    fixed: HashMap<Nid, bool>,
    /// values that concretised nodes had in earlier runs
    had: HashMap<Nid, Vec<i128>>,
    /// the decisions that this run has to start with
    pub want: Vec<(u32, u8)>,
    pub tokens: Option<Tokens>,
}

#[derive(PartialEq, Eq, Hash)]
enum AtomKey {
    P(Vec<(Mono, i128)>),
    N(Nid),
}

/// result of looking up the sign of a node
#[derive(Clone, Copy, Debug)]
pub enum Ent {
    /// the sign is known: one bit of the sign set
    Sign(u8),
    /// atom, flipped
    Atom(u32, bool),
}

pub fn flip_set(s: u8) -> u8 {
    (s & 2) | ((s & 1) << 2) | ((s & 4) >> 2)
}

fn sign_of(v: i128) -> u8 {
    if v < 0 {
        1
    } else if v == 0 {
        2
    } else {
        4
    }
}

static mut ENG: *mut Engine = std::ptr::null_mut();

#[allow(static_mut_refs)]
fn eng() -> &'static mut Engine {
    unsafe { &mut *ENG }
}

pub fn install(e: &mut Engine) {
    unsafe { ENG = e }
}
pub fn uninstall() {
    unsafe { ENG = std::ptr::null_mut() }
}

const TAG: u64 = 0x7FFC_0000_0000_0000;
const MASK: u64 = 0xFFFC_0000_0000_0000;
const TAG32: u32 = 0x7FE0_0000;
const MASK32: u32 = 0xFFE0_0000;

pub fn box64(n: Nid) -> f64 {
    f64::from_bits(TAG | n as u64)
}
pub fn box32(n: Nid) -> f32 {
    if n >= 1 << 21 {
        bail(BAIL_INTERNAL, "too many expressions for single precision tags");
    }
    f32::from_bits(TAG32 | n)
}
pub fn unbox64(b: u64) -> Option<Nid> {
    if b & MASK == TAG {
        Some(b as u32)
    } else {
        None
    }
}
pub fn unbox32(b: u32) -> Option<Nid> {
    if b & MASK32 == TAG32 {
        Some(b & 0x1F_FFFF)
    } else {
        None
    }
}

#[cold]
fn bail(code: i32, why: &str) -> ! {
    unsafe {
        if ENG.is_null() {
            panic!("{why}");
        }
        (*ENG).why = why.to_string();
        sym_bail(code)
    }
}

/// 0, or the code of the bail
pub fn guarded<Fn: FnMut()>(mut f: Fn) -> i32 {
    extern "C" fn tramp<Fn: FnMut()>(c: *mut std::ffi::c_void) {
        let f = unsafe { &mut *(c as *mut Fn) };
        f()
    }
    unsafe { sym_guard(tramp::<Fn>, &mut f as *mut Fn as *mut std::ffi::c_void) }
}

fn ldexp(m: f64, e: i32) -> f64 {
    let h = e / 2;
    m * 2f64.powi(h) * 2f64.powi(e - h)
}

/// mantissa, exponent of a finite float
pub fn split(f: f64) -> (i128, i32) {
    if f == 0.0 {
        return (0, 0);
    }
    let b = f.to_bits();
    let ex = ((b >> 52) & 0x7FF) as i32;
    let fr = (b & ((1 << 52) - 1)) as i128;
    let (m, e) = if ex == 0 { (fr, -1074) } else { (fr | (1 << 52), ex - 1075) };
    let t = m.trailing_zeros() as i32;
    let m = m >> t;
    (if f < 0.0 { -m } else { m }, e + t)
}

fn shl(v: i128, k: i32) -> Option<i128> {
    if v == 0 {
        return Some(0);
    }
    if k < 0 || k > 120 {
        return None;
    }
    let r = v << k;
    if r >> k == v && r.unsigned_abs() < (1u128 << 125) {
        Some(r)
    } else {
        None
    }
}

fn bits_of(v: i128) -> u32 {
    128 - v.unsigned_abs().leading_zeros()
}

fn mono_mul(a: Mono, b: Mono) -> Option<Mono> {
    if a == 0 {
        return Some(b);
    }
    if b == 0 {
        return Some(a);
    }
    let mut v = [0u8; 16];
    v[..8].copy_from_slice(&a.to_be_bytes());
    v[8..].copy_from_slice(&b.to_be_bytes());
    v.sort_unstable_by(|x, y| y.cmp(x));
    if v[8] != 0 {
        return None;
    }
    let mut r = [0u8; 8];
    // right aligned, descending
    let n = v.iter().take_while(|&&x| x != 0).count();
    r[8 - n..].copy_from_slice(&v[..n]);
    Some(u64::from_be_bytes(r))
}

fn poly_norm(mut v: Vec<(Mono, i128)>) -> Option<Poly> {
    v.sort_unstable_by(|a, b| b.0.cmp(&a.0));
    let mut r: Poly = Vec::with_capacity(v.len());
    for (m, c) in v {
        if let Some(l) = r.last_mut() {
            if l.0 == m {
                l.1 = l.1.checked_add(c)?;
                if l.1 == 0 {
                    r.pop();
                }
                continue;
            }
        }
        if c != 0 {
            r.push((m, c));
        }
    }
    Some(r)
}

const POLY_MAX: usize = 400;

#[derive(Default, Clone)]
pub struct QStats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    /// calls of the SAT solver in the first and second stage
    pub l1: u64,
    pub l2: u64,
    pub clauses: u64,
    pub boxes: u64,
    pub icp: u64,
    pub time: std::time::Duration,
}

/// A SAT solver and the circuits it holds.
pub struct Blast {
    pub sat: Sat,
    vars: Vec<Bits>,
    nodes: HashMap<Nid, Rc<Bits>>,
    monos: HashMap<Mono, Rc<Bits>>,
    lits: HashMap<u32, (Lit, Lit, Lit)>,
}

impl Blast {
    fn new(e: &Engine) -> Blast {
        let mut sat = Sat::new();
        let mut vars = vec![];
        for v in &e.vars {
            let span = (v.hi - v.lo) as u128;
            let n = 128 - span.leading_zeros() as usize;
            // value - lo, unsigned
            let mut bits: Bits = (0..n).map(|_| sat.input()).collect();
            bits.push(F);
            let k = Sat::konst(span as i128);
            let d = sat.sub(&k, &bits);
            let s = *d.last().unwrap();
            sat.clause(&[neg(s)]);
            vars.push(bits);
        }
        Blast { sat, vars, nodes: HashMap::new(), monos: HashMap::new(), lits: HashMap::new() }
    }
    /// spread the models
    fn shake(&mut self, e: &mut Engine) {
        for v in 0..self.vars.len() {
            let r = e.flip_coin();
            for (b, &l) in self.vars[v].iter().enumerate() {
                if l != F && l != T {
                    self.sat.polarity(l, r >> (b + 3) & 1 == 1);
                }
            }
        }
    }
    fn model(&self, e: &Engine) -> Vec<i128> {
        self.vars
            .iter()
            .enumerate()
            .map(|(i, v)| {
                let mut x: i128 = 0;
                for (i, &l) in v.iter().enumerate() {
                    if l == T || (l != F && self.sat.value(l)) {
                        x |= 1 << i;
                    }
                }
                e.vars[i].lo + x
            })
            .collect()
    }
    fn var_bits(&mut self, e: &Engine, v: usize) -> Bits {
        let lo = e.vars[v].lo;
        let b = self.vars[v].clone();
        if lo == 0 {
            return b;
        }
        let k = Sat::konst(lo);
        self.sat.add(&b, &k)
    }
    fn blast(&mut self, e: &Engine, n: Nid) -> Rc<Bits> {
        if let Some(b) = self.nodes.get(&n) {
            return b.clone();
        }
        let nd = &e.nodes[n as usize];
        let w = (bits_of(nd.lo).max(bits_of(nd.hi)) + 1) as usize;
        let ex = nd.e;
        let get = |s: &mut Self, x: Nid| -> Bits {
            let b = s.blast(e, x);
            let nx = &e.nodes[x as usize];
            if nx.lo == 0 && nx.hi == 0 {
                return vec![F];
            }
            Sat::shl(&b, (nx.e - ex) as usize)
        };
        let b: Bits = match nd.kind {
            Kind::Const(m, _) => Sat::konst(m),
            Kind::Var(v) => self.var_bits(e, v as usize),
            Kind::Add(a, b) => {
                let (x, y) = (get(self, a), get(self, b));
                self.sat.add(&x, &y)
            }
            Kind::Sub(a, b) => {
                let (x, y) = (get(self, a), get(self, b));
                self.sat.sub(&x, &y)
            }
            Kind::Mul(a, b) => {
                let (x, y) = (self.blast(e, a), self.blast(e, b));
                self.sat.mul(&x, &y)
            }
            Kind::Neg(a) => {
                let x = self.blast(e, a);
                self.sat.negate(&x)
            }
            Kind::Max(a, b) | Kind::Min(a, b) => {
                let max = matches!(nd.kind, Kind::Max(..));
                let (x, y) = (get(self, a), get(self, b));
                let d = self.sat.sub(&x, &y);
                let lt = *d.last().unwrap(); // a < b
                let w = x.len().max(y.len());
                (0..w)
                    .map(|i| {
                        let xi = x[i.min(x.len() - 1)];
                        let yi = y[i.min(y.len() - 1)];
                        if max {
                            self.sat.mux(lt, yi, xi)
                        } else {
                            self.sat.mux(lt, xi, yi)
                        }
                    })
                    .collect()
            }
        };
        let b = Rc::new(Sat::fit(b, w));
        self.nodes.insert(n, b.clone());
        b
    }
    fn mono(&mut self, e: &Engine, m: Mono) -> Rc<Bits> {
        if let Some(b) = self.monos.get(&m) {
            return b.clone();
        }
        let low = (m & 0xFF) as usize;
        let rest = m >> 8;
        let v = self.var_bits(e, low - 1);
        let b = if rest == 0 {
            v
        } else {
            let r = self.mono(e, rest);
            self.sat.mul(&r, &v)
        };
        let b = Rc::new(b);
        self.monos.insert(m, b.clone());
        b
    }
    fn atom(&mut self, e: &Engine, n: Nid) -> Bits {
        if let Some(p) = &e.nodes[n as usize].poly {
            let simple = p.len() <= 8 && p.iter().all(|&(m, _)| m.to_be_bytes().iter().all(|&b| (b as usize) <= self.vars.len()));
            if simple {
                let mut acc = vec![F];
                let mut k = 0i128;
                for &(m, c) in p.iter() {
                    if m == 0 {
                        k = c;
                        continue;
                    }
                    let b = self.mono(e, m);
                    let t = self.sat.mul_const(&b, c);
                    acc = self.sat.add(&acc, &t);
                }
                let kb = Sat::konst(k);
                return self.sat.add(&acc, &kb);
            }
        }
        (*self.blast(e, n)).clone()
    }
    /// literal for: sign of the atom is in the set
    fn lit(&mut self, e: &Engine, a: u32, set: u8) -> Lit {
        if !self.lits.contains_key(&a) {
            let (n, fl) = e.atom_node(a);
            let b = self.atom(e, n);
            let s = *b.last().unwrap();
            let z = self.sat.is_zero(&b);
            let le = self.sat.or(s, z);
            let (lt, le) = if fl { (neg(le), neg(s)) } else { (s, le) };
            self.lits.insert(a, (lt, z, le));
        }
        let (lt, z, le) = self.lits[&a];
        match set {
            0 => F,
            1 => lt,
            2 => z,
            3 => le,
            4 => neg(le),
            5 => neg(z),
            6 => neg(lt),
            _ => T,
        }
    }
    fn form(&mut self, e: &Engine, f: &Form) -> Lit {
        match f {
            Form::K(b) => {
                if *b {
                    T
                } else {
                    F
                }
            }
            Form::A(a, set) => self.lit(e, *a, *set),
            Form::And(v) => {
                let mut l = vec![];
                for x in v.iter() {
                    let y = self.form(e, x);
                    if y == F {
                        return F;
                    }
                    l.push(y);
                }
                self.sat.big_and(&l)
            }
            Form::Or(v) => {
                let mut l = vec![];
                for x in v.iter() {
                    let y = self.form(e, x);
                    if y == T {
                        return T;
                    }
                    l.push(y);
                }
                self.sat.big_or(&l)
            }
            Form::Not(x) => neg(self.form(e, x)),
            Form::Xor(x) => {
                let a = self.form(e, &x.0);
                let b = self.form(e, &x.1);
                self.sat.xor(a, b)
            }
        }
    }
}

pub struct Overflow;
type Ok_<T> = Result<T, Overflow>;

impl Engine {
    pub fn new(scale: i32) -> Engine {
        Engine {
            nodes: vec![],
            hash: HashMap::new(),
            atoms: vec![],
            atom_hash: HashMap::new(),
            sign_cache: HashMap::new(),
            vars: vec![],
            l1: None,
            l2: None,
            model2: vec![],
            epoch2: 0,
            q: QStats::default(),
            wide: false,
            supports: HashMap::new(),
            icp_first: 2000,
            icp_then: 100_000,
            rng: 1,
            model: vec![],
            epoch: 0,
            trace: vec![],
            ticks: 0,
            tick_limit: 3_000_000,
            base_forms: vec![],
            why: String::new(),
            stats: Stats::default(),
            scale,
            confl: 20_000,
            fixed: HashMap::new(),
            had: HashMap::new(),
            want: vec![],
            tokens: None,
        }
    }

    // ---------------------------------------------------------------- expressions
    fn push(&mut self, kind: Kind, e: i32, lo: i128, hi: i128, poly: Option<Rc<Poly>>) -> Nid {
        let id = self.nodes.len() as Nid;
        if bits_of(lo).max(bits_of(hi)) > 60 {
            self.wide = true;
        }
        let slack = |f: f64, up: bool| {
            let d = f.abs() * 1e-12;
            if up {
                f + d
            } else {
                f - d
            }
        };
        let flo = slack(ldexp(lo as f64, e), false);
        let fhi = slack(ldexp(hi as f64, e), true);
        self.nodes.push(Node { kind, e, lo, hi, flo, fhi, poly, stamp: 0, val: 0, stamp2: 0, val2: 0 });
        self.hash.insert(kind, id);
        id
    }
    pub fn konst(&mut self, m: i128, e: i32) -> Nid {
        let (m, e) = if m == 0 {
            (0, 0)
        } else {
            let t = m.trailing_zeros() as i32;
            (m >> t, e + t)
        };
        let k = Kind::Const(m, e);
        if let Some(&n) = self.hash.get(&k) {
            return n;
        }
        let p = if m == 0 { vec![] } else { vec![(0, m)] };
        self.push(k, e, m, m, Some(Rc::new(p)))
    }
    pub fn konst_f(&mut self, f: f64) -> Nid {
        if !f.is_finite() {
            bail(BAIL_INEXACT, "non-finite constant meets a symbolic value");
        }
        let (m, e) = split(f);
        self.konst(m, e)
    }
    pub fn var(&mut self, lo: i128, hi: i128) -> Nid {
        let v = self.vars.len() as u32;
        self.vars.push(Var { lo, hi });
        self.model.push(lo);
        let mono = (v + 1) as Mono;
        let scale = self.scale;
        self.push(Kind::Var(v), scale, lo, hi, Some(Rc::new(vec![(mono, 1)])))
    }
    fn opaque(&mut self) -> Mono {
        // opaque nodes get variable numbers from above
        let n = self.nodes.iter().filter(|n| matches!(n.kind, Kind::Max(..) | Kind::Min(..))).count();
        if n > 60 {
            return 0;
        }
        (250 - n) as Mono
    }
    fn align(&self, a: Nid, b: Nid) -> Ok_<(i32, i32, i32)> {
        let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        let za = na.lo == 0 && na.hi == 0;
        let zb = nb.lo == 0 && nb.hi == 0;
        let e = if za {
            nb.e
        } else if zb {
            na.e
        } else {
            na.e.min(nb.e)
        };
        Ok((e, if za { 0 } else { na.e - e }, if zb { 0 } else { nb.e - e }))
    }
    fn poly_lin(&self, a: Nid, sa: i32, b: Nid, sb: i32, minus: bool) -> Option<Rc<Poly>> {
        let pa = self.nodes[a as usize].poly.as_ref()?;
        let pb = self.nodes[b as usize].poly.as_ref()?;
        if pa.len() + pb.len() > POLY_MAX {
            return None;
        }
        let mut v = Vec::with_capacity(pa.len() + pb.len());
        for &(m, c) in pa.iter() {
            v.push((m, shl(c, sa)?));
        }
        for &(m, c) in pb.iter() {
            let c = shl(c, sb)?;
            v.push((m, if minus { -c } else { c }));
        }
        poly_norm(v).map(Rc::new)
    }
    pub fn add(&mut self, a: Nid, b: Nid) -> Ok_<Nid> {
        let (a, b) = (a.min(b), a.max(b));
        let k = Kind::Add(a, b);
        if let Some(&n) = self.hash.get(&k) {
            return Ok(n);
        }
        let (e, sa, sb) = self.align(a, b)?;
        let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        let lo = shl(na.lo, sa).ok_or(Overflow)? + shl(nb.lo, sb).ok_or(Overflow)?;
        let hi = shl(na.hi, sa).ok_or(Overflow)? + shl(nb.hi, sb).ok_or(Overflow)?;
        if lo == hi {
            return Ok(self.konst(lo, e));
        }
        let p = self.poly_lin(a, sa, b, sb, false);
        Ok(self.push(k, e, lo, hi, p))
    }
    pub fn sub(&mut self, a: Nid, b: Nid) -> Ok_<Nid> {
        if a == b {
            return Ok(self.konst(0, 0));
        }
        let k = Kind::Sub(a, b);
        if let Some(&n) = self.hash.get(&k) {
            return Ok(n);
        }
        let (e, sa, sb) = self.align(a, b)?;
        let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        let lo = shl(na.lo, sa).ok_or(Overflow)? - shl(nb.hi, sb).ok_or(Overflow)?;
        let hi = shl(na.hi, sa).ok_or(Overflow)? - shl(nb.lo, sb).ok_or(Overflow)?;
        if lo == hi {
            return Ok(self.konst(lo, e));
        }
        let p = self.poly_lin(a, sa, b, sb, true);
        if let Some(p) = &p {
            if p.is_empty() {
                return Ok(self.konst(0, 0));
            }
        }
        Ok(self.push(k, e, lo, hi, p))
    }
    pub fn mul(&mut self, a: Nid, b: Nid) -> Ok_<Nid> {
        let (a, b) = (a.min(b), a.max(b));
        let k = Kind::Mul(a, b);
        if let Some(&n) = self.hash.get(&k) {
            return Ok(n);
        }
        let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        let e = na.e + nb.e;
        let c = [
            na.lo.checked_mul(nb.lo).ok_or(Overflow)?,
            na.lo.checked_mul(nb.hi).ok_or(Overflow)?,
            na.hi.checked_mul(nb.lo).ok_or(Overflow)?,
            na.hi.checked_mul(nb.hi).ok_or(Overflow)?,
        ];
        let (mut lo, hi) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
        if bits_of(lo) > 124 || bits_of(hi) > 124 {
            return Err(Overflow);
        }
        if a == b {
            lo = lo.max(0);
        }
        if lo == hi {
            return Ok(self.konst(lo, e));
        }
        let p = (|| {
            let pa = na.poly.as_ref()?;
            let pb = nb.poly.as_ref()?;
            if pa.len() * pb.len() > 4 * POLY_MAX {
                return None;
            }
            let mut v = Vec::with_capacity(pa.len() * pb.len());
            for &(m, c) in pa.iter() {
                for &(n, d) in pb.iter() {
                    v.push((mono_mul(m, n)?, c.checked_mul(d)?));
                }
            }
            poly_norm(v).map(Rc::new)
        })();
        Ok(self.push(k, e, lo, hi, p))
    }
    pub fn negn(&mut self, a: Nid) -> Ok_<Nid> {
        let k = Kind::Neg(a);
        if let Some(&n) = self.hash.get(&k) {
            return Ok(n);
        }
        let na = &self.nodes[a as usize];
        let (e, lo, hi) = (na.e, -na.hi, -na.lo);
        if lo == hi {
            return Ok(self.konst(lo, e));
        }
        let p = na.poly.as_ref().map(|p| Rc::new(p.iter().map(|&(m, c)| (m, -c)).collect::<Poly>()));
        Ok(self.push(k, e, lo, hi, p))
    }
    fn maxmin(&mut self, a: Nid, b: Nid, max: bool) -> Ok_<Nid> {
        if a == b {
            return Ok(a);
        }
        let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        // decided by the ranges (also avoids aligning f64::MAX)
        if na.flo >= nb.fhi {
            return Ok(if max { a } else { b });
        }
        if nb.flo >= na.fhi {
            return Ok(if max { b } else { a });
        }
        let d = self.sub(a, b)?;
        let s = match self.sign(d) {
            Ent::Sign(s) => s,
            // what is known on this path is not used: the result would not be the same
            // expression on all paths
            Ent::Atom(..) => ALL,
        };
        if s & 1 == 0 {
            return Ok(if max { a } else { b });
        }
        if s & 4 == 0 {
            return Ok(if max { b } else { a });
        }
        let (a, b) = (a.min(b), a.max(b));
        let k = if max { Kind::Max(a, b) } else { Kind::Min(a, b) };
        if let Some(&n) = self.hash.get(&k) {
            return Ok(n);
        }
        let (e, sa, sb) = self.align(a, b)?;
        let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        let (al, ah) = (shl(na.lo, sa).ok_or(Overflow)?, shl(na.hi, sa).ok_or(Overflow)?);
        let (bl, bh) = (shl(nb.lo, sb).ok_or(Overflow)?, shl(nb.hi, sb).ok_or(Overflow)?);
        let (lo, hi) = if max { (al.max(bl), ah.max(bh)) } else { (al.min(bl), ah.min(bh)) };
        if lo == hi {
            return Ok(self.konst(lo, e));
        }
        let m = self.opaque();
        let p = if m == 0 { None } else { Some(Rc::new(vec![(m, 1)])) };
        let n = self.push(k, e, lo, hi, p);
        // the assumptions often fix the extreme coordinates
        let v = self.eval(n);
        let kn = self.konst(v, e);
        let d = self.sub(n, kn)?;
        if let Ent::Atom(at, _) = self.sign(d) {
            if self.query(&[Form::A(at, 5)]).0 == Res::Unsat {
                self.hash.insert(k, kn);
                return Ok(kn);
            }
        }
        Ok(n)
    }

    /// value of a node in the current model
    pub fn eval(&mut self, n: Nid) -> i128 {
        let nd = &self.nodes[n as usize];
        if nd.stamp == self.epoch {
            return nd.val;
        }
        let e = nd.e;
        let get = |s: &mut Self, x: Nid| {
            let v = s.eval(x);
            let xe = s.nodes[x as usize].e;
            if v == 0 {
                0
            } else {
                shl(v, xe - e).expect("eval overflow")
            }
        };
        let v = match nd.kind {
            Kind::Const(m, _) => m,
            Kind::Var(v) => self.model[v as usize],
            Kind::Add(a, b) => get(self, a) + get(self, b),
            Kind::Sub(a, b) => get(self, a) - get(self, b),
            Kind::Mul(a, b) => self.eval(a) * self.eval(b),
            Kind::Neg(a) => -self.eval(a),
            Kind::Max(a, b) => get(self, a).max(get(self, b)),
            Kind::Min(a, b) => get(self, a).min(get(self, b)),
        };
        let ep = self.epoch;
        let nd = &mut self.nodes[n as usize];
        debug_assert!(v >= nd.lo && v <= nd.hi);
        nd.stamp = ep;
        nd.val = v;
        v
    }

    // ---------------------------------------------------------------- atoms
    pub fn sign(&mut self, n: Nid) -> Ent {
        if let Some(&e) = self.sign_cache.get(&n) {
            return e;
        }
        let r = self.sign_uncached(n);
        self.sign_cache.insert(n, r);
        r
    }
    fn sign_uncached(&mut self, n: Nid) -> Ent {
        let nd = &self.nodes[n as usize];
        if nd.lo > 0 {
            return Ent::Sign(4);
        }
        if nd.hi < 0 {
            return Ent::Sign(1);
        }
        if nd.lo == 0 && nd.hi == 0 {
            return Ent::Sign(2);
        }
        let (key, flip) = match &nd.poly {
            Some(p) => {
                if p.is_empty() {
                    return Ent::Sign(2);
                }
                if p.len() == 1 && p[0].0 == 0 {
                    return Ent::Sign(sign_of(p[0].1));
                }
                let mut g: u128 = 0;
                for &(_, c) in p.iter() {
                    let (mut a, mut b) = (g, c.unsigned_abs());
                    while b != 0 {
                        (a, b) = (b, a % b);
                    }
                    g = a;
                }
                let flip = p[0].1 < 0;
                let d = if flip { -(g as i128) } else { g as i128 };
                (AtomKey::P(p.iter().map(|&(m, c)| (m, c / d)).collect()), flip)
            }
            None => (AtomKey::N(n), false),
        };
        if let Some(&a) = self.atom_hash.get(&key) {
            return Ent::Atom(a, flip);
        }
        let id = self.atoms.len() as u32;
        self.atom_hash.insert(key, id);
        let cheap = match &self.nodes[n as usize].poly {
            Some(p) => p.len() <= 16 && p.iter().all(|&(m, _)| m < 1 << 16),
            None => false,
        };
        self.atoms.push(Atom { node: n, flip, cheap, stamp: 0, known: ALL });
        Ent::Atom(id, flip)
    }
    pub fn known(&self, a: u32) -> u8 {
        let at = &self.atoms[a as usize];
        if at.stamp == self.epoch {
            at.known
        } else {
            ALL
        }
    }
    pub fn atom_node(&self, a: u32) -> (Nid, bool) {
        (self.atoms[a as usize].node, self.atoms[a as usize].flip)
    }
    fn atom_sign(&mut self, a: u32) -> u8 {
        let (n, f) = (self.atoms[a as usize].node, self.atoms[a as usize].flip);
        let s = sign_of(self.eval(n));
        if f {
            flip_set(s)
        } else {
            s
        }
    }
    /// Is the sign of node n in the set, on this path? Forks if both are possible.
    pub fn decide(&mut self, n: Nid, set: u8) -> bool {
        match self.sign(n) {
            Ent::Sign(s) => s & set != 0,
            Ent::Atom(a, fl) => {
                let set = if fl { flip_set(set) } else { set };
                let k = self.known(a);
                let t = k & set;
                let f = k & !set;
                if t == 0 {
                    return false;
                }
                if f == 0 {
                    return true;
                }
                self.stats.decisions += 1;
                let s = self.atom_sign(a);
                let side = s & t != 0;
                let (taken, other) = if side { (t, f) } else { (f, t) };
                self.trace.push(Dec { atom: a, taken, other });
                let ep = self.epoch;
                let at = &mut self.atoms[a as usize];
                at.stamp = ep;
                at.known = taken;
                side
            }
        }
    }

    // ---------------------------------------------------------------- queries
    /// what is already known on the current path is replaced by its truth value
    pub fn simplify(&self, f: &Form) -> Form {
        match f {
            Form::K(b) => Form::K(*b),
            Form::A(a, set) => {
                let k = self.known(*a);
                if k & set == 0 {
                    Form::K(false)
                } else if k & !set == 0 {
                    Form::K(true)
                } else {
                    f.clone()
                }
            }
            Form::And(v) => {
                let mut r = vec![];
                for x in v.iter() {
                    match self.simplify(x) {
                        Form::K(false) => return Form::K(false),
                        Form::K(true) => {}
                        y => r.push(y),
                    }
                }
                match r.len() {
                    0 => Form::K(true),
                    1 => r.pop().unwrap(),
                    _ => Form::And(Rc::new(r)),
                }
            }
            Form::Or(v) => {
                let mut r = vec![];
                for x in v.iter() {
                    match self.simplify(x) {
                        Form::K(true) => return Form::K(true),
                        Form::K(false) => {}
                        y => r.push(y),
                    }
                }
                match r.len() {
                    0 => Form::K(false),
                    1 => r.pop().unwrap(),
                    _ => Form::Or(Rc::new(r)),
                }
            }
            Form::Not(x) => match self.simplify(x) {
                Form::K(b) => Form::K(!b),
                y => Form::Not(Rc::new(y)),
            },
            Form::Xor(x) => match (self.simplify(&x.0), self.simplify(&x.1)) {
                (Form::K(a), Form::K(b)) => Form::K(a ^ b),
                (Form::K(false), y) | (y, Form::K(false)) => y,
                (Form::K(true), y) | (y, Form::K(true)) => Form::Not(Rc::new(y)),
                (x, y) => Form::Xor(Rc::new((x, y))),
            },
        }
    }
    fn cheap(&self, f: &Form) -> bool {
        match f {
            Form::K(_) => true,
            Form::A(a, _) => self.atoms[*a as usize].cheap,
            Form::And(v) | Form::Or(v) => v.iter().all(|x| self.cheap(x)),
            Form::Not(x) => self.cheap(x),
            Form::Xor(x) => self.cheap(&x.0) && self.cheap(&x.1),
        }
    }
    pub fn assume(&mut self, f: Form) {
        if self.cheap(&f) {
            let mut c = self.l1.take().unwrap_or_else(|| Blast::new(self));
            let l = c.form(self, &f);
            c.sat.clause(&[l]);
            self.l1 = Some(c);
        }
        self.base_forms.push(f);
    }
    pub fn node_form(&mut self, n: Nid, set: u8) -> Form {
        match self.sign(n) {
            Ent::Sign(s) => Form::K(s & set != 0),
            Ent::Atom(a, fl) => Form::A(a, if fl { flip_set(set) } else { set }),
        }
    }
    fn flip_coin(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    fn eval2(&mut self, n: Nid) -> i128 {
        let nd = &self.nodes[n as usize];
        if nd.stamp2 == self.epoch2 {
            return nd.val2;
        }
        let e = nd.e;
        let get = |s: &mut Self, x: Nid| {
            let v = s.eval2(x);
            let xe = s.nodes[x as usize].e;
            if v == 0 {
                0
            } else {
                shl(v, xe - e).expect("eval overflow")
            }
        };
        let v = match nd.kind {
            Kind::Const(m, _) => m,
            Kind::Var(v) => self.model2[v as usize],
            Kind::Add(a, b) => get(self, a) + get(self, b),
            Kind::Sub(a, b) => get(self, a) - get(self, b),
            Kind::Mul(a, b) => self.eval2(a) * self.eval2(b),
            Kind::Neg(a) => -self.eval2(a),
            Kind::Max(a, b) => get(self, a).max(get(self, b)),
            Kind::Min(a, b) => get(self, a).min(get(self, b)),
        };
        let ep = self.epoch2;
        let nd = &mut self.nodes[n as usize];
        nd.stamp2 = ep;
        nd.val2 = v;
        v
    }
    fn eval2_form(&mut self, f: &Form) -> bool {
        match f {
            Form::K(b) => *b,
            Form::A(a, set) => {
                let (n, fl) = self.atom_node(*a);
                let s = sign_of(self.eval2(n));
                (if fl { flip_set(s) } else { s }) & set != 0
            }
            Form::And(v) => v.iter().all(|x| self.eval2_form(x)),
            Form::Or(v) => v.iter().any(|x| self.eval2_form(x)),
            Form::Not(x) => !self.eval2_form(x),
            Form::Xor(x) => self.eval2_form(&x.0) ^ self.eval2_form(&x.1),
        }
    }
    fn set_model2(&mut self, m: Vec<i128>) {
        self.model2 = m;
        self.epoch2 += 1;
    }
    /// Is there an input satisfying the assumptions and these constraints?
    pub fn query(&mut self, cs: &[Form]) -> (Res, Vec<i128>) {
        let t = std::time::Instant::now();
        let r = self.query_(cs);
        self.q.time += t.elapsed();
        self.q.queries += 1;
        match r.0 {
            Res::Sat => self.q.sat += 1,
            Res::Unsat => self.q.unsat += 1,
            Res::Unknown => self.q.unknown += 1,
        }
        r
    }
    /// variables of an atom
    pub fn support(&mut self, a: u32) -> Rc<Vec<u32>> {
        if let Some(s) = self.supports.get(&a) {
            return s.clone();
        }
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![self.atoms[a as usize].node];
        let mut r = vec![];
        while let Some(n) = st.pop() {
            if !seen.insert(n) {
                continue;
            }
            match self.nodes[n as usize].kind {
                Kind::Const(..) => {}
                Kind::Var(v) => r.push(v),
                Kind::Neg(a) => st.push(a),
                Kind::Add(a, b) | Kind::Sub(a, b) | Kind::Mul(a, b) | Kind::Max(a, b) | Kind::Min(a, b) => {
                    st.push(a);
                    st.push(b);
                }
            }
        }
        let r = Rc::new(r);
        self.supports.insert(a, r.clone());
        r
    }
    fn query_(&mut self, cs: &[Form]) -> (Res, Vec<i128>) {
        let base = std::mem::take(&mut self.base_forms);
        let mut r = icp::solve(self, cs, &base, self.icp_first);
        if r.0 == Res::Unknown && self.icp_then > self.icp_first {
            r = icp::solve(self, cs, &base, self.icp_then);
        }
        self.base_forms = base;
        if r.0 != Res::Unknown {
            self.q.icp += 1;
            return r;
        }
        if self.confl == 0 {
            return r;
        }
        self.query_sat(cs)
    }
    fn query_sat(&mut self, cs: &[Form]) -> (Res, Vec<i128>) {
        let confl = self.confl;
        // first solver: all cheap constraints
        let mut c = self.l1.take().unwrap_or_else(|| Blast::new(self));
        let mut asm = vec![];
        for f in cs {
            if self.cheap(f) {
                let l = c.form(self, f);
                if l != T {
                    asm.push(l);
                }
            }
        }
        if asm.contains(&F) {
            self.l1 = Some(c);
            return (Res::Unsat, vec![]);
        }
        c.shake(self);
        let r = c.sat.solve(&asm, confl);
        self.q.l1 += 1;
        let m = if r == Res::Sat { Some(c.model(self)) } else { None };
        self.q.clauses = self.q.clauses.max(c.sat.clauses() as u64);
        self.l1 = Some(c);
        match (r, m) {
            (Res::Unsat, _) => return (Res::Unsat, vec![]),
            (Res::Sat, Some(m)) => {
                self.set_model2(m);
            }
            _ => {
                // the second solver starts from anywhere
                let m = self.vars.iter().map(|v| v.lo).collect();
                self.set_model2(m);
            }
        }
        // second solver: what is violated
        let mut c: Option<Blast> = None;
        let mut asm: Vec<Lit> = vec![];
        let base = std::mem::take(&mut self.base_forms);
        let mut used = vec![false; cs.len() + base.len()];
        let res = loop {
            let mut viol = vec![];
            for i in 0..used.len() {
                let f = if i < cs.len() { &cs[i] } else { &base[i - cs.len()] };
                if !used[i] && !self.eval2_form(f) {
                    viol.push(i);
                }
            }
            if viol.is_empty() {
                break (Res::Sat, self.model2.clone());
            }
            let mut k = match c.take() {
                Some(k) => k,
                None => match self.l2.take() {
                    Some(k) if k.sat.vars < 15_000 => k,
                    _ => Blast::new(self),
                },
            };
            let mut unsat = false;
            for &i in viol.iter().take(6) {
                used[i] = true;
                let f = if i < cs.len() { &cs[i] } else { &base[i - cs.len()] };
                let l = k.form(self, f);
                if l == F {
                    unsat = true;
                }
                if l != T {
                    asm.push(l);
                }
            }
            if unsat {
                c = Some(k);
                break (Res::Unsat, vec![]);
            }
            k.shake(self);
            self.q.l2 += 1;
            self.q.clauses = self.q.clauses.max(k.sat.clauses() as u64);
            let r = k.sat.solve(&asm, confl);
            let m = if r == Res::Sat { Some(k.model(self)) } else { None };
            c = Some(k);
            match r {
                Res::Sat => self.set_model2(m.unwrap()),
                Res::Unsat => break (Res::Unsat, vec![]),
                Res::Unknown => break (Res::Unknown, vec![]),
            }
        };
        if c.is_some() {
            self.l2 = c;
        }
        self.base_forms = base;
        res
    }
    pub fn begin(&mut self, model: Vec<i128>) {
        self.model = model;
        self.epoch += 1;
        self.trace.clear();
        self.ticks = 0;
    }
    /// true if every base formula holds for the model: a check of the bit-blaster
    pub fn model_ok(&mut self) -> bool {
        let fs = self.base_forms.clone();
        fs.iter().all(|f| self.eval_form(f))
    }
    pub fn eval_form(&mut self, f: &Form) -> bool {
        match f {
            Form::K(b) => *b,
            Form::A(a, set) => self.atom_sign(*a) & set != 0,
            Form::And(v) => v.iter().all(|x| self.eval_form(x)),
            Form::Or(v) => v.iter().any(|x| self.eval_form(x)),
            Form::Not(x) => !self.eval_form(x),
            Form::Xor(x) => self.eval_form(&x.0) ^ self.eval_form(&x.1),
        }
    }

    // ---------------------------------------------------------------- floats
    fn exact(&self, n: Nid, prec: u32) -> bool {
        let nd = &self.nodes[n as usize];
        bits_of(nd.lo).max(bits_of(nd.hi)) <= prec && nd.fhi < 1e300 && nd.flo > -1e300
    }
    /// The value of a node on this path; forks over its values.
    fn concretise(&mut self, n: Nid) -> (i128, i32) {
        let e = self.nodes[n as usize].e;
        if let Kind::Const(m, e) = self.nodes[n as usize].kind {
            return (m, e);
        }
        let v = self.eval(n);
        // is it the same for all inputs?
        let k = self.konst(v, e);
        let Ok(d) = self.sub(n, k) else { bail(BAIL_INEXACT, "overflow while concretising") };
        let fixed = match self.fixed.get(&n) {
            Some(&f) => f,
            None => {
                let f = match self.sign(d) {
                    Ent::Sign(_) => true,
                    Ent::Atom(a, _) => self.query(&[Form::A(a, 5)]).0 == Res::Unsat,
                };
                self.fixed.insert(n, f);
                f
            }
        };
        if !fixed {
            self.stats.concretised += 1;
            // a prefix taken from an earlier run may exclude the value of that run
            let had = self.had.get(&n).cloned().unwrap_or_default();
            let mut k = 0;
            while k < had.len() {
                let c = self.konst(had[k], e);
                if let Ok(d) = self.sub(n, c) {
                    if let Ent::Atom(a, _) = self.sign(d) {
                        let i = self.trace.len();
                        let is_next = self.want.get(i).is_some_and(|x| x.0 == a);
                        if (is_next || self.known(a) == 2) && self.decide(d, 2) {
                            return (had[k], e);
                        }
                        if self.trace.len() > i {
                            k = 0;
                            continue;
                        }
                    }
                }
                k += 1;
            }
            let h = self.had.entry(n).or_default();
            if !h.contains(&v) {
                h.push(v);
            }
            let z = self.decide(d, 2);
            assert!(z);
        }
        (v, e)
    }
    fn to_f(&self, v: (i128, i32)) -> f64 {
        let (m, e) = v;
        if m == 0 {
            return 0.0;
        }
        let t = m.trailing_zeros() as i32;
        let m = m >> t;
        if bits_of(m) > 53 {
            bail(BAIL_INEXACT, "value does not fit a double");
        }
        ldexp(m as f64, e + t)
    }
    fn bin(&mut self, op: u8, a: f64, b: f64, prec: u32) -> f64 {
        self.stats.arith += 1;
        let x = match unbox64(a.to_bits()) {
            Some(n) => n,
            None => self.konst_f(a),
        };
        let y = match unbox64(b.to_bits()) {
            Some(n) => n,
            None => self.konst_f(b),
        };
        let r = match op {
            b'+' => self.add(x, y),
            b'-' => self.sub(x, y),
            b'*' => self.mul(x, y),
            b'M' => self.maxmin(x, y, true),
            b'm' => self.maxmin(x, y, false),
            _ => Err(Overflow),
        };
        if let Ok(n) = r {
            if op == b'M' || op == b'm' || self.exact(n, prec) {
                return self.out(n);
            }
        }
        // not exact for all inputs: continue with concrete operands
        let cx = self.concretise(x);
        let cy = self.concretise(y);
        let (u, v) = (self.to_f(cx), self.to_f(cy));
        if prec == 24 {
            let (u, v) = (u as f32, v as f32);
            (match op {
                b'+' => u + v,
                b'-' => u - v,
                b'*' => u * v,
                b'/' => u / v,
                b'M' => u.max(v),
                b'm' => u.min(v),
                _ => u % v,
            }) as f64
        } else {
            match op {
                b'+' => u + v,
                b'-' => u - v,
                b'*' => u * v,
                b'/' => u / v,
                b'M' => u.max(v),
                b'm' => u.min(v),
                _ => u % v,
            }
        }
    }
    /// a float for a node: a plain one if it is constant
    fn out(&self, n: Nid) -> f64 {
        if let Kind::Const(m, e) = self.nodes[n as usize].kind {
            if bits_of(m) <= 53 {
                return ldexp(m as f64, e);
            }
        }
        box64(n)
    }
    fn cmp(&mut self, a: f64, b: f64, set: u8) -> bool {
        self.stats.fcmp += 1;
        if a.to_bits() == b.to_bits() && unbox64(a.to_bits()).is_some() {
            return set & 2 != 0;
        }
        let inf = |f: f64| unbox64(f.to_bits()).is_none() && f.is_infinite();
        if inf(a) {
            return set & (if a > 0.0 { 4 } else { 1 }) != 0;
        }
        if inf(b) {
            return set & (if b > 0.0 { 1 } else { 4 }) != 0;
        }
        let x = match unbox64(a.to_bits()) {
            Some(n) => n,
            None => self.konst_f(a),
        };
        let y = match unbox64(b.to_bits()) {
            Some(n) => n,
            None => self.konst_f(b),
        };
        let (nx, ny) = (&self.nodes[x as usize], &self.nodes[y as usize]);
        if nx.fhi < ny.flo {
            return set & 1 != 0;
        }
        if nx.flo > ny.fhi {
            return set & 4 != 0;
        }
        match self.sub(x, y) {
            Ok(d) => self.decide(d, set),
            Err(_) => {
                let cx = self.concretise(x);
                let cy = self.concretise(y);
                let (u, v) = (self.to_f(cx), self.to_f(cy));
                let s = if u < v {
                    1
                } else if u == v {
                    2
                } else {
                    4
                };
                s & set != 0
            }
        }
    }
    pub fn node_of(&mut self, raw: u64) -> Nid {
        if self.f32_mode() {
            match unbox32(raw as u32) {
                Some(n) => n,
                None => self.konst_f(f32::from_bits(raw as u32) as f64),
            }
        } else {
            match unbox64(raw) {
                Some(n) => n,
                None => self.konst_f(f64::from_bits(raw)),
            }
        }
    }
    pub fn f32_mode(&self) -> bool {
        F32_MODE.load(std::sync::atomic::Ordering::Relaxed)
    }
    pub fn orient_node(&mut self, a: (Nid, Nid), b: (Nid, Nid), c: (Nid, Nid)) -> Ok_<Nid> {
        let acx = self.sub(a.0, c.0)?;
        let bcx = self.sub(b.0, c.0)?;
        let acy = self.sub(a.1, c.1)?;
        let bcy = self.sub(b.1, c.1)?;
        let l = self.mul(acx, bcy)?;
        let r = self.mul(acy, bcx)?;
        self.sub(l, r)
    }
    pub fn incircle_node(&mut self, a: (Nid, Nid), b: (Nid, Nid), c: (Nid, Nid), d: (Nid, Nid)) -> Ok_<Nid> {
        let mut rows = vec![];
        for p in [a, b, c] {
            let x = self.sub(p.0, d.0)?;
            let y = self.sub(p.1, d.1)?;
            let xx = self.mul(x, x)?;
            let yy = self.mul(y, y)?;
            let l = self.add(xx, yy)?;
            rows.push((x, y, l));
        }
        let mut acc = self.konst(0, 0);
        for i in 0..3 {
            let (p, q, r) = (rows[i], rows[(i + 1) % 3], rows[(i + 2) % 3]);
            let u = self.mul(q.0, r.1)?;
            let v = self.mul(q.1, r.0)?;
            let m = self.sub(u, v)?;
            let t = self.mul(p.2, m)?;
            acc = self.add(acc, t)?;
        }
        Ok(acc)
    }
}

pub static F32_MODE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn nodes6(v: &[f64]) -> Vec<Nid> {
    let e = eng();
    v.iter()
        .map(|f| match unbox64(f.to_bits()) {
            Some(n) => n,
            None => e.konst_f(*f),
        })
        .collect()
}

fn is_sym(f: f64) -> bool {
    f.to_bits() & MASK == TAG
}
fn is_sym32(f: f32) -> bool {
    f.to_bits() & MASK32 == TAG32
}

/// exact sign of the determinant: the documented contract of robust::orient2d
#[no_mangle]
pub extern "C" fn __sym_orient2d(ax: f64, ay: f64, bx: f64, by: f64, cx: f64, cy: f64) -> f64 {
    if unsafe { ENG.is_null() } {
        panic!("orient2d outside of a symbolic run");
    }
    eng().stats.predicates += 1;
    let n = nodes6(&[ax, ay, bx, by, cx, cy]);
    match eng().orient_node((n[0], n[1]), (n[2], n[3]), (n[4], n[5])) {
        Ok(r) => eng().out(r),
        Err(_) => bail(BAIL_INEXACT, "orient2d exceeds 125 bits"),
    }
}
#[no_mangle]
pub extern "C" fn __sym_incircle(ax: f64, ay: f64, bx: f64, by: f64, cx: f64, cy: f64, dx: f64, dy: f64) -> f64 {
    if unsafe { ENG.is_null() } {
        panic!("incircle outside of a symbolic run");
    }
    eng().stats.predicates += 1;
    let n = nodes6(&[ax, ay, bx, by, cx, cy, dx, dy]);
    match eng().incircle_node((n[0], n[1]), (n[2], n[3]), (n[4], n[5]), (n[6], n[7])) {
        Ok(r) => eng().out(r),
        Err(_) => bail(BAIL_INEXACT, "incircle exceeds 125 bits"),
    }
}

#[no_mangle]
pub extern "C" fn __sym_tick() {
    unsafe {
        if ENG.is_null() {
            return;
        }
        let e = &mut *ENG;
        e.ticks += 1;
        if e.ticks > e.tick_limit {
            bail(BAIL_TICKS, "step limit");
        }
    }
}
#[no_mangle]
pub extern "C" fn __sym_ub() {
    bail(BAIL_UB, "precondition of an unsafe operation violated");
}

/// numbers that stand in the loaded file, in order: text and value
pub struct Tokens {
    pub v: Vec<(String, Nid)>,
    pub next: usize,
}

/// f64::from_str: a number of the loaded file is its (symbolic) value, anything else is parsed
#[no_mangle]
pub unsafe extern "C" fn __sym_from_str_f64(ret: *mut Result<f64, std::num::ParseFloatError>, p: *const u8, len: usize) {
    let s = std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, len));
    let mut r = s.parse::<f64>();
    if !ENG.is_null() {
        let e = &mut *ENG;
        let mut hit = None;
        if let Some(t) = &mut e.tokens {
            if t.next < t.v.len() && t.v[t.next].0 == s {
                hit = Some(t.v[t.next].1);
                t.next += 1;
            } else if let Some(k) = t.v[..t.next].iter().rev().find(|k| k.0 == s) {
                hit = Some(k.1);
            }
        }
        if let Some(n) = hit {
            r = Ok(e.out(n));
        }
    }
    std::ptr::write(ret, r);
}

macro_rules! arith {
    ($n64:ident, $n32:ident, $op:expr, $f64:expr, $f32:expr) => {
        #[no_mangle]
        pub extern "C" fn $n64(a: f64, b: f64) -> f64 {
            if !is_sym(a) && !is_sym(b) {
                let f: fn(f64, f64) -> f64 = $f64;
                return f(a, b);
            }
            eng().bin($op, a, b, 53)
        }
        #[no_mangle]
        pub extern "C" fn $n32(a: f32, b: f32) -> f32 {
            if !is_sym32(a) && !is_sym32(b) {
                let f: fn(f32, f32) -> f32 = $f32;
                return f(a, b);
            }
            let r = eng().bin($op, up(a), up(b), 24);
            down(r)
        }
    };
}
fn up(a: f32) -> f64 {
    match unbox32(a.to_bits()) {
        Some(n) => box64(n),
        None => a as f64,
    }
}
fn down(r: f64) -> f32 {
    match unbox64(r.to_bits()) {
        Some(n) => box32(n),
        None => r as f32,
    }
}
arith!(__sym_fadd_f64, __sym_fadd_f32, b'+', |a, b| a + b, |a, b| a + b);
arith!(__sym_fsub_f64, __sym_fsub_f32, b'-', |a, b| a - b, |a, b| a - b);
arith!(__sym_fmul_f64, __sym_fmul_f32, b'*', |a, b| a * b, |a, b| a * b);
arith!(__sym_fdiv_f64, __sym_fdiv_f32, b'/', |a, b| a / b, |a, b| a / b);
arith!(__sym_frem_f64, __sym_frem_f32, b'%', |a, b| a % b, |a, b| a % b);
arith!(__sym_max_f64, __sym_max_f32, b'M', |a, b| a.max(b), |a, b| a.max(b));
arith!(__sym_min_f64, __sym_min_f32, b'm', |a, b| a.min(b), |a, b| a.min(b));

#[no_mangle]
pub extern "C" fn __sym_fneg_f64(a: f64) -> f64 {
    match unbox64(a.to_bits()) {
        None => -a,
        Some(n) => match eng().negn(n) {
            Ok(r) => eng().out(r),
            Err(_) => bail(BAIL_INEXACT, "negation"),
        },
    }
}
#[no_mangle]
pub extern "C" fn __sym_fneg_f32(a: f32) -> f32 {
    if !is_sym32(a) {
        return -a;
    }
    down(__sym_fneg_f64(up(a)))
}
#[no_mangle]
pub extern "C" fn __sym_abs_f64(a: f64) -> f64 {
    match unbox64(a.to_bits()) {
        None => a.abs(),
        Some(n) => {
            if eng().decide(n, 1) {
                __sym_fneg_f64(a)
            } else {
                a
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn __sym_abs_f32(a: f32) -> f32 {
    if !is_sym32(a) {
        return a.abs();
    }
    down(__sym_abs_f64(up(a)))
}
#[no_mangle]
pub extern "C" fn __sym_conc_f64(a: f64) -> f64 {
    match unbox64(a.to_bits()) {
        None => a,
        Some(n) => {
            let v = eng().concretise(n);
            eng().to_f(v)
        }
    }
}
#[no_mangle]
pub extern "C" fn __sym_conc_f32(a: f32) -> f32 {
    if !is_sym32(a) {
        return a;
    }
    __sym_conc_f64(up(a)) as f32
}
#[no_mangle]
pub extern "C" fn __sym_total_cmp_f64(a: f64, b: f64) -> i8 {
    // inputs are finite and never -0.0 in the scenarios
    if !is_sym(a) && !is_sym(b) {
        return a.total_cmp(&b) as i8;
    }
    if eng().cmp(a, b, 1) {
        -1
    } else if eng().cmp(a, b, 2) {
        0
    } else {
        1
    }
}
#[no_mangle]
pub extern "C" fn __sym_total_cmp_f32(a: f32, b: f32) -> i8 {
    if !is_sym32(a) && !is_sym32(b) {
        return a.total_cmp(&b) as i8;
    }
    __sym_total_cmp_f64(up(a), up(b))
}
#[no_mangle]
pub extern "C" fn __sym_fpext(a: f32) -> f64 {
    up(a)
}
#[no_mangle]
pub extern "C" fn __sym_fptrunc(a: f64) -> f32 {
    match unbox64(a.to_bits()) {
        None => a as f32,
        Some(n) => {
            if eng().exact(n, 24) {
                box32(n)
            } else {
                __sym_conc_f64(a) as f32
            }
        }
    }
}

macro_rules! fcmp {
    ($($n64:ident $n32:ident $set:expr, $nan:expr, $f:expr;)*) => { $(
        #[no_mangle]
        pub extern "C" fn $n64(a: f64, b: f64) -> bool {
            if !is_sym(a) && !is_sym(b) {
                let f: fn(f64, f64) -> bool = $f;
                return f(a, b);
            }
            if (!is_sym(a) && a.is_nan()) || (!is_sym(b) && b.is_nan()) {
                return $nan;
            }
            eng().cmp(a, b, $set)
        }
        #[no_mangle]
        pub extern "C" fn $n32(a: f32, b: f32) -> bool {
            if !is_sym32(a) && !is_sym32(b) {
                let f: fn(f64, f64) -> bool = $f;
                return f(a as f64, b as f64);
            }
            $n64(up(a), up(b))
        }
    )* }
}
fcmp! {
    __sym_fcmp_false_f64 __sym_fcmp_false_f32 0, false, |_, _| false;
    __sym_fcmp_oeq_f64 __sym_fcmp_oeq_f32 2, false, |a, b| a == b;
    __sym_fcmp_ogt_f64 __sym_fcmp_ogt_f32 4, false, |a, b| a > b;
    __sym_fcmp_oge_f64 __sym_fcmp_oge_f32 6, false, |a, b| a >= b;
    __sym_fcmp_olt_f64 __sym_fcmp_olt_f32 1, false, |a, b| a < b;
    __sym_fcmp_ole_f64 __sym_fcmp_ole_f32 3, false, |a, b| a <= b;
    __sym_fcmp_one_f64 __sym_fcmp_one_f32 5, false, |a, b| a < b || a > b;
    __sym_fcmp_ord_f64 __sym_fcmp_ord_f32 7, false, |a, b| !a.is_nan() && !b.is_nan();
    __sym_fcmp_uno_f64 __sym_fcmp_uno_f32 0, true, |a, b| a.is_nan() || b.is_nan();
    __sym_fcmp_ueq_f64 __sym_fcmp_ueq_f32 2, true, |a, b| !(a < b || a > b);
    __sym_fcmp_ugt_f64 __sym_fcmp_ugt_f32 4, true, |a, b| !(a <= b);
    __sym_fcmp_uge_f64 __sym_fcmp_uge_f32 6, true, |a, b| !(a < b);
    __sym_fcmp_ult_f64 __sym_fcmp_ult_f32 1, true, |a, b| !(a >= b);
    __sym_fcmp_ule_f64 __sym_fcmp_ule_f32 3, true, |a, b| !(a > b);
    __sym_fcmp_une_f64 __sym_fcmp_une_f32 5, true, |a, b| a != b;
    __sym_fcmp_true_f64 __sym_fcmp_true_f32 7, true, |_, _| true;
}
