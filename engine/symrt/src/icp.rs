//! Interval constraint propagation with branching: decides conjunctions of polynomial sign
//! conditions over bounded integers.
use crate::*;
use std::ops::{Add, Mul, Neg, Sub};

pub trait Num: Copy + Ord + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Neg<Output = Self> {
    fn of(v: i128) -> Self;
    fn zero() -> Self;
    fn shl(self, k: u32) -> Self;
}
impl Num for i64 {
    fn of(v: i128) -> Self {
        v as i64
    }
    fn zero() -> Self {
        0
    }
    fn shl(self, k: u32) -> Self {
        self << k
    }
}
impl Num for i128 {
    fn of(v: i128) -> Self {
        v
    }
    fn zero() -> Self {
        0
    }
    fn shl(self, k: u32) -> Self {
        self << k
    }
}

#[derive(Clone, Copy)]
enum Op<T> {
    K(T),
    V(u32),
    Add(u32, u32, u32, u32),
    Sub(u32, u32, u32, u32),
    Mul(u32, u32),
    Sq(u32),
    Neg(u32),
    Max(u32, u32, u32, u32),
    Min(u32, u32, u32, u32),
}

enum Tree {
    A(u32, u8),
    And(Vec<Tree>),
    Or(Vec<Tree>),
    Not(Box<Tree>),
    Xor(Box<Tree>, Box<Tree>),
    K(bool),
}

/// sum of coefficient * variable + constant, in the sign set
struct Lin {
    c: Vec<(u32, i128)>,
    k: i128,
    set: u8,
}

struct Icp<T> {
    ops: Vec<Op<T>>,
    stamp: Vec<u32>,
    lo: Vec<T>,
    hi: Vec<T>,
    epoch: u32,
    local: HashMap<Nid, u32>,
    cons: Vec<Tree>,
    lins: Vec<Lin>,
    vlo: Vec<i128>,
    vhi: Vec<i128>,
    boxes: u64,
    limit: u64,
    rng: u64,
    uses: Vec<Vec<u32>>,
}

#[derive(PartialEq, Clone, Copy)]
enum Tri {
    Yes,
    No,
    Maybe,
}

impl<T: Num> Icp<T> {
    fn add(&mut self, e: &Engine, n: Nid) -> u32 {
        if let Some(&i) = self.local.get(&n) {
            return i;
        }
        let nd = &e.nodes[n as usize];
        let ex = nd.e;
        let sh = |x: Nid| {
            let nx = &e.nodes[x as usize];
            if nx.lo == 0 && nx.hi == 0 {
                0
            } else {
                (nx.e - ex) as u32
            }
        };
        let op = match nd.kind {
            Kind::Const(m, _) => Op::K(T::of(m)),
            Kind::Var(v) => Op::V(v),
            Kind::Add(a, b) => Op::Add(self.add(e, a), sh(a), self.add(e, b), sh(b)),
            Kind::Sub(a, b) => Op::Sub(self.add(e, a), sh(a), self.add(e, b), sh(b)),
            Kind::Mul(a, b) if a == b => Op::Sq(self.add(e, a)),
            Kind::Mul(a, b) => Op::Mul(self.add(e, a), self.add(e, b)),
            Kind::Neg(a) => Op::Neg(self.add(e, a)),
            Kind::Max(a, b) => Op::Max(self.add(e, a), sh(a), self.add(e, b), sh(b)),
            Kind::Min(a, b) => Op::Min(self.add(e, a), sh(a), self.add(e, b), sh(b)),
        };
        self.ops.push(op);
        self.stamp.push(0);
        self.lo.push(T::zero());
        self.hi.push(T::zero());
        let i = self.ops.len() as u32 - 1;
        self.local.insert(n, i);
        i
    }
    fn tree(&mut self, e: &Engine, f: &Form) -> Tree {
        match f {
            Form::K(b) => Tree::K(*b),
            Form::A(a, set) => {
                let (n, fl) = e.atom_node(*a);
                let set = if fl { flip_set(*set) } else { *set };
                Tree::A(self.add(e, n), set)
            }
            Form::And(v) => Tree::And(v.iter().map(|x| self.tree(e, x)).collect()),
            Form::Or(v) => Tree::Or(v.iter().map(|x| self.tree(e, x)).collect()),
            Form::Not(x) => Tree::Not(Box::new(self.tree(e, x))),
            Form::Xor(x) => Tree::Xor(Box::new(self.tree(e, &x.0)), Box::new(self.tree(e, &x.1))),
        }
    }
    fn ev(&mut self, n: u32) -> (T, T) {
        let i = n as usize;
        if self.stamp[i] == self.epoch {
            return (self.lo[i], self.hi[i]);
        }
        let r = match self.ops[i] {
            Op::K(v) => (v, v),
            Op::V(v) => (T::of(self.vlo[v as usize]), T::of(self.vhi[v as usize])),
            Op::Add(a, sa, b, sb) => {
                let (x, y) = (self.ev(a), self.ev(b));
                (x.0.shl(sa) + y.0.shl(sb), x.1.shl(sa) + y.1.shl(sb))
            }
            Op::Sub(a, sa, b, sb) => {
                let (x, y) = (self.ev(a), self.ev(b));
                (x.0.shl(sa) - y.1.shl(sb), x.1.shl(sa) - y.0.shl(sb))
            }
            Op::Neg(a) => {
                let x = self.ev(a);
                (-x.1, -x.0)
            }
            Op::Mul(a, b) => {
                let (x, y) = (self.ev(a), self.ev(b));
                let p = [x.0 * y.0, x.0 * y.1, x.1 * y.0, x.1 * y.1];
                (p[0].min(p[1]).min(p[2]).min(p[3]), p[0].max(p[1]).max(p[2]).max(p[3]))
            }
            Op::Sq(a) => {
                let x = self.ev(a);
                let (p, q) = (x.0 * x.0, x.1 * x.1);
                if x.0 <= T::zero() && x.1 >= T::zero() {
                    (T::zero(), p.max(q))
                } else {
                    (p.min(q), p.max(q))
                }
            }
            Op::Max(a, sa, b, sb) => {
                let (x, y) = (self.ev(a), self.ev(b));
                (x.0.shl(sa).max(y.0.shl(sb)), x.1.shl(sa).max(y.1.shl(sb)))
            }
            Op::Min(a, sa, b, sb) => {
                let (x, y) = (self.ev(a), self.ev(b));
                (x.0.shl(sa).min(y.0.shl(sb)), x.1.shl(sa).min(y.1.shl(sb)))
            }
        };
        self.stamp[i] = self.epoch;
        self.lo[i] = r.0;
        self.hi[i] = r.1;
        r
    }
    fn tri(&mut self, t: *const Tree) -> Tri {
        // the trees are not modified while they are evaluated
        match unsafe { &*t } {
            Tree::K(b) => {
                if *b {
                    Tri::Yes
                } else {
                    Tri::No
                }
            }
            Tree::A(n, set) => {
                let (l, h) = self.ev(*n);
                let z = T::zero();
                let mut p = 0;
                if l < z {
                    p |= 1;
                }
                if l <= z && h >= z {
                    p |= 2;
                }
                if h > z {
                    p |= 4;
                }
                if p & set == 0 {
                    Tri::No
                } else if p & !set == 0 {
                    Tri::Yes
                } else {
                    Tri::Maybe
                }
            }
            Tree::And(v) => {
                let mut r = Tri::Yes;
                for x in v {
                    match self.tri(x) {
                        Tri::No => return Tri::No,
                        Tri::Maybe => r = Tri::Maybe,
                        Tri::Yes => {}
                    }
                }
                r
            }
            Tree::Or(v) => {
                let mut r = Tri::No;
                for x in v {
                    match self.tri(x) {
                        Tri::Yes => return Tri::Yes,
                        Tri::Maybe => r = Tri::Maybe,
                        Tri::No => {}
                    }
                }
                r
            }
            Tree::Not(x) => match self.tri(&**x) {
                Tri::Yes => Tri::No,
                Tri::No => Tri::Yes,
                m => m,
            },
            Tree::Xor(a, b) => match (self.tri(&**a), self.tri(&**b)) {
                (Tri::Maybe, _) | (_, Tri::Maybe) => Tri::Maybe,
                (x, y) => {
                    if x != y {
                        Tri::Yes
                    } else {
                        Tri::No
                    }
                }
            },
        }
    }
    /// narrows the variables by the linear constraints; false if that leaves nothing
    fn contract(&mut self) -> bool {
        for _ in 0..8 {
            let mut changed = false;
            for l in &self.lins {
                // sum <= -d, or -sum <= -d
                for (neg, d) in [(false, l.set & 4 == 0), (true, l.set & 1 == 0)]
                    .into_iter()
                    .filter(|x| x.1)
                    .map(|x| (x.0, if l.set & 2 == 0 { 1 } else { 0 }))
                {
                    let mut low = if neg { -l.k } else { l.k } + d;
                    for &(v, c) in &l.c {
                        let c = if neg { -c } else { c };
                        low += if c > 0 { c * self.vlo[v as usize] } else { c * self.vhi[v as usize] };
                    }
                    if low > 0 {
                        return false;
                    }
                    for &(v, c) in &l.c {
                        let c = if neg { -c } else { c };
                        let v = v as usize;
                        if c > 0 {
                            // c * (x - lo) <= -low
                            let m = self.vlo[v] + (-low).div_euclid(c);
                            if m < self.vhi[v] {
                                self.vhi[v] = m;
                                changed = true;
                            }
                        } else {
                            let m = self.vhi[v] - (-low).div_euclid(-c);
                            if m > self.vlo[v] {
                                self.vlo[v] = m;
                                changed = true;
                            }
                        }
                        if self.vlo[v] > self.vhi[v] {
                            return false;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        true
    }
    fn coin(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    /// Some(true): found (in vlo), Some(false): none, None: limit
    fn search(&mut self, active: &[u32]) -> Option<bool> {
        self.boxes += 1;
        if self.boxes > self.limit {
            return None;
        }
        if !self.contract() {
            return Some(false);
        }
        self.epoch += 1;
        let mut rest = vec![];
        for &c in active {
            let t: *const Tree = &self.cons[c as usize];
            match self.tri(t) {
                Tri::No => return Some(false),
                Tri::Yes => {}
                Tri::Maybe => rest.push(c),
            }
        }
        let n = self.vlo.len();
        if rest.is_empty() {
            // any point of the box
            for v in 0..n {
                let w = (self.vhi[v] - self.vlo[v] + 1) as u64;
                let r = self.coin() % w.max(1);
                self.vlo[v] += r as i128;
                self.vhi[v] = self.vlo[v];
            }
            // the linear constraints are among the others, so nothing else is left
            return Some(true);
        }
        let mut weight = vec![0u64; n];
        for &c in &rest {
            for &v in &self.uses[c as usize] {
                weight[v as usize] += 1;
            }
        }
        let mut best = None;
        let mut bs = 0u128;
        for v in 0..n {
            let w = (self.vhi[v] - self.vlo[v]) as u128;
            if w == 0 || weight[v] == 0 {
                continue;
            }
            let s = w * 16 + weight[v].min(15) as u128;
            if s > bs {
                bs = s;
                best = Some(v);
            }
        }
        let v = best.expect("undecided constraint on a point");
        let (slo, shi) = (self.vlo.clone(), self.vhi.clone());
        let m = slo[v] + (shi[v] - slo[v]) / 2;
        let first = self.coin() >> 7 & 1;
        for k in 0..2 {
            self.vlo.copy_from_slice(&slo);
            self.vhi.copy_from_slice(&shi);
            if k == first {
                self.vhi[v] = m;
            } else {
                self.vlo[v] = m + 1;
            }
            match self.search(&rest) {
                Some(false) => {}
                r => return r,
            }
        }
        Some(false)
    }
}

fn atoms_of(f: &Form, v: &mut Vec<u32>) {
    match f {
        Form::K(_) => {}
        Form::A(a, _) => v.push(*a),
        Form::And(x) | Form::Or(x) => x.iter().for_each(|y| atoms_of(y, v)),
        Form::Not(x) => atoms_of(x, v),
        Form::Xor(x) => {
            atoms_of(&x.0, v);
            atoms_of(&x.1, v);
        }
    }
}

fn go<T: Num>(e: &mut Engine, fs: &[&Form], limit: u64) -> (Option<bool>, Vec<i128>, u64) {
    let mut s: Icp<T> = Icp {
        ops: vec![],
        stamp: vec![],
        lo: vec![],
        hi: vec![],
        epoch: 0,
        local: HashMap::new(),
        cons: vec![],
        lins: vec![],
        vlo: e.vars.iter().map(|v| v.lo).collect(),
        vhi: e.vars.iter().map(|v| v.hi).collect(),
        boxes: 0,
        limit,
        rng: e.flip_coin(),
        uses: vec![],
    };
    for f in fs {
        if let Form::A(a, set) = f {
            let (n, fl) = e.atom_node(*a);
            let set = if fl { flip_set(*set) } else { *set };
            if let Some(p) = &e.nodes[n as usize].poly {
                if p.len() <= 4 && *set_ok(&set) && p.iter().all(|&(m, _)| m < 1 << 8 && m as usize <= e.vars.len()) {
                    let mut l = Lin { c: vec![], k: 0, set };
                    for &(m, c) in p.iter() {
                        if m == 0 {
                            l.k = c;
                        } else {
                            l.c.push((m as u32 - 1, c));
                        }
                    }
                    s.lins.push(l);
                }
            }
        }
        let t = s.tree(e, f);
        s.cons.push(t);
        let mut at = vec![];
        atoms_of(f, &mut at);
        let mut u: Vec<u32> = vec![];
        for a in at {
            u.extend(e.support(a).iter());
        }
        u.sort();
        u.dedup();
        s.uses.push(u);
    }
    let all: Vec<u32> = (0..s.cons.len() as u32).collect();
    let r = s.search(&all);
    (r, s.vlo, s.boxes)
}

fn set_ok(s: &u8) -> &'static bool {
    // a set that bounds the value from at least one side
    if s & 4 == 0 || s & 1 == 0 {
        &true
    } else {
        &false
    }
}

pub fn solve(e: &mut Engine, cs: &[Form], base: &[Form], limit: u64) -> (Res, Vec<i128>) {
    let fs: Vec<&Form> = cs.iter().chain(base.iter()).collect();
    let big = e.wide;
    let (r, m, n) = if big { go::<i128>(e, &fs, limit / 4) } else { go::<i64>(e, &fs, limit) };
    e.q.boxes += n;
    match r {
        Some(true) => (Res::Sat, m),
        Some(false) => (Res::Unsat, vec![]),
        None => (Res::Unknown, vec![]),
    }
}
