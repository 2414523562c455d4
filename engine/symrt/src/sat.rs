//! Incremental SAT solver (MiniSat) and a bit-vector circuit builder on top of it.
use std::collections::HashMap;

pub enum S {}
extern "C" {
    fn ms_new() -> *mut S;
    fn ms_free(s: *mut S);
    fn ms_newvar(s: *mut S, dec: i32) -> i32;
    fn ms_decision(s: *mut S, v: i32, d: i32);
    fn ms_add(s: *mut S, l: *const i32, n: i32) -> i32;
    fn ms_solve(s: *mut S, l: *const i32, n: i32, confl: i64, seed: f64) -> i32;
    fn ms_value(s: *mut S, v: i32) -> i32;
    fn ms_polarity(s: *mut S, v: i32, b: i32);
    fn ms_conflicts(s: *mut S) -> i64;
    fn ms_nclauses(s: *mut S) -> i64;
}

pub type Lit = i32;
pub const T: Lit = 0; // literal of variable 0, asserted true
pub const F: Lit = 1;

pub fn neg(l: Lit) -> Lit {
    l ^ 1
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

/// little endian two's complement, last bit is the sign; never empty
pub type Bits = Vec<Lit>;

pub struct Sat {
    s: *mut S,
    ands: HashMap<(Lit, Lit), Lit>,
    xors: HashMap<(Lit, Lit), Lit>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: std::time::Duration,
    pub vars: u64,
    /// may the solver branch on gates
    gates: bool,
}

/// the time one call of the SAT solver may take
pub static WALL_MS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(3000);

impl Sat {
    pub fn new() -> Sat {
        let s = unsafe { ms_new() };
        let mut r = Sat {
            s,
            ands: HashMap::new(),
            xors: HashMap::new(),
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            time: Default::default(),
            vars: 0,
            gates: std::env::var("GATES").is_ok(),
        };
        let v = r.var();
        assert_eq!(v, T);
        r.clause(&[T]);
        r
    }
    pub fn var(&mut self) -> Lit {
        self.vars += 1;
        2 * unsafe { ms_newvar(self.s, self.gates as i32) }
    }
    /// a variable that is no function of others
    pub fn input(&mut self) -> Lit {
        self.vars += 1;
        2 * unsafe { ms_newvar(self.s, 1) }
    }
    pub fn decision(&mut self, l: Lit, d: bool) {
        unsafe { ms_decision(self.s, l >> 1, d as i32) }
    }
    pub fn clause(&mut self, l: &[Lit]) {
        unsafe { ms_add(self.s, l.as_ptr(), l.len() as i32) };
    }
    pub fn solve(&mut self, assume: &[Lit], confl: i64) -> Res {
        let t = std::time::Instant::now();
        let (limit, mut left) = (WALL_MS.load(std::sync::atomic::Ordering::Relaxed) as u128, confl);
        let r = loop {
            let part = left.min(500);
            let r = unsafe { ms_solve(self.s, assume.as_ptr(), assume.len() as i32, part, 1.0) };
            left -= part;
            if r >= 0 || left <= 0 || t.elapsed().as_millis() > limit {
                break r;
            }
        };
        self.time += t.elapsed();
        self.queries += 1;
        if std::env::var("SAT_TRACE").is_ok() { eprintln!("q {} r {} ms {:.1} confl {} vars {} clauses {}", self.queries, r, t.elapsed().as_secs_f64()*1e3, self.conflicts(), self.vars, self.clauses()); }
        match r {
            1 => {
                self.sat += 1;
                Res::Sat
            }
            0 => {
                self.unsat += 1;
                Res::Unsat
            }
            _ => {
                self.unknown += 1;
                Res::Unknown
            }
        }
    }
    pub fn value(&self, l: Lit) -> bool {
        (unsafe { ms_value(self.s, l >> 1) } != 0) ^ (l & 1 != 0)
    }
    pub fn polarity(&mut self, l: Lit, b: bool) {
        unsafe { ms_polarity(self.s, l >> 1, b as i32) }
    }
    pub fn conflicts(&self) -> i64 {
        unsafe { ms_conflicts(self.s) }
    }
    pub fn clauses(&self) -> i64 {
        unsafe { ms_nclauses(self.s) }
    }

    pub fn and(&mut self, a: Lit, b: Lit) -> Lit {
        if a == F || b == F || a == neg(b) {
            return F;
        }
        if a == T || a == b {
            return b;
        }
        if b == T {
            return a;
        }
        let k = (a.min(b), a.max(b));
        if let Some(&r) = self.ands.get(&k) {
            return r;
        }
        let r = self.var();
        self.clause(&[neg(r), a]);
        self.clause(&[neg(r), b]);
        self.clause(&[r, neg(a), neg(b)]);
        self.ands.insert(k, r);
        r
    }
    pub fn or(&mut self, a: Lit, b: Lit) -> Lit {
        neg(self.and(neg(a), neg(b)))
    }
    pub fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        if a == F {
            return b;
        }
        if b == F {
            return a;
        }
        if a == T {
            return neg(b);
        }
        if b == T {
            return neg(a);
        }
        if a == b {
            return F;
        }
        if a == neg(b) {
            return T;
        }
        let sign = (a & 1) ^ (b & 1);
        let (a, b) = (a & !1, b & !1);
        let k = (a.min(b), a.max(b));
        let r = if let Some(&r) = self.xors.get(&k) {
            r
        } else {
            let r = self.var();
            self.clause(&[neg(r), a, b]);
            self.clause(&[neg(r), neg(a), neg(b)]);
            self.clause(&[r, neg(a), b]);
            self.clause(&[r, a, neg(b)]);
            self.xors.insert(k, r);
            r
        };
        r ^ sign
    }
    pub fn mux(&mut self, c: Lit, t: Lit, e: Lit) -> Lit {
        if t == e {
            return t;
        }
        let x = self.and(c, t);
        let y = self.and(neg(c), e);
        self.or(x, y)
    }
    pub fn big_and(&mut self, v: &[Lit]) -> Lit {
        let mut c: Vec<Lit> = v.iter().copied().filter(|&l| l != T).collect();
        c.sort();
        c.dedup();
        if c.contains(&F) || c.windows(2).any(|w| w[0] == neg(w[1]) && w[0] & 1 == 0) {
            return F;
        }
        match c.len() {
            0 => T,
            1 => c[0],
            2 => self.and(c[0], c[1]),
            _ => {
                let r = self.var();
                let mut all = vec![r];
                for &l in &c {
                    self.clause(&[neg(r), l]);
                    all.push(neg(l));
                }
                self.clause(&all);
                r
            }
        }
    }
    pub fn big_or(&mut self, v: &[Lit]) -> Lit {
        let n: Vec<Lit> = v.iter().map(|&l| neg(l)).collect();
        neg(self.big_and(&n))
    }
    fn maj(&mut self, a: Lit, b: Lit, c: Lit) -> Lit {
        // constants and equalities are folded by the gates
        let ab = self.and(a, b);
        let x = self.or(a, b);
        let xc = self.and(x, c);
        self.or(ab, xc)
    }

    pub fn konst(v: i128) -> Bits {
        let mut r = vec![];
        let mut v = v;
        loop {
            r.push(if v & 1 != 0 { T } else { F });
            if (v == 0 || v == -1) && r.len() > 0 {
                break;
            }
            v >>= 1;
        }
        // last bit is the sign
        let s = if v == -1 { T } else { F };
        if *r.last().unwrap() != s {
            r.push(s);
        }
        r
    }
    fn bit(a: &Bits, i: usize) -> Lit {
        if i < a.len() {
            a[i]
        } else {
            *a.last().unwrap()
        }
    }
    fn trim(mut a: Bits) -> Bits {
        while a.len() > 1 && a[a.len() - 1] == a[a.len() - 2] {
            a.pop();
        }
        a
    }
    /// drops high bits, for a value known to fit
    pub fn fit(a: Bits, w: usize) -> Bits {
        let mut a = a;
        if a.len() > w {
            a.truncate(w);
        }
        Self::trim(a)
    }
    fn add_c(&mut self, a: &Bits, b: &Bits, cin: Lit, bneg: bool) -> Bits {
        let w = a.len().max(b.len()) + 1;
        let mut c = cin;
        let mut r = Vec::with_capacity(w);
        for i in 0..w {
            let x = Self::bit(a, i);
            let y = Self::bit(b, i) ^ (bneg as i32);
            let xy = self.xor(x, y);
            r.push(self.xor(xy, c));
            if i + 1 < w {
                c = self.maj(x, y, c);
            }
        }
        Self::trim(r)
    }
    pub fn add(&mut self, a: &Bits, b: &Bits) -> Bits {
        if a.len() == 1 && a[0] == F {
            return b.clone();
        }
        if b.len() == 1 && b[0] == F {
            return a.clone();
        }
        self.add_c(a, b, F, false)
    }
    pub fn sub(&mut self, a: &Bits, b: &Bits) -> Bits {
        if b.len() == 1 && b[0] == F {
            return a.clone();
        }
        self.add_c(a, b, T, true)
    }
    pub fn negate(&mut self, a: &Bits) -> Bits {
        let z = vec![F];
        self.add_c(&z, a, T, true)
    }
    pub fn shl(a: &Bits, k: usize) -> Bits {
        if a.len() == 1 && a[0] == F {
            return a.clone();
        }
        let mut r = vec![F; k];
        r.extend_from_slice(a);
        r
    }
    fn is_const(a: &Bits) -> Option<i128> {
        if a.len() > 120 || a.iter().any(|&l| l != T && l != F) {
            return None;
        }
        let mut v: i128 = if *a.last().unwrap() == T { -1 } else { 0 };
        for &l in a.iter().rev() {
            v = (v << 1) | ((l == T) as i128);
        }
        Some(v)
    }
    pub fn mul_const(&mut self, a: &Bits, k: i128) -> Bits {
        if let Some(c) = Self::is_const(a) {
            if let Some(p) = c.checked_mul(k) {
                return Self::konst(p);
            }
        }
        // non-adjacent form
        let mut acc = vec![F];
        let mut k = k;
        let mut sh = 0;
        while k != 0 {
            if k & 1 != 0 {
                let d = 2 - (k & 3); // 1 or -1
                let t = Self::shl(a, sh);
                if d == 1 {
                    acc = self.add(&acc, &t);
                    k -= 1;
                } else {
                    acc = self.sub(&acc, &t);
                    k += 1;
                }
            }
            k >>= 1;
            sh += 1;
        }
        acc
    }
    pub fn mul(&mut self, a: &Bits, b: &Bits) -> Bits {
        if let Some(c) = Self::is_const(a) {
            return self.mul_const(b, c);
        }
        if let Some(c) = Self::is_const(b) {
            return self.mul_const(a, c);
        }
        let (a, b) = if a.len() < b.len() { (b, a) } else { (a, b) };
        let w = a.len() + b.len();
        let mut acc = vec![F];
        for (j, &bj) in b.iter().enumerate() {
            let row: Bits = a.iter().map(|&x| self.and(x, bj)).collect();
            let row = Self::shl(&row, j);
            acc = if j + 1 == b.len() { self.sub(&acc, &row) } else { self.add(&acc, &row) };
        }
        Self::fit(acc, w)
    }
    pub fn is_zero(&mut self, a: &Bits) -> Lit {
        let n: Vec<Lit> = a.iter().map(|&l| neg(l)).collect();
        self.big_and(&n)
    }
}

impl Drop for Sat {
    fn drop(&mut self) {
        unsafe { ms_free(self.s) }
    }
}
