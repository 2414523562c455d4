//! Queries as SMT-LIB, for a second opinion.
use std::collections::HashMap;
use std::fmt::Write;
use symrt::*;

struct Out<'a> {
    e: &'a Engine,
    s: String,
    seen: HashMap<Nid, String>,
    e0: i32,
    w: usize,
}

fn num(v: i128, w: usize) -> String {
    let m: u128 = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
    let mut b = String::from("#b");
    let u = (v as u128) & m;
    for i in (0..w).rev() {
        let bit = if i >= 128 { v < 0 } else { u >> i & 1 == 1 };
        b.push(if bit { '1' } else { '0' });
    }
    b
}

impl Out<'_> {
    /// the term of a node, as an integer times two to the exponent of the node
    fn node(&mut self, n: Nid) -> String {
        if let Some(s) = self.seen.get(&n) {
            return s.clone();
        }
        let nd = &self.e.nodes[n as usize];
        let ex = nd.e;
        let sh = |o: &mut Self, x: Nid| {
            let t = o.node(x);
            let nx = &o.e.nodes[x as usize];
            if nx.lo == 0 && nx.hi == 0 || nx.e == ex {
                t
            } else {
                format!("(bvshl {t} {})", num((nx.e - ex) as i128, o.w))
            }
        };
        let t = match nd.kind {
            Kind::Const(m, _) => num(m, self.w),
            Kind::Var(v) => format!("v{v}"),
            Kind::Add(a, b) => format!("(bvadd {} {})", sh(self, a), sh(self, b)),
            Kind::Sub(a, b) => format!("(bvsub {} {})", sh(self, a), sh(self, b)),
            Kind::Mul(a, b) => format!("(bvmul {} {})", self.node(a), self.node(b)),
            Kind::Neg(a) => format!("(bvneg {})", self.node(a)),
            Kind::Max(a, b) | Kind::Min(a, b) => {
                let (x, y) = (sh(self, a), sh(self, b));
                let op = if matches!(nd.kind, Kind::Max(..)) { "bvsgt" } else { "bvslt" };
                format!("(ite ({op} {x} {y}) {x} {y})")
            }
        };
        let name = format!("n{n}");
        writeln!(self.s, "(define-fun {name} () (_ BitVec {}) {t})", self.w).unwrap();
        self.seen.insert(n, name.clone());
        name
    }
    fn form(&mut self, f: &Form) -> String {
        match f {
            Form::K(b) => b.to_string(),
            Form::A(a, set) => {
                let (n, fl) = self.e.atom_node(*a);
                let set = if fl { flip_set(*set) } else { *set };
                let t = self.node(n);
                let z = num(0, self.w);
                match set {
                    1 => format!("(bvslt {t} {z})"),
                    2 => format!("(= {t} {z})"),
                    3 => format!("(bvsle {t} {z})"),
                    4 => format!("(bvsgt {t} {z})"),
                    5 => format!("(not (= {t} {z}))"),
                    6 => format!("(bvsge {t} {z})"),
                    0 => "false".into(),
                    _ => "true".into(),
                }
            }
            Form::And(v) => {
                let p: Vec<String> = v.iter().map(|x| self.form(x)).collect();
                format!("(and true {})", p.join(" "))
            }
            Form::Or(v) => {
                let p: Vec<String> = v.iter().map(|x| self.form(x)).collect();
                format!("(or false {})", p.join(" "))
            }
            Form::Not(x) => format!("(not {})", self.form(x)),
            Form::Xor(x) => format!("(xor {} {})", self.form(&x.0), self.form(&x.1)),
        }
    }
}

pub fn smtlib(e: &Engine, forms: &[Form], status: &str) -> String {
    let w = e.nodes.iter().map(|n| 130 - n.lo.unsigned_abs().max(n.hi.unsigned_abs()).leading_zeros() as usize).max().unwrap_or(8) + 1;
    let mut o = Out { e, s: String::new(), seen: HashMap::new(), e0: 0, w };
    let _ = o.e0;
    writeln!(o.s, "(set-info :status {status})").unwrap();
    writeln!(o.s, "(set-logic QF_BV)").unwrap();
    for (i, v) in e.vars.iter().enumerate() {
        writeln!(o.s, "(declare-const v{i} (_ BitVec {w}))").unwrap();
        writeln!(o.s, "(assert (and (bvsge v{i} {}) (bvsle v{i} {})))", num(v.lo, w), num(v.hi, w)).unwrap();
    }
    for f in forms {
        let t = o.form(f);
        writeln!(o.s, "(assert {t})").unwrap();
    }
    o.s.push_str("(check-sat)\n");
    o.s
}
