//! The properties over symbolic coordinates: every geometric fact is a formula.
use crate::*;
use spec::Alg;
use std::rc::Rc;

pub struct SymAlg<'a> {
    pub e: &'a mut Engine,
    pub pts: Vec<(Nid, Nid)>,
    pub overflow: bool,
}

impl SymAlg<'_> {
    fn f(&mut self, r: Result<Nid, Overflow>, set: u8, bad: bool) -> Form {
        match r {
            Ok(n) => self.e.node_form(n, set),
            Err(_) => {
                // not expressible: never counted as a violation, reported as unresolved
                self.overflow = true;
                Form::K(bad)
            }
        }
    }
}

impl Alg for SymAlg<'_> {
    type B = Form;
    fn k(&mut self, v: bool) -> Form {
        Form::K(v)
    }
    fn and(&mut self, v: Vec<Form>) -> Form {
        let mut r = vec![];
        for f in v {
            match f {
                Form::K(false) => return Form::K(false),
                Form::K(true) => {}
                f => r.push(f),
            }
        }
        match r.len() {
            0 => Form::K(true),
            1 => r.pop().unwrap(),
            _ => Form::And(Rc::new(r)),
        }
    }
    fn or(&mut self, v: Vec<Form>) -> Form {
        let mut r = vec![];
        for f in v {
            match f {
                Form::K(true) => return Form::K(true),
                Form::K(false) => {}
                f => r.push(f),
            }
        }
        match r.len() {
            0 => Form::K(false),
            1 => r.pop().unwrap(),
            _ => Form::Or(Rc::new(r)),
        }
    }
    fn not(&mut self, b: Form) -> Form {
        match b {
            Form::K(b) => Form::K(!b),
            Form::A(a, s) => Form::A(a, 7 & !s),
            f => Form::Not(Rc::new(f)),
        }
    }
    fn xor(&mut self, a: Form, b: Form) -> Form {
        match (&a, &b) {
            (Form::K(false), _) => b,
            (_, Form::K(false)) => a,
            (Form::K(true), _) => self.not(b),
            (_, Form::K(true)) => self.not(a),
            _ => Form::Xor(Rc::new((a, b))),
        }
    }
    fn cx(&mut self, a: usize, b: usize, set: u8) -> Form {
        let r = self.e.sub(self.pts[a].0, self.pts[b].0);
        self.f(r, set, true)
    }
    fn cy(&mut self, a: usize, b: usize, set: u8) -> Form {
        let r = self.e.sub(self.pts[a].1, self.pts[b].1);
        self.f(r, set, true)
    }
    fn orient(&mut self, a: usize, b: usize, c: usize, set: u8) -> Form {
        let (p, q, r) = (self.pts[a], self.pts[b], self.pts[c]);
        let n = self.e.orient_node(p, q, r);
        self.f(n, set, true)
    }
    fn incircle(&mut self, a: usize, b: usize, c: usize, d: usize, set: u8) -> Form {
        let (p, q, r, s) = (self.pts[a], self.pts[b], self.pts[c], self.pts[d]);
        let n = self.e.incircle_node(p, q, r, s);
        self.f(n, set, true)
    }
    fn area(&mut self, ring: &[usize], set: u8) -> Form {
        let o = self.pts[ring[0]];
        let mut acc = self.e.konst(0, 0);
        for i in 1..ring.len() - 1 {
            let (p, q) = (self.pts[ring[i]], self.pts[ring[i + 1]]);
            let n = match self.e.orient_node(o, p, q) {
                Ok(n) => n,
                Err(_) => {
                    self.overflow = true;
                    return Form::K(true);
                }
            };
            acc = match self.e.add(acc, n) {
                Ok(n) => n,
                Err(_) => {
                    self.overflow = true;
                    return Form::K(true);
                }
            };
        }
        self.e.node_form(acc, set)
    }
    fn range(&mut self, p: usize) -> [f64; 4] {
        let (x, y) = self.pts[p];
        let (x, y) = (&self.e.nodes[x as usize], &self.e.nodes[y as usize]);
        [x.flo, x.fhi, y.flo, y.fhi]
    }
}
