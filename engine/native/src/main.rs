//! Runs the real code on concrete inputs: one request per line on stdin, one answer per line on
//! stdout. A request is `prop watch valid scale spec mode x,y x,y ...`.
use spec::*;
use std::io::{BufRead, Write};
use wire::*;

/// Exact evaluation of the geometric facts. Input coordinates are integers times two to `scale`.
struct Exact {
    ints: Vec<Option<(i128, i128)>>,
    pts: Vec<(f64, f64)>,
}

fn sgn(v: i128) -> u8 {
    if v < 0 { NEG } else if v == 0 { ZERO } else { POS }
}
fn sgnf(v: f64) -> u8 {
    if v < 0.0 { NEG } else if v == 0.0 { ZERO } else { POS }
}

impl Alg for Exact {
    type B = bool;
    fn k(&mut self, v: bool) -> bool { v }
    fn and(&mut self, v: Vec<bool>) -> bool { v.into_iter().all(|x| x) }
    fn or(&mut self, v: Vec<bool>) -> bool { v.into_iter().any(|x| x) }
    fn not(&mut self, b: bool) -> bool { !b }
    fn xor(&mut self, a: bool, b: bool) -> bool { a ^ b }
    fn cx(&mut self, a: usize, b: usize, set: u8) -> bool {
        let (p, q) = (self.pts[a].0, self.pts[b].0);
        (if p < q { NEG } else if p == q { ZERO } else { POS }) & set != 0
    }
    fn cy(&mut self, a: usize, b: usize, set: u8) -> bool {
        let (p, q) = (self.pts[a].1, self.pts[b].1);
        (if p < q { NEG } else if p == q { ZERO } else { POS }) & set != 0
    }
    fn orient(&mut self, a: usize, b: usize, c: usize, set: u8) -> bool {
        if let (Some(p), Some(q), Some(r)) = (self.ints[a], self.ints[b], self.ints[c]) {
            return sgn((p.0 - r.0) * (q.1 - r.1) - (p.1 - r.1) * (q.0 - r.0)) & set != 0;
        }
        let f = |i: usize| robust::Coord { x: self.pts[i].0, y: self.pts[i].1 };
        sgnf(robust::orient2d(f(a), f(b), f(c))) & set != 0
    }
    fn incircle(&mut self, a: usize, b: usize, c: usize, d: usize, set: u8) -> bool {
        if let (Some(p), Some(q), Some(r), Some(s)) = (self.ints[a], self.ints[b], self.ints[c], self.ints[d]) {
            let row = |p: (i128, i128)| {
                let (x, y) = (p.0 - s.0, p.1 - s.1);
                (x, y, x * x + y * y)
            };
            let (p, q, r) = (row(p), row(q), row(r));
            let det = p.2 * (q.0 * r.1 - q.1 * r.0) + q.2 * (r.0 * p.1 - r.1 * p.0) + r.2 * (p.0 * q.1 - p.1 * q.0);
            return sgn(det) & set != 0;
        }
        let f = |i: usize| robust::Coord { x: self.pts[i].0, y: self.pts[i].1 };
        sgnf(robust::incircle(f(a), f(b), f(c), f(d))) & set != 0
    }
    fn area(&mut self, ring: &[usize], set: u8) -> bool {
        let o = self.ints[ring[0]].unwrap();
        let mut acc = 0i128;
        for w in ring[1..].windows(2) {
            let (p, q) = (self.ints[w[0]].unwrap(), self.ints[w[1]].unwrap());
            acc += (p.0 - o.0) * (q.1 - o.1) - (p.1 - o.1) * (q.0 - o.0);
        }
        sgn(acc) & set != 0
    }
    fn range(&mut self, p: usize) -> [f64; 4] {
        let (x, y) = self.pts[p];
        [x, x, y, y]
    }
}

fn to_raw(f: f64) -> Raw {
    if drv::IS_F32 { (f as f32).to_bits() as u64 } else { f.to_bits() }
}
fn from_raw(r: Raw) -> f64 {
    if drv::IS_F32 { f32::from_bits(r as u32) as f64 } else { f64::from_bits(r) }
}
fn pow2(k: i32) -> f64 {
    2f64.powi(k / 2) * 2f64.powi(k - k / 2)
}

extern "C" {
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

/// ends with its parent, and cannot fill the memory
fn confine() {
    unsafe {
        prctl(1, 9, 0, 0, 0);
        // the address sanitizer reserves a large part of the address space
        if !cfg!(asan) {
            setrlimit(9, &[3 << 30, 3 << 30]);
        }
    }
}

#[cfg(asan)]
#[no_mangle]
pub extern "C" fn __asan_default_options() -> *const u8 {
    c"detect_leaks=0:quarantine_size_mb=8:detect_stack_use_after_return=0:allocator_may_return_null=1".as_ptr() as *const u8
}

fn answer(line: &str) -> String {
    let t: Vec<&str> = line.split_whitespace().collect();
    if t[0] == "LOAD" {
        return match drv::run_loader(t[1], t[2] == "1") {
            Ok((p, i)) => format!("OK {:?} {:?}", p, i),
            Err(e) => format!("ERR {}", e.replace('\n', " ")),
        };
    }
    let (prop, watch, need_valid) = (t[0], watch_parse(t[1]), t[2] == "1");
    let scale: i32 = t[3].parse().unwrap();
    let spec = Spec::parse(t[4]);
    let mut mode = Mode::parse(t[5]);
    let ints: Vec<(i128, i128)> = t[6..]
        .iter()
        .map(|p| {
            let (x, y) = p.split_once(',').unwrap();
            (x.parse().unwrap(), y.parse().unwrap())
        })
        .collect();
    assert_eq!(ints.len(), spec.n());
    let s = pow2(scale);
    let pts: Vec<(f64, f64)> = ints.iter().map(|p| (p.0 as f64 * s, p.1 as f64 * s)).collect();
    let raws: Vec<(Raw, Raw)> = pts.iter().map(|p| (to_raw(p.0), to_raw(p.1))).collect();
    let second: Vec<(Raw, Raw)> = match &mode {
        Mode::Scale(k) => pts.iter().map(|p| (to_raw(p.0 * pow2(*k)), to_raw(p.1 * pow2(*k)))).collect(),
        Mode::Shift(dx, dy) => pts.iter().map(|p| (to_raw(p.0 + *dx as f64 * s), to_raw(p.1 + *dy as f64 * s))).collect(),
        Mode::Turn(k) => pts
            .iter()
            .map(|&(x, y)| {
                let (x, y) = if k & 1 != 0 { (y, x) } else { (x, y) };
                // not -x: there is no negative zero
                (to_raw(if k & 2 != 0 { 0. - x } else { x }), to_raw(if k & 4 != 0 { 0. - y } else { y }))
            })
            .collect(),
        Mode::Perm(_, perm) => perm.iter().map(|&i| raws[i]).collect(),
        _ => vec![],
    };
    let mut al = Exact { ints: ints.iter().map(|&p| Some(p)).collect(), pts };
    if need_valid && !valid(&mut al, &spec) {
        return "INVALID".into();
    }
    if let Mode::Load(t, path) = &mut mode {
        *path = format!("{}/load-{}.dat", std::env::var("VERIF_TMP").unwrap_or("/tmp".into()), std::process::id());
        std::fs::write(&*path, render(t, &al.pts).0).unwrap();
    }
    let r = std::panic::catch_unwind(|| drv::execute(&spec, &mode, &raws, &second, watch));
    if let Mode::Load(_, path) = &mode {
        let _ = std::fs::remove_file(path);
    }
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            return format!("PANIC {}", m.replace('\n', " "));
        }
    };
    for k in al.pts.len()..r.log.pts.len() {
        let p = r.log.pts[k];
        al.pts.push((from_raw(p.0), from_raw(p.1)));
        al.ints.push(None);
    }
    let mut o = Obs::new();
    property(&mut al, prop, &spec, &mode, &raws, &r, &mut o);
    let bad: Vec<String> = o.v.iter().filter(|x| !x.holds).map(|x| x.what.clone()).collect();
    let mut h = digest(&r);
    for c in result_coords(&r) {
        for w in [from_raw(c.0), from_raw(c.1)] {
            h = h.wrapping_mul(0x100000001b3) ^ (w + 0.0).to_bits();
        }
    }
    format!("OK {h:x} {} {} {}", r.out.indices.len() / 3, bad.len(), bad.join("; "))
}

fn main() {
    confine();
    std::panic::set_hook(Box::new(|i| {
        // the checks of the standard library on unsafe operations end the process
        let m = i.to_string();
        if m.contains("unsafe precondition") {
            eprintln!("{m}");
        }
    }));
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(|| {
            let stdin = std::io::stdin();
            let mut out = std::io::stdout();
            for l in stdin.lock().lines() {
                let l = l.unwrap();
                let a = answer(&l);
                writeln!(out, "{a}").unwrap();
                out.flush().unwrap();
            }
        })
        .unwrap()
        .join()
        .unwrap();
}
