//! One job: explores the paths of the code under test for one scenario and decides the property
//! on every path. Reads the job from stdin, writes one JSON object to stdout.
mod native;
use native::*;
use spec::*;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::{Duration, Instant};
use symrt::alg::SymAlg;
use symrt::sat::*;
use symrt::*;
use wire::*;

#[derive(Clone, Copy, Debug)]
enum Co {
    K(i128),
    V(i128, i128),
    /// the same variable as another coordinate, plus a constant
    Ref(usize, bool, i128),
}

struct Job {
    name: String,
    prop: String,
    spec: Spec,
    mode: Mode,
    watch: Watch,
    watch_s: String,
    scale: i32,
    pts: Vec<(Co, Co)>,
    valid: bool,
    bbox: Option<[i128; 4]>,
    order: Vec<(usize, usize)>,
    confl: i64,
    paths: usize,
    time: f64,
    seed: u64,
    ticks: u64,
    native: String,
    native2: Option<String>,
    seeds: Vec<Vec<i128>>,
    sym_first: bool,
    export: usize,
    icp: u64,
}

fn coord(t: &str) -> Co {
    if let Some(r) = t.strip_prefix("v:") {
        let (a, b) = r.split_once(':').unwrap();
        Co::V(a.parse().unwrap(), b.parse().unwrap())
    } else if t.starts_with('x') || t.starts_with('y') {
        let r = &t[1..];
        let (i, d) = match r.find(['+', '-']) {
            Some(p) => (&r[..p], r[p..].parse().unwrap()),
            None => (r, 0),
        };
        Co::Ref(i.parse().unwrap(), t.starts_with('x'), d)
    } else {
        Co::K(t.parse().unwrap())
    }
}

fn parse_job(text: &str) -> Job {
    let mut j = Job {
        name: String::new(),
        prop: String::new(),
        spec: Spec::default(),
        mode: Mode::Run,
        watch: Watch::None,
        watch_s: "none".into(),
        scale: 0,
        pts: vec![],
        valid: true,
        bbox: None,
        order: vec![],
        confl: 20000,
        paths: usize::MAX,
        time: 30.0,
        seed: 1,
        ticks: 1_000_000_000,
        native: String::new(),
        native2: None,
        seeds: vec![],
        sym_first: false,
        export: 0,
        icp: 100_000,
    };
    for l in text.lines() {
        let Some((k, v)) = l.split_once(' ') else { continue };
        match k {
            "name" => j.name = v.into(),
            "prop" => j.prop = v.into(),
            "spec" => j.spec = Spec::parse(v),
            "mode" => j.mode = Mode::parse(v),
            "watch" => {
                j.watch = watch_parse(v);
                j.watch_s = v.into();
            }
            "scale" => j.scale = v.parse().unwrap(),
            "pts" => {
                j.pts = v
                    .split_whitespace()
                    .map(|p| {
                        let (x, y) = p.split_once(',').unwrap();
                        (coord(x), coord(y))
                    })
                    .collect()
            }
            "valid" => j.valid = v == "1",
            "bbox" => {
                let b: Vec<i128> = v.split_whitespace().map(|x| x.parse().unwrap()).collect();
                j.bbox = Some([b[0], b[1], b[2], b[3]]);
            }
            "order" => {
                let b: Vec<usize> = v.split_whitespace().map(|x| x.parse().unwrap()).collect();
                j.order.push((b[0], b[1]));
            }
            "confl" => j.confl = v.parse().unwrap(),
            "paths" => j.paths = v.parse().unwrap(),
            "time" => {
                j.time = v.parse().unwrap();
                // one call of the SAT solver may take a seventh of it
                sat::WALL_MS.store((j.time * 150.0) as u64, std::sync::atomic::Ordering::Relaxed);
            }
            "seed" => j.seed = v.parse().unwrap(),
            "ticks" => j.ticks = v.parse().unwrap(),
            "native" => j.native = v.into(),
            "native2" => j.native2 = Some(v.into()),
            "model" => j.seeds.push(v.split_whitespace().map(|x| x.parse().unwrap()).collect()),
            "icp" => j.icp = v.parse().unwrap(),
            "symfirst" => j.sym_first = v == "1",
            "export" => j.export = v.parse().unwrap(),
            _ => panic!("bad job line {l}"),
        }
    }
    assert_eq!(j.pts.len(), j.spec.n(), "points and builder calls differ");
    j
}

/// path condition as a shared list
struct PathNode {
    prev: Option<Rc<PathNode>>,
    atom: u32,
    set: u8,
}
impl Drop for PathNode {
    fn drop(&mut self) {
        let mut p = self.prev.take();
        while let Some(rc) = p {
            match Rc::try_unwrap(rc) {
                Ok(mut n) => p = n.prev.take(),
                Err(_) => break,
            }
        }
    }
}

struct Item {
    prev: Option<Rc<PathNode>>,
    depth: usize,
    atom: u32,
    set: u8,
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

#[derive(Default)]
struct Rep {
    paths: u64,
    native_runs: u64,
    memory_runs: u64,
    validated: u64,
    mismatched: u64,
    mismatch_note: String,
    proved: u64,
    prop_unsat: u64,
    prop_unknown: u64,
    flips_unsat: u64,
    flips_unknown: u64,
    inexact: u64,
    inexact_note: String,
    tick_paths: u64,
    panic_paths: u64,
    overflow: u64,
    unconfirmed: u64,
    unconfirmed_note: String,
    obligations: u64,
    left: usize,
    triangles: BTreeMap<usize, u64>,
    violations: Vec<(String, String)>,
    samples: Vec<String>,
    max_decisions: usize,
    bad_models: u64,
    exports: Vec<String>,
    vacuous: bool,
}

fn main() {
    let mut text = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("SYM_TRACE").is_ok() {
            eprintln!("{i}");
        }
    }));
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(move || job(&text)).unwrap();
    match h.join() {
        Ok(s) => println!("{s}"),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            println!("{{\"error\":{}}}", js(&m));
            std::process::exit(3);
        }
    }
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 => r.push(' '),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn raw_of(e: &Engine, n: Nid) -> Raw {
    // constants are passed as plain floats
    if let Kind::Const(m, x) = e.nodes[n as usize].kind {
        let f = m as f64 * 2f64.powi(x / 2) * 2f64.powi(x - x / 2);
        if drv::IS_F32 {
            (f as f32).to_bits() as u64
        } else {
            f.to_bits()
        }
    } else if drv::IS_F32 {
        box32(n).to_bits() as u64
    } else {
        box64(n).to_bits()
    }
}

fn float_of(e: &mut Engine, r: Raw) -> f64 {
    let tagged = if drv::IS_F32 { unbox32(r as u32) } else { unbox64(r) };
    match tagged {
        None => {
            if drv::IS_F32 {
                f32::from_bits(r as u32) as f64
            } else {
                f64::from_bits(r)
            }
        }
        Some(n) => {
            let v = e.eval(n);
            let x = e.nodes[n as usize].e;
            v as f64 * 2f64.powi(x / 2) * 2f64.powi(x - x / 2)
        }
    }
}

fn job(text: &str) -> String {
    let j = parse_job(text);
    drv_mode();
    let t0 = Instant::now();
    let mut eng = Box::new(Engine::new(j.scale));
    let e: &mut Engine = &mut eng;
    e.tick_limit = j.ticks;
    e.confl = j.confl;
    e.icp_then = j.icp;
    // ---- inputs
    let mut nodes: Vec<(Nid, Nid)> = vec![];
    for (x, y) in &j.pts {
        let mut mk = |e: &mut Engine, c: &Co, nodes: &[(Nid, Nid)]| match c {
            Co::K(v) => e.konst(*v, j.scale),
            Co::V(a, b) => e.var(*a, *b),
            Co::Ref(i, x, d) => {
                let n = if *x { nodes[*i].0 } else { nodes[*i].1 };
                let k = e.konst(*d, j.scale);
                e.add(n, k).ok().unwrap()
            }
        };
        let a = mk(e, x, &nodes);
        let b = mk(e, y, &nodes);
        nodes.push((a, b));
    }
    let second: Vec<(Nid, Nid)> = match &j.mode {
        Mode::Scale(k) => {
            let f = e.konst(1, *k);
            nodes.iter().map(|p| (e.mul(p.0, f).ok().unwrap(), e.mul(p.1, f).ok().unwrap())).collect()
        }
        Mode::Shift(dx, dy) => {
            let d = (e.konst(*dx as i128, j.scale), e.konst(*dy as i128, j.scale));
            nodes.iter().map(|p| (e.add(p.0, d.0).ok().unwrap(), e.add(p.1, d.1).ok().unwrap())).collect()
        }
        Mode::Turn(k) => {
            let zero = e.konst(0, j.scale);
            let mut neg = |n: Nid, on: bool| if on { e.sub(zero, n).ok().unwrap() } else { n };
            nodes
                .iter()
                .map(|&(x, y)| {
                    let (x, y) = if k & 1 != 0 { (y, x) } else { (x, y) };
                    (neg(x, k & 2 != 0), neg(y, k & 4 != 0))
                })
                .collect()
        }
        Mode::Perm(_, p) => p.iter().map(|&i| nodes[i]).collect(),
        _ => vec![],
    };
    // ---- assumptions
    {
        let mut al = SymAlg { e, pts: nodes.clone(), overflow: false };
        let mut fs = vec![];
        if j.valid {
            fs.push(valid(&mut al, &j.spec));
        }
        for &(a, b) in &j.order {
            fs.push(lex_less(&mut al, a, b));
        }
        assert!(!al.overflow, "the assumptions exceed 125 bits");
        if let Some(b) = j.bbox {
            for (k, hi) in [(0, false), (0, true), (1, false), (1, true)] {
                let bound = al.e.konst(b[k + 2 * hi as usize], j.scale);
                let mut any = vec![];
                for p in &nodes {
                    let c = if k == 0 { p.0 } else { p.1 };
                    let d = al.e.sub(c, bound).ok().unwrap();
                    let within = al.e.node_form(d, if hi { NEG | ZERO } else { POS | ZERO });
                    fs.push(within);
                    let hit = al.e.node_form(d, ZERO);
                    any.push(hit);
                }
                let any = al.or(any);
                fs.push(any);
            }
        }
        for f in fs {
            let parts = match f {
                Form::And(v) => v.to_vec(),
                f => vec![f],
            };
            for p in parts {
                if let Form::K(true) = p {
                    continue;
                }
                al.e.assume(p);
            }
        }
    }
    let mut rep = Rep::default();
    let mut nat = Native::new(&j.native);
    let mut nat2 = j.native2.as_ref().map(|b| Native::new(b));
    e.rng = j.seed.wrapping_mul(0xD1342543DE82EF95) | 1;
    let mut rng = Rng(j.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let mut front: Vec<Item> = vec![];
    let mut seeds = j.seeds.clone();
    seeds.reverse();
    let mut first = true;
    let mut done_shapes = std::collections::HashSet::new();
    loop {
        if t0.elapsed().as_secs_f64() > j.time || rep.paths as usize >= j.paths || rep.violations.len() >= 3 {
            break;
        }
        // ---- pick an unexplored side of a branch and ask for an input reaching it
        let (prefix, depth, model) = if let Some(m) = seeds.pop() {
            (None, 0, m)
        } else {
            let (prev, depth, atom, set) = if first {
                (None, 0, 0, 7)
            } else {
                if front.is_empty() {
                    break;
                }
                let n = front.len();
                // mostly anywhere, sometimes the newest
                let k = if rng.below(4) == 0 { n - 1 } else { rng.below(n) };
                let it = front.swap_remove(k);
                (it.prev, it.depth, it.atom, it.set)
            };
            let was_first = first;
            first = false;
            let mut asm = vec![];
            if !was_first {
                asm.push(Form::A(atom, set));
            }
            let mut p = prev.clone();
            while let Some(n) = p {
                asm.push(Form::A(n.atom, n.set));
                p = n.prev.clone();
            }
            let (r, m) = e.query(&asm);
            match r {
                Res::Sat => {}
                Res::Unsat | Res::Unknown if was_first => {
                    rep.vacuous = true;
                    break;
                }
                Res::Unsat => {
                    rep.flips_unsat += 1;
                    continue;
                }
                Res::Unknown => {
                    rep.flips_unknown += 1;
                    continue;
                }
            }
            if was_first {
                (None, 0, m)
            } else {
                (Some(Rc::new(PathNode { prev, atom, set })), depth + 1, m)
            }
        };
        first = false;
        e.begin(model.clone());
        if !e.model_ok() {
            rep.bad_models += 1;
            continue;
        }
        rep.paths += 1;
        // ---- the real code on that input
        let ask = |nat: &mut Native, m: &[i128]| {
            let line = request(&j, m);
            (nat.ask(&line, if j.sym_first { 1.0 } else { 10.0 + j.spec.n() as f64 / 400.0 }), line)
        };
        let mut expect = None;
        if !j.sym_first {
            let (a, line) = ask(&mut nat, &model);
            rep.native_runs += 1;
            if let Some(w) = violation_of(&j, &a) {
                rep.violations.push((line.clone(), w));
                if !matches!(a, Reply::Ok(..)) {
                    continue; // the symbolic run would fail the same way
                }
            } else if !matches!(a, Reply::Ok(..)) {
                continue;
            }
            if let Some(n2) = &mut nat2 {
                let (a, line) = ask(n2, &model);
                rep.native_runs += 1;
                if let Some(w) = violation_of(&j, &a) {
                    rep.violations.push((line.clone(), format!("{w} (build with debug assertions)")));
                    if !matches!(a, Reply::Ok(..)) {
                        continue;
                    }
                }
            }
            if let Reply::Ok(h, n, _) = a {
                *rep.triangles.entry(n).or_insert(0) += 1;
                expect = Some((h, line));
            }
        }
        // the first `depth` decisions are those of the prefix when it was taken from a run; the
        // flipped one may be split further, so the prefix is matched literal by literal
        let mut want: Vec<(u32, u8)> = vec![];
        let mut p = prefix.clone();
        while let Some(n) = p {
            want.push((n.atom, n.set));
            p = n.prev.clone();
        }
        want.reverse();
        e.want = want;
        // ---- the symbolic run along the same path
        let c: Vec<(Raw, Raw)> = nodes.iter().map(|p| (raw_of(e, p.0), raw_of(e, p.1))).collect();
        let c2: Vec<(Raw, Raw)> = second.iter().map(|p| (raw_of(e, p.0), raw_of(e, p.1))).collect();
        let mut mode = j.mode.clone();
        if let Mode::Load(t, path) = &mut mode {
            let v: Vec<(f64, f64)> = c.iter().map(|p| (float_of(e, p.0), float_of(e, p.1))).collect();
            let (text, toks) = render(t, &v);
            *path = format!("{}/load-{}.dat", std::env::var("VERIF_TMP").unwrap_or("/tmp".into()), std::process::id());
            std::fs::write(&*path, text).unwrap();
            let v = toks.into_iter().map(|(s, i, x)| (s, if x { nodes[i].0 } else { nodes[i].1 })).collect();
            e.tokens = Some(Tokens { v, next: 0 });
        }
        install(e);
        let mut res: Option<Result<Runs, String>> = None;
        let code = guarded(|| {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drv::execute(&j.spec, &mode, &c, &c2, j.watch)));
            res = Some(r.map_err(|e| {
                e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
            }));
        });
        uninstall();
        if let Mode::Load(_, path) = &mode {
            let _ = std::fs::remove_file(path);
        }
        rep.max_decisions = rep.max_decisions.max(e.trace.len());
        // ---- unexplored sides
        let mut pn = prefix.clone();
        let trace = e.trace.clone();
        let want = e.want.clone();
        let _ = depth;
        let mut diverged = false;
        pn = None;
        for (i, d) in trace.iter().enumerate() {
            let mut other = d.other;
            if i < want.len() {
                if want[i].0 != d.atom {
                    diverged = true;
                    break;
                }
                if i + 1 < want.len() || want[i].1 == d.taken {
                    // as expected: the other side is already known
                    if want[i].1 != d.taken {
                        diverged = true;
                        break;
                    }
                    other = 0;
                } else {
                    diverged = true;
                    break;
                }
            }
            if other != 0 {
                front.push(Item { prev: pn.clone(), depth: i, atom: d.atom, set: other });
            }
            pn = Some(Rc::new(PathNode { prev: pn, atom: d.atom, set: d.taken }));
        }
        if diverged {
            rep.mismatched += 1;
            rep.mismatch_note = "a run left the path it was computed for".into();
            if std::env::var("SYM_TRACE").is_ok() {
                let k = want.iter().zip(&trace).position(|(w, d)| w.0 != d.atom || w.1 != d.taken).unwrap();
                let (n, m) = (e.atom_node(want[k].0).0, e.atom_node(trace[k].atom).0);
                eprintln!("at {k} of {} wanted {:?} {:?}, got {:?} {:?}", want.len(), want[k], e.nodes[n as usize].kind, (trace[k].atom, trace[k].taken), e.nodes[m as usize].kind);
            }
            continue;
        }
        match code {
            0 => {}
            BAIL_TICKS => {
                rep.tick_paths += 1;
                continue;
            }
            BAIL_UB => {
                // confirmed on the real build below
                let (a, line) = ask(&mut nat, &model);
                rep.native_runs += 1;
                let a2 = nat2.as_mut().map(|n| ask(n, &model).0);
                if let Some(w) = violation_of(&j, &a).or_else(|| a2.and_then(|a| violation_of(&j, &a))) {
                    rep.violations.push((line, w));
                } else {
                    rep.unconfirmed += 1;
                    rep.unconfirmed_note = format!("undefined behaviour not reproduced: {line} {a:?}");
                }
                continue;
            }
            BAIL_INEXACT => {
                rep.inexact += 1;
                rep.inexact_note = e.why.clone();
                continue;
            }
            _ => {
                rep.mismatched += 1;
                rep.mismatch_note = e.why.clone();
                continue;
            }
        }
        // which memory a path uses does not depend on the coordinates: one run of it under the
        // address sanitizer decides for all inputs of the path
        if let (true, Some(n2)) = (j.sym_first, &mut nat2) {
            let (a, line) = ask(n2, &model);
            rep.native_runs += 1;
            rep.memory_runs += matches!(a, Reply::Ok(..) | Reply::Panic(_)) as u64;
            if let Some(w) = violation_of(&j, &a) {
                rep.violations.push((line, w));
                continue;
            }
        }
        let runs = match res.unwrap() {
            Ok(r) => r,
            Err(m) => {
                rep.panic_paths += 1;
                if expect.is_some() {
                    rep.mismatched += 1;
                    rep.mismatch_note = format!("the symbolic run panics, the native one does not: {m}");
                }
                continue;
            }
        };
        // ---- is the symbolic run the run of the real code?
        let mut h = digest(&runs);
        for c in result_coords(&runs) {
            for w in [float_of(e, c.0), float_of(e, c.1)] {
                h = h.wrapping_mul(0x100000001b3) ^ (w + 0.0).to_bits();
            }
        }
        if j.sym_first && (rep.paths % 16 == 1) {
            let (a, line) = ask(&mut nat, &model);
            rep.native_runs += 1;
            if let Reply::Ok(h, n, _) = a {
                *rep.triangles.entry(n).or_insert(0) += 1;
                expect = Some((h, line));
            }
        }
        if let Some((x, line)) = &expect {
            if *x == format!("{h:x}") {
                rep.validated += 1;
            } else {
                rep.mismatched += 1;
                rep.mismatch_note = format!("results differ from the native run: {line}");
                continue;
            }
        }
        // ---- decide the property for all inputs of this path
        let mut pts = nodes.clone();
        for k in pts.len()..runs.log.pts.len() {
            let p = runs.log.pts[k];
            let n = (e.node_of(p.0), e.node_of(p.1));
            pts.push(n);
        }
        let mut al = SymAlg { e, pts, overflow: false };
        let mut o = Obs::new();
        property(&mut al, &j.prop, &j.spec, &j.mode, &c, &runs, &mut o);
        if al.overflow {
            rep.overflow += 1;
        }
        rep.obligations += o.v.len() as u64;
        let mut bad: Vec<Form> = vec![];
        for ob in &o.v {
            match e.simplify(&ob.holds) {
                Form::K(true) => {}
                f => bad.push(Form::Not(Rc::new(f))),
            }
        }
        let shape = {
            use std::hash::{Hash, Hasher};
            let mut s = std::collections::hash_map::DefaultHasher::new();
            runs.out.indices.hash(&mut s);
            s.finish()
        };
        if done_shapes.insert(shape) && rep.samples.len() < 6 {
            rep.samples.push(format!(
                "input {} -> {} triangles, {} decisions, {} obligations",
                request(&j, &model),
                runs.out.indices.len() / 3,
                trace.len(),
                o.v.len()
            ));
        }
        if bad.is_empty() {
            rep.proved += 1;
            continue;
        }
        let path: Vec<Form> = trace.iter().map(|d| Form::A(d.atom, d.taken)).collect();
        let mut verdict = (Res::Unsat, vec![]);
        for ch in bad.chunks(8) {
            let mut cs = vec![Form::Or(Rc::new(ch.to_vec()))];
            cs.extend_from_slice(&path);
            let (r, m) = e.query(&cs);
            match r {
                Res::Unsat => {}
                Res::Unknown => verdict.0 = Res::Unknown,
                Res::Sat => {
                    verdict = (Res::Sat, m);
                    break;
                }
            }
        }
        let (verdict, m) = verdict;
        let exp = rep.exports.len() < j.export && verdict != Res::Unknown;
        match verdict {
            Res::Unsat => {
                rep.prop_unsat += 1;
                rep.proved += 1;
            }
            Res::Unknown => rep.prop_unknown += 1,
            Res::Sat => {
                let (a, line) = ask(&mut nat, &m);
                rep.native_runs += 1;
                match violation_of(&j, &a) {
                    Some(w) => rep.violations.push((line, w)),
                    None => {
                        rep.unconfirmed += 1;
                        rep.unconfirmed_note = format!("counterexample not reproduced: {line} {a:?}");
                    }
                }
            }
        }
        if exp {
            let mut forms: Vec<Form> = e.base_forms.clone();
            for d in &trace {
                forms.push(Form::A(d.atom, d.taken));
            }
            let b: Vec<Form> = o.v.iter().map(|x| Form::Not(Rc::new(x.holds.clone()))).collect();
            forms.push(Form::Or(Rc::new(b)));
            let s = smt::smtlib(e, &forms, if verdict == Res::Unsat { "unsat" } else { "sat" });
            rep.exports.push(s);
        }
    }
    rep.left = front.len();
    let exhaustive = front.is_empty()
        && rep.flips_unknown == 0
        && rep.prop_unknown == 0
        && rep.inexact == 0
        && rep.mismatched == 0
        && rep.unconfirmed == 0
        && rep.overflow == 0
        && rep.tick_paths == 0
        && !rep.vacuous
        && rep.paths > 0
        && (rep.paths as usize) < j.paths
        && rep.violations.is_empty();
    let st = &e.q;
    let mut f: Vec<(String, String)> = vec![];
    let mut put = |k: &str, v: String| f.push((k.into(), v));
    put("name", js(&j.name));
    put("exhaustive", exhaustive.to_string());
    put("vacuous", rep.vacuous.to_string());
    put("paths", rep.paths.to_string());
    put("native_runs", rep.native_runs.to_string());
    put("memory_runs", rep.memory_runs.to_string());
    put("validated", rep.validated.to_string());
    put("mismatched", rep.mismatched.to_string());
    put("mismatch_note", js(&rep.mismatch_note));
    put("proved", rep.proved.to_string());
    put("prop_unsat", rep.prop_unsat.to_string());
    put("prop_unknown", rep.prop_unknown.to_string());
    put("flips_unsat", rep.flips_unsat.to_string());
    put("flips_unknown", rep.flips_unknown.to_string());
    put("inexact", rep.inexact.to_string());
    put("inexact_note", js(&rep.inexact_note));
    put("tick_paths", rep.tick_paths.to_string());
    put("panic_paths", rep.panic_paths.to_string());
    put("overflow", rep.overflow.to_string());
    put("unconfirmed", rep.unconfirmed.to_string());
    put("unconfirmed_note", js(&rep.unconfirmed_note));
    put("obligations", rep.obligations.to_string());
    put("left", rep.left.to_string());
    put("bad_models", rep.bad_models.to_string());
    put("max_decisions", rep.max_decisions.to_string());
    put("shapes", done_shapes.len().to_string());
    put("queries", st.queries.to_string());
    put("sat", st.sat.to_string());
    put("unsat", st.unsat.to_string());
    put("unknown", st.unknown.to_string());
    put("solver_s", format!("{:.3}", st.time.as_secs_f64()));
    put("sat_calls", (st.l1 + st.l2).to_string());
    put("icp", st.icp.to_string());
    put("boxes", st.boxes.to_string());
    put("l2_calls", st.l2.to_string());
    put("max_clauses", st.clauses.to_string());
    put("decisions", e.stats.decisions.to_string());
    put("predicates", e.stats.predicates.to_string());
    put("comparisons", e.stats.fcmp.to_string());
    put("concretised", e.stats.concretised.to_string());
    put("vars", e.vars.len().to_string());
    put("wall_s", format!("{:.3}", t0.elapsed().as_secs_f64()));
    put("triangles", format!("{{{}}}", rep.triangles.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",")));
    put("violations", format!("[{}]", rep.violations.iter().map(|(l, w)| format!("[{},{}]", js(l), js(w))).collect::<Vec<_>>().join(",")));
    put("samples", format!("[{}]", rep.samples.iter().map(|l| js(l)).collect::<Vec<_>>().join(",")));
    put("exports", format!("[{}]", rep.exports.iter().map(|l| js(&l.replace('\n', " "))).collect::<Vec<_>>().join(",")));
    nat.stop();
    if let Some(n) = &mut nat2 {
        n.stop();
    }
    format!("{{{}}}", f.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","))
}

fn drv_mode() {
    F32_MODE.store(drv::IS_F32, std::sync::atomic::Ordering::Relaxed);
}

fn value(j: &Job, c: &Co, m: &[i128], vars: &mut usize, done: &[(i128, i128)]) -> i128 {
    let _ = j;
    match c {
        Co::K(v) => *v,
        Co::V(..) => {
            *vars += 1;
            m[*vars - 1]
        }
        Co::Ref(i, x, d) => d + if *x { done[*i].0 } else { done[*i].1 },
    }
}

/// the request line for the native runner
fn request(j: &Job, m: &[i128]) -> String {
    let mut vars = 0;
    let mut done = vec![];
    for (x, y) in &j.pts {
        let a = value(j, x, m, &mut vars, &done);
        let b = value(j, y, m, &mut vars, &done);
        done.push((a, b));
    }
    let p: Vec<String> = done.iter().map(|p| format!("{},{}", p.0, p.1)).collect();
    format!(
        "{} {} {} {} {} {} {}",
        j.prop,
        j.watch_s,
        if j.valid { 1 } else { 0 },
        j.scale,
        j.spec.to_text(),
        j.mode.to_text(),
        p.join(" ")
    )
}

/// does the answer of the real code break the property?
fn violation_of(j: &Job, a: &Reply) -> Option<String> {
    let memory_only = j.prop == "C14";
    match a {
        Reply::Ok(_, _, bad) if bad.is_empty() => None,
        Reply::Ok(_, _, bad) => Some(bad.clone()),
        Reply::Invalid => None,
        Reply::Panic(m) => (!memory_only).then(|| format!("panic: {m}")),
        Reply::Hang => (!memory_only).then(|| "does not terminate (10 s or more)".into()),
        Reply::Died(m) => {
            if memory_only {
                let overflow = m.contains("overflowed its stack") || m.contains("stack-overflow") || m.contains("memory allocation");
                let wild = m.contains("signal: 11") || m.contains("signal: 7 ");
                let sanitizer = m.contains("AddressSanitizer: ") && !m.contains("out-of-memory") && !m.contains("allocation-size");
                (m.contains("unsafe precondition") || (wild || sanitizer) && !overflow).then(|| m.clone())
            } else {
                Some(format!("process died: {m}"))
            }
        }
    }
}
mod smt;
