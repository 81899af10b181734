//! SMT back ends over pipes. Unknown is never treated as an answer.
use crate::bv::Bv;
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Sat,
    Unsat,
    Unknown(String),
}

#[derive(Clone, Default, Debug)]
pub struct Model {
    pub vars: HashMap<u32, Bv>,
    pub hash: HashMap<T, Bv>,
}

struct Proc {
    child: Child,
    sin: ChildStdin,
    out: BufReader<ChildStdout>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub model_hits: u64,
    pub fallback: u64,
    pub solver_time: f64,
    pub max_query: f64,
    pub second_solver_checked: u64,
}

pub struct Solver {
    proc: Option<Proc>,
    pub models: Vec<Rc<Model>>,
    pub stats: Stats,
    pub fast_ms: u64,
    pub slow_ms: u64,
    /// give up on the current query after this instant
    pub soft: Option<Instant>,
    pub dump: Option<String>,
    pub cross_check: bool,
    cache: HashMap<Vec<T>, (Res, Option<Rc<Model>>)>,
    pub deadline: Option<Instant>,
    logic: Option<&'static str>,
}

pub fn slice(pc: &[T], goal: &[T]) -> Vec<T> {
    // constraint independence slicing
    let mut vars: HashSet<u32> = HashSet::new();
    for g in goal {
        vars.extend(varset(*g).iter());
    }
    let mut used = vec![false; pc.len()];
    let sets: Vec<Rc<Vec<u32>>> = pc.iter().map(|t| varset(*t)).collect();
    loop {
        let mut ch = false;
        for i in 0..pc.len() {
            if !used[i] && (sets[i].is_empty() || sets[i].iter().any(|v| vars.contains(v))) {
                used[i] = true;
                vars.extend(sets[i].iter());
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let mut out: Vec<T> = (0..pc.len()).filter(|i| used[*i]).map(|i| pc[i]).collect();
    out.extend_from_slice(goal);
    out.sort();
    out.dedup();
    out
}

#[derive(Default)]
pub struct Script {
    pub text: String,
    pub vars: Vec<u32>,
    pub hashes: Vec<T>,
    pub nodes: usize,
    pub nonlinear: bool,
}

pub fn script(asserts: &[T]) -> Script {
    let mut order: Vec<T> = Vec::new();
    let mut seen: HashSet<T> = HashSet::new();
    let mut stack: Vec<(T, bool)> = asserts.iter().rev().map(|t| (*t, false)).collect();
    let mut vars = Vec::new();
    let mut hashes = Vec::new();
    let mut ufs: Vec<(u32, T)> = Vec::new();
    let mut nonlinear = false;
    let mut near: Vec<(T, Bv, Bv)> = Vec::new();
    let mut konst = |b: &Bv| {
        if b.w == 256 && b.bits() > 192 {
            if let Some((i, d)) = crate::term::hash_const_near(b) {
                if !near.iter().any(|x| x.0 == i) {
                    near.push((i, d, b.clone()));
                }
            }
        }
    };
    while let Some((t, done)) = stack.pop() {
        if done {
            order.push(t);
            continue;
        }
        if !seen.insert(t) {
            continue;
        }
        let n = node(t);
        stack.push((t, true));
        match &n {
            N::Var(i) => vars.push(*i),
            N::Keccak(_) => hashes.push(t),
            N::Uf(i, _) => ufs.push((*i, t)),
            N::Const(b) => konst(b),
            N::Sum(_, k) => konst(k),
            N::Mul(..) | N::UDiv(..) | N::URem(..) => nonlinear = true,
            _ => {}
        }
        for ch in children(&n) {
            if !seen.contains(&ch) {
                stack.push((ch, false));
            }
        }
    }
    let mut s = String::new();
    for v in &vars {
        let w = store(|s| s.vars[*v as usize].1);
        let _ = writeln!(s, "(declare-const v{} (_ BitVec {}))", v, w);
    }
    let r = |t: T| -> String {
        match node(t) {
            N::Const(b) => b.smt(),
            N::Var(i) => format!("v{}", i),
            _ => format!("t{}", t.0),
        }
    };
    // booleans as Bool
    let b = |t: T| -> String {
        match node(t) {
            N::Const(k) => if k.is_zero() { "false".into() } else { "true".into() },
            N::Eq(..) | N::Ult(..) | N::Slt(..) => format!("b{}", t.0),
            N::Not(_) | N::And(..) | N::Or(..) | N::Xor(..) if width(t) == 1 => format!("b{}", t.0),
            N::Ite(..) if width(t) == 1 => format!("b{}", t.0),
            N::Var(i) => format!("(= v{} #b1)", i),
            _ => format!("(= t{} #b1)", t.0),
        }
    };
    let is_b = |n: &N, w: u32| -> bool {
        w == 1
            && matches!(
                n,
                N::Eq(..) | N::Ult(..) | N::Slt(..) | N::Not(_) | N::And(..) | N::Or(..)
                    | N::Xor(..) | N::Ite(..)
            )
    };
    // which boolean nodes are needed as bit-vectors
    let mut need_bv: HashSet<T> = HashSet::new();
    for t in &order {
        let n = node(*t);
        if is_b(&n, width(*t)) {
            match &n {
                N::Eq(a, c) | N::Ult(a, c) | N::Slt(a, c) => {
                    need_bv.insert(*a);
                    need_bv.insert(*c);
                }
                _ => {}
            }
            continue;
        }
        match &n {
            N::Ite(_, x, y) => {
                need_bv.insert(*x);
                need_bv.insert(*y);
            }
            _ => {
                for ch in children(&n) {
                    need_bv.insert(ch);
                }
            }
        }
    }
    for t in &order {
        let t = *t;
        let n = node(t);
        let w = width(t);
        if is_b(&n, w) {
            let e = match &n {
                N::Eq(x, y) => format!("(= {} {})", r(*x), r(*y)),
                N::Ult(x, y) => format!("(bvult {} {})", r(*x), r(*y)),
                N::Slt(x, y) => format!("(bvslt {} {})", r(*x), r(*y)),
                N::Not(x) => format!("(not {})", b(*x)),
                N::And(x, y) => format!("(and {} {})", b(*x), b(*y)),
                N::Or(x, y) => format!("(or {} {})", b(*x), b(*y)),
                N::Xor(x, y) => format!("(xor {} {})", b(*x), b(*y)),
                N::Ite(x, y, z) => format!("(ite {} {} {})", b(*x), b(*y), b(*z)),
                _ => unreachable!(),
            };
            let _ = writeln!(s, "(define-fun b{} () Bool {})", t.0, e);
            if need_bv.contains(&t) {
                let _ = writeln!(
                    s,
                    "(define-fun t{} () (_ BitVec 1) (ite b{} #b1 #b0))",
                    t.0, t.0
                );
            }
            continue;
        }
        let e = match &n {
            N::Const(_) | N::Var(_) => continue,
            N::Keccak(_) | N::Uf(..) => {
                let _ = writeln!(s, "(declare-const t{} (_ BitVec {}))", t.0, w);
                continue;
            }
            N::Not(x) => format!("(bvnot {})", r(*x)),
            N::And(x, y) => format!("(bvand {} {})", r(*x), r(*y)),
            N::Or(x, y) => format!("(bvor {} {})", r(*x), r(*y)),
            N::Xor(x, y) => format!("(bvxor {} {})", r(*x), r(*y)),
            N::Sum(ts, k) => {
                let mut acc = String::new();
                let mut first = true;
                // positive terms first
                let mut pos: Vec<&(Bv, T)> = ts.iter().collect();
                pos.sort_by_key(|x| x.0.is_ones());
                if !k.is_zero() {
                    acc = k.smt();
                    first = false;
                }
                for (co, x) in pos {
                    if co.is_one() {
                        acc = if first { r(*x) } else { format!("(bvadd {} {})", acc, r(*x)) };
                    } else if co.is_ones() {
                        acc = if first {
                            format!("(bvneg {})", r(*x))
                        } else {
                            format!("(bvsub {} {})", acc, r(*x))
                        };
                    } else {
                        let m = format!("(bvmul {} {})", co.smt(), r(*x));
                        acc = if first { m } else { format!("(bvadd {} {})", acc, m) };
                    }
                    first = false;
                }
                acc
            }
            N::Mul(x, y) => format!("(bvmul {} {})", r(*x), r(*y)),
            N::UDiv(x, y) => format!("(bvudiv {} {})", r(*x), r(*y)),
            N::URem(x, y) => format!("(bvurem {} {})", r(*x), r(*y)),
            N::SDiv(x, y) => format!("(bvsdiv {} {})", r(*x), r(*y)),
            N::SRem(x, y) => format!("(bvsrem {} {})", r(*x), r(*y)),
            N::Shl(x, y) => format!("(bvshl {} {})", r(*x), r(*y)),
            N::LShr(x, y) => format!("(bvlshr {} {})", r(*x), r(*y)),
            N::AShr(x, y) => format!("(bvashr {} {})", r(*x), r(*y)),
            N::Concat(p) => {
                let mut acc = r(p[p.len() - 1]);
                for x in p[..p.len() - 1].iter().rev() {
                    acc = format!("(concat {} {})", r(*x), acc);
                }
                acc
            }
            N::Extract(x, h, l) => format!("((_ extract {} {}) {})", h, l, r(*x)),
            N::SExt(x) => format!("((_ sign_extend {}) {})", w - width(*x), r(*x)),
            N::Ite(x, y, z) => format!("(ite {} {} {})", b(*x), r(*y), r(*z)),
            N::Eq(..) | N::Ult(..) | N::Slt(..) => unreachable!(),
        };
        let _ = writeln!(s, "(define-fun t{} () (_ BitVec {}) {})", t.0, w, e);
    }
    for i in 0..hashes.len() {
        let _ = writeln!(
            s,
            "(assert (not (= ((_ extract 255 128) t{}) #x{})))(assert (= ((_ extract 63 63) t{}) #b0))",
            hashes[i].0,
            "0".repeat(32),
            hashes[i].0
        );
        // concrete digests in use: the same input gives the same digest, other inputs a distant one
        for (inp, off, b) in &near {
            let x = match node(hashes[i]) {
                N::Keccak(x) => x,
                _ => unreachable!(),
            };
            let d = b.sub(off);
            let far = format!("(not (= ((_ extract 255 64) t{}) {}))", hashes[i].0, d.extract(255, 64).smt());
            if width(x) != width(*inp) {
                let _ = writeln!(s, "(assert {})", far);
            } else {
                let _ = writeln!(s, "(assert (ite (= {} {}) (= t{} {}) {}))", r(x), r(*inp), hashes[i].0, d.smt(), far);
            }
        }
        for j in 0..i {
            let (x, y) = match (node(hashes[i]), node(hashes[j])) {
                (N::Keccak(x), N::Keccak(y)) => (x, y),
                _ => unreachable!(),
            };
            if width(x) != width(y) {
                let _ = writeln!(s, "(assert (not (= ((_ extract 255 64) t{}) ((_ extract 255 64) t{}))))", hashes[i].0, hashes[j].0);
            } else {
                let _ = writeln!(
                    s,
                    "(assert (ite (= {} {}) (= t{} t{}) (not (= ((_ extract 255 64) t{}) ((_ extract 255 64) t{})))))",
                    r(x),
                    r(y),
                    hashes[i].0,
                    hashes[j].0,
                    hashes[i].0,
                    hashes[j].0
                );
            }
        }
    }
    for i in 0..ufs.len() {
        for j in 0..i {
            if ufs[i].0 != ufs[j].0 {
                continue;
            }
            let (x, y) = match (node(ufs[i].1), node(ufs[j].1)) {
                (N::Uf(_, x), N::Uf(_, y)) => (x, y),
                _ => unreachable!(),
            };
            if x.len() != y.len() || x.iter().zip(y.iter()).any(|(p, q)| width(*p) != width(*q)) {
                continue;
            }
            let conj: Vec<String> =
                x.iter().zip(y.iter()).map(|(p, q)| format!("(= {} {})", r(*p), r(*q))).collect();
            let _ = writeln!(
                s,
                "(assert (=> (and {} true) (= t{} t{})))",
                conj.join(" "),
                ufs[i].1 .0,
                ufs[j].1 .0
            );
        }
    }
    for a in asserts {
        let _ = writeln!(s, "(assert {})", b(*a));
    }
    for u in &ufs {
        hashes.push(u.1);
    }
    Script { text: s, vars, hashes, nodes: order.len(), nonlinear }
}

fn parse_values(text: &str) -> HashMap<String, Bv> {
    // ((v1 #x..) (t3 #b..))
    let mut out = HashMap::new();
    let mut toks: Vec<String> = Vec::new();
    let mut cur = String::new();
    for ch in text.chars() {
        match ch {
            '(' | ')' => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    let mut i = 0;
    while i + 1 < toks.len() {
        let (n, v) = (&toks[i], &toks[i + 1]);
        if let Some(h) = v.strip_prefix("#x") {
            out.insert(n.clone(), Bv::from_hex(h.len() as u32 * 4, h));
        } else if let Some(h) = v.strip_prefix("#b") {
            out.insert(n.clone(), Bv::from_bin(h.len() as u32, h));
        }
        i += 2;
    }
    out
}

fn is_nl(t: T, n: &N) -> bool {
    match n {
        N::Mul(a, b) => width(t) > 32 && !is_const(*a) && !is_const(*b),
        N::UDiv(_, b) | N::URem(_, b) => (width(t) > 32 && !is_const(*b)) || width(t) > 64,
        _ => false,
    }
}
thread_local! {
    static NLMEMO: std::cell::RefCell<HashMap<T, bool>> = Default::default();
}
pub fn has_nl(t: T) -> bool {
    if let Some(r) = NLMEMO.with(|m| m.borrow().get(&t).cloned()) {
        return r;
    }
    let n = node(t);
    let r = is_nl(t, &n) || children(&n).into_iter().any(has_nl);
    NLMEMO.with(|m| m.borrow_mut().insert(t, r));
    r
}

impl Solver {
    pub fn new() -> Solver {
        Solver {
            proc: None,
            models: Vec::new(),
            stats: Stats::default(),
            fast_ms: 3000,
            slow_ms: 60000,
            soft: None,
            dump: std::env::var("WSYM_DUMP").ok(),
            cross_check: false,
            cache: HashMap::new(),
            deadline: None,
            logic: None,
        }
    }

    fn spawn(&mut self) {
        let mut child = Command::new("z3-new")
            .arg("-in")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("z3-new");
        let sin = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        self.proc = Some(Proc { child, sin, out });
    }

    fn kill(&mut self) {
        if let Some(mut p) = self.proc.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }

    fn ask_fast(&mut self, sc: &Script, ms: u64, want_model: bool) -> (Res, Option<Model>) {
        if self.proc.is_none() {
            self.spawn();
        }
        let mut q = String::new();
        q.push_str("(reset)\n(set-option :print-success false)\n");
        let _ = writeln!(q, "(set-option :timeout {})", ms);
        if let Some(l) = self.logic {
            let _ = writeln!(q, "(set-logic {})", l);
        } else {
            q.push_str("(set-logic QF_BV)\n");
        }
        q.push_str(&sc.text);
        q.push_str("(check-sat)\n(echo \"=done\")\n");
        let p = self.proc.as_mut().unwrap();
        if p.sin.write_all(q.as_bytes()).is_err() || p.sin.flush().is_err() {
            self.kill();
            return (Res::Unknown("pipe".into()), None);
        }
        let mut res = Res::Unknown("no answer".into());
        let mut err = None;
        loop {
            let mut line = String::new();
            let p = self.proc.as_mut().unwrap();
            match p.out.read_line(&mut line) {
                Ok(0) | Err(_) => {
                    self.kill();
                    return (Res::Unknown("eof".into()), None);
                }
                Ok(_) => {}
            }
            let l = line.trim().trim_matches('"');
            match l {
                "sat" => res = Res::Sat,
                "unsat" => res = Res::Unsat,
                "unknown" | "timeout" => res = Res::Unknown("timeout".into()),
                "=done" => break,
                _ if l.contains("(error") => err = Some(l.to_string()),
                _ => {}
            }
        }
        if let Some(e) = err {
            return (Res::Unknown(format!("solver error {}", e)), None);
        }
        let mut model = None;
        if res == Res::Sat && want_model {
            let mut q = String::from("(get-value (");
            let mut any = false;
            for v in &sc.vars {
                let _ = write!(q, "v{} ", v);
                any = true;
            }
            for h in &sc.hashes {
                let _ = write!(q, "t{} ", h.0);
                any = true;
            }
            q.push_str("))\n(echo \"=done\")\n");
            let mut text = String::new();
            if any {
                let p = self.proc.as_mut().unwrap();
                let _ = p.sin.write_all(q.as_bytes());
                let _ = p.sin.flush();
                loop {
                    let mut line = String::new();
                    match self.proc.as_mut().unwrap().out.read_line(&mut line) {
                        Ok(0) | Err(_) => {
                            self.kill();
                            return (Res::Unknown("eof".into()), None);
                        }
                        Ok(_) => {}
                    }
                    if line.trim().trim_matches('"') == "=done" {
                        break;
                    }
                    text.push_str(&line);
                }
            }
            model = Some(Self::mk_model(sc, &text));
        }
        (res, model)
    }

    fn mk_model(sc: &Script, text: &str) -> Model {
        let vals = parse_values(text);
        let mut m = Model::default();
        for v in &sc.vars {
            if let Some(b) = vals.get(&format!("v{}", v)) {
                m.vars.insert(*v, b.clone());
            }
        }
        for h in &sc.hashes {
            if let Some(b) = vals.get(&format!("t{}", h.0)) {
                m.hash.insert(*h, b.clone());
            }
        }
        m
    }

    /// a query over the integers or reals; no model
    pub fn linear(&mut self, text: &str, ms: u64) -> Res {
        let t0 = Instant::now();
        self.stats.queries += 1;
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{}/lin{}.smt2", d, self.stats.queries), format!("{}(check-sat)\n", text));
        }
        let sc = Script { text: text.to_string(), ..Default::default() };
        let old = self.logic.replace("ALL");
        let r = self.ask_fast(&sc, ms, false).0;
        self.logic = old;
        if t0.elapsed().as_millis() > 500 && std::env::var("WSYM_SLOW").is_ok() {
            eprintln!("linear {} {:?} {:.1}s {} bytes", self.stats.queries, r, t0.elapsed().as_secs_f64(), text.len());
        }
        match &r {
            Res::Sat => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            _ => self.stats.unknown += 1,
        }
        self.stats.solver_time += t0.elapsed().as_secs_f64();
        r
    }

    /// run a portfolio of solvers on the script in parallel, first definite answer wins
    pub fn portfolio(&mut self, sc: &Script, ms: u64) -> (Res, Option<Model>) {
        let mut ms = ms;
        if let Some(d) = self.soft {
            let left = d.saturating_duration_since(Instant::now()).as_millis() as u64;
            if left < 50 {
                return (Res::Unknown("given up".into()), None);
            }
            ms = ms.min(left);
        }
        self.stats.fallback += 1;
        let dir = std::env::temp_dir();
        let id = format!("{}_{}", std::process::id(), self.stats.fallback);
        let path = dir.join(format!("wsym_{}.smt2", id));
        let mut q = String::from("(set-option :produce-models true)\n(set-logic QF_BV)\n");
        q.push_str(&sc.text);
        q.push_str("(check-sat)\n");
        let mut any = false;
        let mut gv = String::from("(get-value (");
        for v in &sc.vars {
            let _ = write!(gv, "v{} ", v);
            any = true;
        }
        for h in &sc.hashes {
            let _ = write!(gv, "t{} ", h.0);
            any = true;
        }
        gv.push_str("))\n");
        if any {
            q.push_str(&gv);
        }
        std::fs::write(&path, &q).expect("write smt2");
        let pa = path.to_str().unwrap().to_string();
        let secs = (ms / 1000).max(1);
        let mut cmds: Vec<Vec<String>> = vec![
            vec!["z3-new".into(), format!("-T:{}", secs), pa.clone()],
            vec!["cvc5".into(), format!("--tlimit={}", ms), pa.clone()],
            vec![
                "cvc5".into(),
                format!("--tlimit={}", ms),
                "--solve-bv-as-int=sum".into(),
                pa.clone(),
            ],
        ];
        if sc.nonlinear {
            cmds.push(vec![
                "cvc5".into(),
                format!("--tlimit={}", ms),
                "--solve-bv-as-int=iand".into(),
                "--nl-ext-tplanes".into(),
                pa.clone(),
            ]);
        }
        let mut kids: Vec<(Child, std::path::PathBuf, bool)> = Vec::new();
        for (i, cm) in cmds.iter().enumerate() {
            let op = dir.join(format!("wsym_{}_{}.out", id, i));
            let f = std::fs::File::create(&op).unwrap();
            if let Ok(ch) = Command::new(&cm[0])
                .args(&cm[1..])
                .stdin(Stdio::null())
                .stdout(f)
                .stderr(Stdio::null())
                .spawn()
            {
                kids.push((ch, op, false));
            }
        }
        let start = Instant::now();
        let mut ans = (Res::Unknown("portfolio timeout".into()), None);
        'w: loop {
            let mut alive = false;
            for k in kids.iter_mut() {
                if k.2 {
                    continue;
                }
                match k.0.try_wait() {
                    Ok(Some(_)) => {
                        k.2 = true;
                        let txt = std::fs::read_to_string(&k.1).unwrap_or_default();
                        let first = txt.lines().next().unwrap_or("").trim().to_string();
                        if first == "unsat" {
                            ans = (Res::Unsat, None);
                            break 'w;
                        }
                        if first == "sat" && !txt.contains("(error") {
                            let body: String =
                                txt.lines().skip(1).collect::<Vec<_>>().join("\n");
                            ans = (Res::Sat, Some(Self::mk_model(sc, &body)));
                            break 'w;
                        }
                    }
                    Ok(None) => alive = true,
                    Err(_) => k.2 = true,
                }
            }
            if !alive || start.elapsed() > Duration::from_millis(ms + 3000) {
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        for k in kids.iter_mut() {
            if !k.2 {
                let _ = k.0.kill();
            }
            let _ = k.0.wait();
            let _ = std::fs::remove_file(&k.1);
        }
        let _ = std::fs::remove_file(&path);
        ans
    }

    /// is pc /\ goal satisfiable?
    pub fn check(&mut self, pc: &[T], goal: &[T]) -> (Res, Option<Rc<Model>>) {
        let f = ff();
        if goal.contains(&f) || pc.contains(&f) {
            return (Res::Unsat, None);
        }
        let t1 = tt();
        let goal: Vec<T> = goal.iter().cloned().filter(|g| *g != t1).collect();
        if goal.is_empty() {
            // the path condition is kept satisfiable
            return (Res::Sat, None);
        }
        // models first
        let all: Vec<T> = pc.iter().cloned().chain(goal.iter().cloned()).collect();
        for i in (0..self.models.len()).rev().take(40) {
            let m = self.models[i].clone();
            let mut ev = Eval::new(&m.vars);
            ev.ufv = Some(&m.hash);
            if all.iter().rev().all(|g| ev.truth(*g)) {
                self.stats.model_hits += 1;
                return (Res::Sat, Some(m));
            }
        }
        let sl = slice(pc, &goal);
        if let Some(r) = self.cache.get(&sl) {
            return r.clone();
        }
        let sc = script(&sl);
        self.stats.queries += 1;
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{}/q{}.smt2", d, self.stats.queries), &sc.text);
        }
        let st = Instant::now();
        let (mut res, mut model) = match self.nl_check(&sl) {
            Some(r) => r,
            None => self.ask_fast(&sc, self.fast_ms.min(400), true),
        };
        if let Res::Unknown(_) = res {
            let mut budget = 200;
            let r = self.split_check(&sl, &mut Vec::new(), &mut budget, 0);
            res = r.0;
            model = r.1;
        }
        if let Res::Unknown(_) = res {
            let mut ms = self.slow_ms;
            if let Some(d) = self.deadline {
                let left = d.saturating_duration_since(Instant::now()).as_millis() as u64;
                ms = ms.min(left.max(1000));
            }
            let r = self.portfolio(&sc, ms);
            res = r.0;
            model = r.1;
        }
        let el = st.elapsed().as_secs_f64();
        self.stats.solver_time += el;
        if el > self.stats.max_query {
            self.stats.max_query = el;
        }
        let mut rm = None;
        match &res {
            Res::Sat => {
                self.stats.sat += 1;
                let mut m = model.unwrap_or_default();
                // complete the sliced model with values for unrelated constraints
                if let Some(base) = self.find_base(pc) {
                    for (k, v) in &base.vars {
                        m.vars.entry(*k).or_insert_with(|| v.clone());
                    }
                    for (k, v) in &base.hash {
                        m.hash.entry(*k).or_insert_with(|| v.clone());
                    }
                }
                let m = Rc::new(m);
                self.models.push(m.clone());
                rm = Some(m);
            }
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown(_) => self.stats.unknown += 1,
        }
        if !matches!(res, Res::Unknown(_)) {
            self.cache.insert(sl, (res.clone(), rm.clone()));
        }
        if el > 2.0 && std::env::var("WSYM_SLOW").is_ok() {
            eprintln!("slow query {:.1}s {:?}", el, res);
            for t in goal.iter() {
                eprintln!("    goal {}", show(*t));
            }
            for t in slice(pc, &goal) {
                eprintln!("    | {}", show(t));
            }
        }
        (res, rm)
    }

    /// unit propagation and elimination of variables by equalities; false: contradiction
    fn propagate(cur: &mut Vec<T>, elim: &mut Vec<(u32, T)>) -> bool {
        for _round in 0..40 {
            cur.sort();
            cur.dedup();
            let t1 = tt();
            cur.retain(|x| *x != t1);
            if cur.iter().any(|x| as_bool(*x) == Some(false)) {
                return false;
            }
            // one equality at a time
            let mut done = true;
            for i in 0..cur.len() {
                if let N::Eq(a, b) = node(cur[i]) {
                    let mut pick = None;
                    for (x, y) in [(a, b), (b, a)] {
                        if let N::Var(v) = node(x) {
                            let vs = varset(y);
                            if !vs.contains(&v) {
                                pick = Some((v, x, y));
                                break;
                            }
                        }
                    }
                    if let Some((v, x, y)) = pick {
                        let mut memo = HashMap::new();
                        memo.insert(x, y);
                        elim.push((v, y));
                        let mut nx = vec![];
                        for (j, t) in cur.iter().enumerate() {
                            if j != i {
                                conjuncts(subst(*t, &mut memo), &mut nx);
                            }
                        }
                        *cur = nx;
                        done = false;
                        break;
                    }
                }
            }
            if !done {
                continue;
            }
            // facts into the other constraints
            let mut facts: HashMap<T, T> = HashMap::new();
            for t in cur.iter() {
                match node(*t) {
                    N::Not(a) => {
                        facts.insert(a, ff());
                    }
                    N::Ult(a, b) => {
                        facts.insert(*t, tt());
                        let (x, y) = (ult(b, a), eq(a, b));
                        if !is_const(x) {
                            facts.insert(x, ff());
                        }
                        if !is_const(y) {
                            facts.insert(y, ff());
                        }
                    }
                    N::Eq(..) | N::Slt(..) | N::Extract(..) | N::Var(..) => {
                        facts.insert(*t, tt());
                    }
                    _ => {}
                }
            }
            let mut nx = vec![];
            let mut changed = false;
            for t in cur.iter() {
                let inner = match node(*t) {
                    N::Not(a) => a,
                    _ => *t,
                };
                if facts.contains_key(&inner) && matches!(node(inner), N::Ult(..) | N::Slt(..) | N::Eq(..) | N::Extract(..) | N::Var(..)) {
                    // keep the fact itself, but simplify below it
                    nx.push(*t);
                    continue;
                }
                let mut memo = facts.clone();
                memo.remove(&inner);
                let r = subst(*t, &mut memo);
                if r != *t {
                    changed = true;
                }
                conjuncts(r, &mut nx);
            }
            *cur = nx;
            if !changed {
                break;
            }
        }
        cur.sort();
        cur.dedup();
        if cur.iter().any(|x| as_bool(*x) == Some(false)) {
            return false;
        }
        true
    }

    /// decide a constraint set by propagation, equality substitution and case splits on the
    /// conditions of if-then-else terms; leaves go to the solver
    fn late(&self) -> bool {
        self.soft.map_or(false, |d| Instant::now() > d)
    }

    fn split_check(
        &mut self,
        set: &[T],
        elim: &mut Vec<(u32, T)>,
        budget: &mut i32,
        depth: u32,
    ) -> (Res, Option<Model>) {
        if self.late() {
            return (Res::Unknown("given up".into()), None);
        }
        let mut cur: Vec<T> = vec![];
        for t in set {
            conjuncts(*t, &mut cur);
        }
        let ne0 = elim.len();
        if !Self::propagate(&mut cur, elim) {
            elim.truncate(ne0);
            return (Res::Unsat, None);
        }
        let mut conds: HashMap<T, u32> = HashMap::new();
        let mut seen = HashSet::new();
        for t in &cur {
            ite_conds(*t, &mut seen, &mut conds);
        }
        if depth >= 1 || conds.is_empty() {
            // try the leaf
            let sc = script(&cur);
            let last = conds.is_empty() || depth >= 12 || *budget <= 0;
            let ms = if last { self.fast_ms } else { 250 };
            *budget -= 1;
            let nl = cur.iter().any(|t| has_nl(*t));
            let mut r = self.ask_fast(&sc, if nl { ms.min(250) } else { ms }, true);
            if nl && matches!(r.0, Res::Unknown(_)) {
                if let Some(x) = self.nl_check2(&cur) {
                    r = x;
                }
            }
            if let (Res::Unknown(_), true) = (&r.0, last && *budget > 0) {
                let mut ms = self.slow_ms;
                if let Some(d) = self.deadline {
                    let left = d.saturating_duration_since(Instant::now()).as_millis() as u64;
                    ms = ms.min(left.max(1000));
                }
                r = self.portfolio(&sc, ms);
                if let Res::Unknown(_) = r.0 {
                    *budget = 0;
                }
            }
            match r.0 {
                Res::Unsat => {
                    elim.truncate(ne0);
                    return (Res::Unsat, None);
                }
                Res::Sat => {
                    let mut m = r.1.unwrap_or_default();
                    for (v, t) in elim.iter().rev() {
                        let val = {
                            let mut ev = Eval::new(&m.vars);
                            ev.ufv = Some(&m.hash);
                            ev.eval(*t)
                        };
                        m.vars.insert(*v, val);
                    }
                    elim.truncate(ne0);
                    return (Res::Sat, Some(m));
                }
                Res::Unknown(e) => {
                    if last {
                        elim.truncate(ne0);
                        return (Res::Unknown(e), None);
                    }
                }
            }
        }
        // split on the most frequent condition, equalities first
        let mut best: Vec<(T, u32)> = conds.into_iter().collect();
        best.sort_by_key(|(t, n)| {
            let e = matches!(node(*t), N::Eq(..)) as u32;
            (std::cmp::Reverse(*n * 4 + e), *t)
        });
        let cnd = best[0].0;
        for k in [true, false] {
            let lit = if k { cnd } else { not(cnd) };
            let mut memo = HashMap::new();
            memo.insert(cnd, boolean(k));
            let mut nx: Vec<T> = vec![lit];
            for t in &cur {
                nx.push(subst(*t, &mut memo));
            }
            let r = self.split_check(&nx, elim, budget, depth + 1);
            match r.0 {
                Res::Unsat => {}
                _ => {
                    elim.truncate(ne0);
                    return r;
                }
            }
        }
        elim.truncate(ne0);
        (Res::Unsat, None)
    }

    /// constraint sets with wide multiplications or divisions: treat those as uninterpreted
    /// functions (with a few valid lemmas) first. Unsat of the abstraction is Unsat; a model is
    /// only accepted when it satisfies the original constraints.
    fn nl_check(&mut self, set0: &[T]) -> Option<(Res, Option<Model>)> {
        if !set0.iter().any(|t| has_nl(*t)) {
            return None;
        }
        let mut set: Vec<T> = vec![];
        for t in set0 {
            conjuncts(*t, &mut set);
        }
        let mut elim: Vec<(u32, T)> = vec![];
        if !Self::propagate(&mut set, &mut elim) {
            return Some((Res::Unsat, None));
        }
        let r = self.nl_check2(&set)?;
        if let (Res::Sat, Some(mut m)) = r {
            for (v, t) in elim.iter().rev() {
                let val = {
                    let mut ev = Eval::new(&m.vars);
                    ev.ufv = Some(&m.hash);
                    ev.eval(*t)
                };
                m.vars.insert(*v, val);
            }
            return Some((Res::Sat, Some(m)));
        }
        Some(r)
    }

    fn nl_check2(&mut self, set: &[T]) -> Option<(Res, Option<Model>)> {
        let mut seen = HashSet::new();
        let mut nl: Vec<T> = vec![];
        let mut work: Vec<T> = set.to_vec();
        while let Some(t) = work.pop() {
            if !seen.insert(t) {
                continue;
            }
            let n = node(t);
            if is_nl(t, &n) {
                nl.push(t);
            }
            work.extend(children(&n));
        }
        if nl.is_empty() {
            let sc = script(set);
            return match self.ask_fast(&sc, 400, true) {
                (Res::Unknown(_), _) => None,
                r => Some(r),
            };
        }
        nl.sort();
        let mut memo: HashMap<T, T> = HashMap::new();
        let mut lem: Vec<T> = vec![];
        for t in &nl {
            let w = width(*t);
            let (zero, one) = (c(w, 0), c(w, 1));
            match node(*t) {
                N::Mul(a, b) => {
                    let (mut x, mut y) = (subst(a, &mut memo), subst(b, &mut memo));
                    if y < x {
                        std::mem::swap(&mut x, &mut y);
                    }
                    let r = uf(uf_id(&format!("nl_mul_{}", w), w), vec![x, y]);
                    lem.push(implies(or(eq(x, zero), eq(y, zero)), eq(r, zero)));
                    lem.push(implies(eq(x, one), eq(r, y)));
                    lem.push(implies(eq(y, one), eq(r, x)));
                    let (bx, by) = (max_bits(x), max_bits(y));
                    if bx + by <= w {
                        let top = Bv::ones(bx.max(1)).zext(w).mul(&Bv::ones(by.max(1)).zext(w));
                        lem.push(ule(r, cst(top)));
                    }
                    memo.insert(*t, r);
                }
                N::UDiv(a, b) => {
                    let (x, y) = (subst(a, &mut memo), subst(b, &mut memo));
                    let r = uf(uf_id(&format!("nl_div_{}", w), w), vec![x, y]);
                    let nz = ne(y, zero);
                    lem.push(implies(nz, ule(r, x)));
                    lem.push(implies(eq(y, one), eq(r, x)));
                    lem.push(implies(nz, eq(ult(x, y), eq(r, zero))));
                    lem.push(implies(eq(y, zero), eq(r, not(zero))));
                    memo.insert(*t, r);
                }
                N::URem(a, b) => {
                    let (x, y) = (subst(a, &mut memo), subst(b, &mut memo));
                    let r = uf(uf_id(&format!("nl_rem_{}", w), w), vec![x, y]);
                    lem.push(implies(ne(y, zero), ult(r, y)));
                    lem.push(ule(r, x));
                    lem.push(implies(ult(x, y), eq(r, x)));
                    lem.push(implies(eq(y, zero), eq(r, x)));
                    memo.insert(*t, r);
                }
                _ => unreachable!(),
            }
        }
        // quotients of nearby dividends by the same divisor: ceil(x/y) written as (x+y-1)/y
        for t1 in &nl {
            for t2 in &nl {
                if let (N::UDiv(x1, y1), N::UDiv(x2, y2)) = (node(*t1), node(*t2)) {
                    if t1 == t2 || width(*t1) != width(*t2) {
                        continue;
                    }
                    let w = width(*t1);
                    let (x1, x2, y) = (subst(x1, &mut memo), subst(x2, &mut memo), subst(y1, &mut memo));
                    let y2 = subst(y2, &mut memo);
                    let ym = sub(y, c(w, 1));
                    let (q1, q2) = (memo[t1], memo[t2]);
                    let rem = uf(uf_id(&format!("nl_rem_{}", w), w), vec![x2, y]);
                    let hyp = and(
                        and(and(eq(y, y2), ne(y, c(w, 0))), eq(x1, add(x2, ym))),
                        ule(x2, not(ym)),
                    );
                    if as_bool(hyp) == Some(false) {
                        continue;
                    }
                    let up = ite(eq(rem, c(w, 0)), c(w, 0), c(w, 1));
                    lem.push(implies(hyp, eq(q1, add(q2, up))));
                    lem.push(implies(ne(y, c(w, 0)), ult(rem, y)));
                }
            }
        }
        let mut abs: Vec<T> = vec![];
        for t in set {
            conjuncts(subst(*t, &mut memo), &mut abs);
        }
        abs.extend(lem);
        let t1 = tt();
        abs.retain(|x| *x != t1);
        if abs.iter().any(|x| as_bool(*x) == Some(false)) {
            return Some((Res::Unsat, None));
        }
        let sc = script(&abs);
        let mut r = self.ask_fast(&sc, 400, true);
        if let Res::Unknown(_) = r.0 {
            let mut budget = 60;
            let keep = self.slow_ms;
            self.slow_ms = keep.min(10000);
            r = self.split_check(&abs, &mut Vec::new(), &mut budget, 0);
            self.slow_ms = keep;
        }
        let m = match r.0 {
            Res::Unsat => return Some((Res::Unsat, None)),
            Res::Unknown(_) => return None,
            Res::Sat => r.1.unwrap_or_default(),
        };
        let good = |m: &Model| -> bool {
            let mut ev = Eval::new(&m.vars);
            ev.ufv = Some(&m.hash);
            ev.hash = Some(&m.hash);
            set.iter().all(|g| ev.truth(*g))
        };
        if good(&m) {
            return Some((Res::Sat, Some(m)));
        }
        // pin one operand of every nonlinear term and solve the linear rest
        for strat in 0..4 {
            let mut memo: HashMap<T, T> = HashMap::new();
            let mut extra: Vec<T> = vec![];
            let mut pinned: HashMap<T, T> = HashMap::new();
            for t in &nl {
                let (ops, div) = match node(*t) {
                    N::Mul(a, b) => (vec![a, b], false),
                    N::UDiv(_, b) | N::URem(_, b) => (vec![b], true),
                    _ => unreachable!(),
                };
                if ops.iter().any(|o| pinned.contains_key(o) || is_const(*o)) {
                    continue;
                }
                let o = *ops.last().unwrap();
                let w = width(o);
                let v = match (strat, div) {
                    (0, _) | (3, false) => {
                        let mut ev = Eval::new(&m.vars);
                        ev.ufv = Some(&m.hash);
                        ev.eval(o)
                    }
                    (1, true) | (3, true) => Bv::new(w, 1),
                    (1, false) => Bv::new(w, 2),
                    (_, true) => Bv::new(w, 3),
                    (_, false) => Bv::new(w, 1).shl_n(w / 4 + 1),
                };
                let k = cst(v);
                pinned.insert(o, k);
                memo.insert(o, k);
                extra.push(eq(o, k));
            }
            let mut v: Vec<T> = vec![];
            for t in set {
                conjuncts(subst(*t, &mut memo), &mut v);
            }
            v.extend(extra);
            v.retain(|x| *x != t1);
            if v.iter().any(|x| as_bool(*x) == Some(false)) {
                continue;
            }
            let sc = script(&v);
            if let (Res::Sat, Some(m)) = self.ask_fast(&sc, 1500, true) {
                if good(&m) {
                    return Some((Res::Sat, Some(m)));
                }
            }
        }
        None
    }

    fn find_base(&mut self, pc: &[T]) -> Option<Rc<Model>> {
        for i in (0..self.models.len()).rev().take(40) {
            let m = self.models[i].clone();
            let mut ev = Eval::new(&m.vars);
            ev.ufv = Some(&m.hash);
            if pc.iter().all(|g| ev.truth(*g)) {
                return Some(m);
            }
        }
        None
    }

    /// a full model of the constraints (no slicing), for counterexamples
    pub fn full_model(&mut self, all: &[T]) -> (Res, Option<Model>) {
        let mut v = all.to_vec();
        v.sort();
        v.dedup();
        let t1 = tt();
        v.retain(|x| *x != t1);
        let sc = script(&v);
        let st = Instant::now();
        self.stats.queries += 1;
        let mut r = match self.nl_check(&v) {
            Some(r) => r,
            None => self.ask_fast(&sc, self.fast_ms * 3, true),
        };
        if let Res::Unknown(_) = r.0 {
            r = self.portfolio(&sc, self.slow_ms);
        }
        self.stats.solver_time += st.elapsed().as_secs_f64();
        r
    }
}
