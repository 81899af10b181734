//! Symbolic executor for the decoded module.
use crate::bv::Bv;
use crate::mem::*;
use crate::solver::*;
use crate::term::*;
use crate::wasm::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    C(u64),
    S(T),
}

#[derive(Clone)]
pub enum Post {
    None,
    /// finishing an external call whose behaviour is given by a harness callback
    Call { idx: usize, len_ptr: u32 },
}

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub pc: u32,
    pub base: usize,
    pub post: Post,
}

#[derive(Clone)]
pub struct CallRec {
    pub kind: u32,
    pub target: T,
    pub value: T,
    pub data: Rc<Vec<MB>>,
    pub status: V,
    pub ret: Rc<Vec<MB>>,
}

#[derive(Clone)]
pub enum InRec {
    /// bytes in memory order
    Sym(String, T, bool, u32),
    Choose(u32),
    Ret(T, Rc<Vec<MB>>),
}

#[derive(Clone)]
pub struct Host {
    pub writes: Vec<(T, T)>,
    pub logs: Vec<(Rc<Vec<MB>>, u32)>,
    pub calls: Vec<CallRec>,
    pub retdata: Rc<Vec<MB>>,
    pub sender: T,
    pub value: T,
    pub me: T,
    pub timestamp: T,
    pub number: T,
    pub chainid: T,
    pub balances: Vec<(T, T)>,
    pub callback: Option<u32>,
    pub pending_status: V,
    pub pending_ret: Rc<Vec<MB>>,
    pub ret_lens: Rc<Vec<u32>>,
    pub inputs: Vec<InRec>,
    /// running digest of `inputs`: states merge only when it is equal
    pub trail: Vec<u64>,
    pub marks: Vec<(u32, u32)>,
}
/// instructions one path may execute
const MAX_STEPS: u64 = 100_000_000;

impl Host {
    fn input(&mut self, i: InRec) {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.trail.last().hash(&mut h);
        match &i {
            InRec::Sym(n, t, ..) => (0, n, t.0 as u64).hash(&mut h),
            InRec::Choose(k) => (1, "", *k as u64).hash(&mut h),
            InRec::Ret(t, d) => (2 + d.len(), "", t.0 as u64).hash(&mut h),
        }
        self.trail.push(h.finish());
        self.inputs.push(i);
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum TrapMode {
    Never,
    Iff(T),
    OnlyIf(T),
}

#[derive(Clone)]
pub struct St {
    pub frames: Vec<Frame>,
    pub stack: Vec<V>,
    pub globals: Vec<V>,
    pub mem: Mem,
    pub pc: Vec<T>,
    pub host: Rc<Host>,
    pub trap: TrapMode,
    pub steps: u64,
    pub conc_count: u32,
    pub uncertain: bool,
}

#[derive(Clone, Copy)]
pub struct Stop {
    pub depth: usize,
    pub pc: usize, // usize::MAX: return of the frame at `depth`
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub json: String,
    pub trace: Vec<String>,
}

pub struct LazyMap {
    pub name: &'static str,
    pub w: u32,
    pub recs: Vec<(T, T, T, usize, u64)>, // key, value term, fresh var
}

impl LazyMap {
    /// records made on paths that cannot merge with this one do not matter to it
    fn mine(r: &(T, T, T, usize, u64), trail: &[u64]) -> bool {
        r.3 == 0 || (r.3 <= trail.len() && trail[r.3 - 1] == r.4)
    }
    fn get(&mut self, key: T, trail: &[u64]) -> T {
        for r in &self.recs {
            if r.0 == key && LazyMap::mine(r, trail) {
                return r.1;
            }
        }
        let f = fresh(&format!("{}{}", self.name, self.recs.len()), self.w);
        let mut val = f;
        for r in self.recs.iter() {
            if !LazyMap::mine(r, trail) {
                continue;
            }
            let e = eq(r.0, key);
            if as_bool(e) == Some(false) {
                continue;
            }
            val = ite(e, r.1, val);
        }
        self.recs.push((key, val, f, trail.len(), trail.last().cloned().unwrap_or(0)));
        val
    }
}

pub enum Outcome {
    Cont,
    /// path finished (returned, pruned, trapped)
    Done,
    /// replace this state by these
    Fork(Vec<St>),
    /// branch: condition (1 bit), taken pc handled by caller
    Branch(T),
}

pub struct Exec {
    pub m: Rc<Module>,
    pub sol: Solver,
    pub fresh: bool,
    pub storage0: LazyMap,
    pub balance0: LazyMap,
    pub codesize: LazyMap,
    pub codehash: LazyMap,
    pub env: Host,
    pub violations: Vec<Violation>,
    pub covers: BTreeMap<String, u64>,
    pub witnesses: Vec<String>,
    pub checks: BTreeMap<String, u64>,
    pub inconclusive: Vec<String>,
    pub paths: u64,
    pub traps: u64,
    pub forks: u64,
    pub merges: u64,
    pub steps: u64,
    pub funcs_seen: Vec<u64>,
    pub fork_sites: HashMap<(u32, u32), u64>,
    pub merge_on: bool,
    pub lazy: bool,
    /// products with this constant get a name: (name, the other factor, the product)
    pub cut: Option<u64>,
    pub cuts: Vec<(T, T, T)>,
    pub ipd: HashMap<u32, Rc<Vec<usize>>>,
    pub live: HashMap<u32, Rc<Vec<Vec<u64>>>>,
    pub summaries: Vec<u8>,
    pub harness: String,
    pub start: Instant,
    pub max_time: f64,
    pub max_paths: u64,
    pub max_conc: u32,
    pub stop_all: bool,
    pub verbose: bool,
    pub obligations: u64,
    pub max_recursion: usize,
    pub raw_ruint: bool,
    pub thorough: bool,
    pub bounds: BTreeMap<String, u64>,
    pub notes: Vec<String>,
}

const S_NONE: u8 = 0;
const S_MEMCPY: u8 = 1;
const S_MEMSET: u8 = 2;
const S_MEMCMP: u8 = 3;
const S_MULTI3: u8 = 4;
const S_PANIC: u8 = 5;
const S_RADD: u8 = 6;
const S_RSUB: u8 = 7;
const S_RLT: u8 = 8;
const S_RMUL: u8 = 9;
const S_RDIV: u8 = 10;
const S_RCMP: u8 = 11;
const S_RSHL: u8 = 12;
const S_RSHR: u8 = 13;

fn base_name(n: &str) -> &str {
    // strip "::h0123456789abcdef"
    if let Some(i) = n.rfind("::h") {
        if n.len() - i == 19 {
            return &n[..i];
        }
    }
    n
}

fn classify(name: &str) -> u8 {
    let n = base_name(name);
    match n {
        "memcpy" | "memmove" | "compiler_builtins::mem::memcpy" | "compiler_builtins::mem::memmove" => {
            return S_MEMCPY
        }
        "memset" | "compiler_builtins::mem::memset" => return S_MEMSET,
        "memcmp" | "bcmp" | "compiler_builtins::mem::memcmp" | "compiler_builtins::mem::bcmp" => {
            return S_MEMCMP
        }
        "__multi3" => return S_MULTI3,
        "wsym_ruint_add" => return S_RADD,
        "wsym_ruint_sub" => return S_RSUB,
        "wsym_ruint_lt" => return S_RLT,
        "wsym_ruint_cmp" => return S_RCMP,
        "wsym_ruint_mul" => return S_RMUL,
        "wsym_ruint_divrem" => return S_RDIV,
        "wsym_ruint_shl" => return S_RSHL,
        "wsym_ruint_shr" => return S_RSHR,
        _ => {}
    }
    const P: [&str; 22] = [
        "core::panicking::", "core::result::unwrap_failed", "core::option::unwrap_failed",
        "core::option::expect_failed", "core::slice::index::slice_", "rust_panic",
        "std::panicking::", "alloc::alloc::handle_alloc_error", "alloc::raw_vec::handle_error",
        "alloc::raw_vec::capacity_overflow", "core::str::slice_error_fail", "__rust_start_panic",
        "rust_begin_unwind", "core::slice::copy_from_slice", "core::cell::panic_",
        "alloc::vec::Vec<T,A>::swap_remove::assert_failed",
        "alloc::vec::Vec<T,A>::remove::assert_failed",
        "alloc::vec::Vec<T,A>::insert::assert_failed",
        "alloc::vec::Vec<T,A>::split_off::assert_failed",
        "__rust_alloc_error_handler", "__rg_oom", "std::alloc::rust_oom",
    ];
    if P.iter().any(|p| n.starts_with(p)) {
        return S_PANIC;
    }
    if n.contains("::copy_from_slice::len_mismatch_fail") || n.contains("::index::slice_") {
        return S_PANIC;
    }
    S_NONE
}

fn w32(v: V) -> T {
    match v {
        V::C(x) => c(32, x as u32 as u64),
        V::S(t) => t,
    }
}
fn w64(v: V) -> T {
    match v {
        V::C(x) => c(64, x),
        V::S(t) => t,
    }
}
fn mkv(t: T) -> V {
    match as_const(t) {
        Some(b) => V::C(b.u64()),
        None => V::S(t),
    }
}

/// a load whose address is a constant plus a small index: selection over the table's entries
fn table_load(mem: &Mem, at: T, off: u64, n: usize) -> Option<T> {
    let (ix, scale, base) = match node(at) {
        N::Sum(ts, k) if ts.len() == 1 => (ts[0].1, ts[0].0.u64(), k.u64()),
        N::Concat(_) => (at, 1, 0),
        _ => return None,
    };
    let bits = max_bits(ix);
    if bits == 0 || bits > 8 || scale == 0 || scale > 64 || base + off < 1024 {
        return None;
    }
    let mut cur: Vec<T> = vec![];
    for v in 0..1u64 << bits {
        let a = (base + v * scale) as u32 as u64 + off;
        if a as usize + n > mem.len() {
            return None;
        }
        cur.push(match mem.load_c(a as usize, n) {
            Some(x) => c(8 * n as u32, x),
            None => mem.load_le(a as usize, n),
        });
    }
    for b in 0..bits {
        let bit = extract(ix, b, b);
        cur = cur.chunks(2).map(|p| ite(bit, p[1], p[0])).collect();
    }
    Some(cur[0])
}

/// every value a term built from constants, selections and re-arrangements can have (at most 24)
fn leaf_values(t: T, depth: u32) -> Option<Vec<Bv>> {
    if let Some(b) = as_const(t) {
        return Some(vec![b]);
    }
    if width(t) == 1 {
        return Some(vec![Bv::new(1, 0), Bv::new(1, 1)]);
    }
    if depth > 40 {
        return None;
    }
    let mut o: Vec<Bv> = match node(t) {
        N::Ite(_, a, b) => {
            let mut x = leaf_values(a, depth + 1)?;
            x.extend(leaf_values(b, depth + 1)?);
            x
        }
        N::Extract(x, hi, lo) => match node(x) {
            N::Ite(_, a, b) => {
                let mut y = leaf_values(extract(a, hi, lo), depth + 1)?;
                y.extend(leaf_values(extract(b, hi, lo), depth + 1)?);
                y
            }
            _ => return None,
        },
        N::Concat(ps) => {
            let mut acc: Vec<Bv> = vec![];
            let mut first = true;
            for p in ps.iter() {
                let vs = leaf_values(*p, depth + 1)?;
                if first {
                    acc = vs;
                    first = false;
                    continue;
                }
                let mut nx = vec![];
                for a in &acc {
                    for b in &vs {
                        nx.push(a.concat(b));
                    }
                }
                if nx.len() > 64 {
                    return None;
                }
                acc = nx;
            }
            acc
        }
        _ => return None,
    };
    o.sort_by(|a, b| format!("{:?}", a).cmp(&format!("{:?}", b)));
    o.dedup();
    if o.len() > 24 {
        return None;
    }
    Some(o)
}

impl Exec {
    pub fn new(m: Rc<Module>) -> Exec {
        let summaries = m.funcs.iter().map(|f| classify(&f.name)).collect();
        let nf = m.funcs.len();
        let env = Host {
            writes: vec![],
            logs: vec![],
            calls: vec![],
            retdata: Rc::new(vec![]),
            sender: fresh("msg_sender", 160),
            value: fresh("msg_value", 256),
            me: fresh("self", 160),
            timestamp: fresh("timestamp", 64),
            number: fresh("blocknumber", 64),
            chainid: fresh("chainid", 64),
            balances: vec![],
            callback: None,
            pending_status: V::C(0),
            pending_ret: Rc::new(vec![]),
            ret_lens: Rc::new(vec![0, 32]),
            inputs: vec![],
            trail: vec![],
            marks: vec![],
        };
        Exec {
            m,
            sol: Solver::new(),
            fresh: false,
            storage0: LazyMap { name: "S0_", w: 256, recs: vec![] },
            balance0: LazyMap { name: "BAL_", w: 256, recs: vec![] },
            codesize: LazyMap { name: "CS_", w: 32, recs: vec![] },
            codehash: LazyMap { name: "CH_", w: 256, recs: vec![] },
            env,
            violations: vec![],
            covers: BTreeMap::new(),
            witnesses: vec![],
            checks: BTreeMap::new(),
            inconclusive: vec![],
            paths: 0,
            traps: 0,
            forks: 0,
            merges: 0,
            steps: 0,
            funcs_seen: vec![0; nf],
            fork_sites: HashMap::new(),
            merge_on: true,
            lazy: false,
            cut: None,
            cuts: vec![],
            ipd: HashMap::new(),
            live: HashMap::new(),
            summaries,
            harness: String::new(),
            start: Instant::now(),
            max_time: 600.0,
            max_paths: 1_000_000,
            max_conc: 400,
            stop_all: false,
            verbose: false,
            obligations: 0,
            max_recursion: 400,
            raw_ruint: false,
            thorough: false,
            bounds: BTreeMap::new(),
            notes: vec![],
        }
    }

    pub fn run_harness(&mut self, name: &str) {
        self.harness = name.to_string();
        self.start = Instant::now();
        let fi = self
            .m
            .exports
            .iter()
            .find(|e| e.0 == name && e.1 == 0)
            .unwrap_or_else(|| panic!("no export {}", name))
            .2;
        let mut mem = Mem::new(self.m.mem_pages as usize * 65536);
        for (off, d) in &self.m.data {
            for (i, x) in d.iter().enumerate() {
                mem.set(*off as usize + i, MB::C(*x));
            }
        }
        let mut st = St {
            frames: vec![],
            stack: vec![],
            globals: self.m.globals.iter().map(|g| V::C(g.2)).collect(),
            mem,
            pc: vec![],
            host: Rc::new(self.env.clone()),
            trap: TrapMode::Never,
            steps: 0,
            conc_count: 0,
            uncertain: false,
        };
        self.push_frame(&mut st, fi, Post::None);
        self.run(st, None, 0);
    }

    fn push_frame(&mut self, st: &mut St, fi: u32, post: Post) {
        let f = &self.m.funcs[fi as usize];
        self.funcs_seen[fi as usize] += 1;
        let base = st.stack.len() - f.nparams as usize;
        for _ in f.nparams..f.nlocals {
            st.stack.push(V::C(0));
        }
        st.frames.push(Frame { func: fi, pc: 0, base, post });
        if st.frames.len() > 2000 {
            panic!("call depth");
        }
    }

    fn out_of_budget(&mut self) -> bool {
        if self.stop_all {
            return true;
        }
        if self.start.elapsed().as_secs_f64() > self.max_time {
            self.inconclusive.push("time budget exhausted".into());
            self.stop_all = true;
        }
        if self.paths > self.max_paths {
            self.inconclusive.push("path budget exhausted".into());
            self.stop_all = true;
        }
        self.stop_all
    }

    /// explore from st; returns the states which reached `stop`
    pub fn run(&mut self, st: St, stop: Option<Stop>, depth: usize) -> Vec<St> {
        let m = self.m.clone();
        let mut work = vec![st];
        let mut out = vec![];
        'w: while let Some(mut st) = work.pop() {
            loop {
                if let Some(s) = stop {
                    let fl = st.frames.len();
                    if s.pc == usize::MAX {
                        if fl < s.depth {
                            out.push(st);
                            continue 'w;
                        }
                    } else if fl == s.depth && st.frames[fl - 1].pc as usize == s.pc {
                        out.push(st);
                        continue 'w;
                    }
                }
                self.steps += 1;
                st.steps += 1;
                if self.steps % 1024 == 0 && self.out_of_budget() {
                    return out;
                }
                if st.steps > MAX_STEPS {
                    // no call of a contract is this long: report it as not terminating (the
                    // replay decides)
                    self.report(&st, tt(), "hang", "the call does not terminate");
                    self.inconclusive.push("step budget of a path exhausted".into());
                    continue 'w;
                }
                match self.step(&m, &mut st) {
                    Outcome::Cont => {}
                    Outcome::Done => {
                        if self.stop_all {
                            return out;
                        }
                        continue 'w;
                    }
                    Outcome::Fork(v) => {
                        self.forks += v.len().saturating_sub(1) as u64;
                        work.extend(v);
                        continue 'w;
                    }
                    Outcome::Branch(cond) => {
                        // the instruction at pc is a conditional branch; decide it
                        match self.decide(&mut st, cond) {
                            Some(true) => self.take_branch(&mut st, true),
                            Some(false) => self.take_branch(&mut st, false),
                            None => {
                                let fr = st.frames.last().unwrap();
                                let site = (fr.func, fr.pc);
                                *self.fork_sites.entry(site).or_insert(0) += 1;
                                self.forks += 1;
                                let d = st.frames.len();
                                let mut a = st.clone();
                                a.pc.push(cond);
                                let mut b = st;
                                b.pc.push(not(cond));
                                let join = if self.merge_on && depth < self.max_recursion {
                                    let ip = self.ipdom(site.0);
                                    Some(Stop { depth: d, pc: ip[site.1 as usize] })
                                } else {
                                    None
                                };
                                self.take_branch(&mut a, true);
                                self.take_branch(&mut b, false);
                                match join {
                                    Some(j) => {
                                        // never run past an enclosing stop point
                                        let j = self.clip(j, stop);
                                        let mut rs = self.run(a, Some(j), depth + 1);
                                        if self.stop_all {
                                            return out;
                                        }
                                        rs.extend(self.run(b, Some(j), depth + 1));
                                        if self.stop_all {
                                            return out;
                                        }
                                        let merged = self.merge_all(rs);
                                        work.extend(merged);
                                    }
                                    None => {
                                        work.push(b);
                                        work.push(a);
                                    }
                                }
                                continue 'w;
                            }
                        }
                    }
                }
            }
        }
        out
    }

    fn clip(&self, j: Stop, _outer: Option<Stop>) -> Stop {
        j
    }

    fn ipdom(&mut self, f: u32) -> Rc<Vec<usize>> {
        if let Some(v) = self.ipd.get(&f) {
            return v.clone();
        }
        let v = Rc::new(ipdoms(&self.m.funcs[f as usize].code));
        self.ipd.insert(f, v.clone());
        v
    }

    /// live locals at every pc (bit sets)
    fn liveness(&mut self, f: u32) -> Rc<Vec<Vec<u64>>> {
        if let Some(v) = self.live.get(&f) {
            return v.clone();
        }
        let fun = &self.m.funcs[f as usize];
        let n = fun.code.len();
        let w = (fun.nlocals as usize + 63) / 64;
        let mut live = vec![vec![0u64; w]; n];
        let mut ch = true;
        while ch {
            ch = false;
            for pc in (0..n).rev() {
                let mut cur = vec![0u64; w];
                for s in succs(&fun.code, pc) {
                    if s != usize::MAX && s < n {
                        for i in 0..w {
                            cur[i] |= live[s][i];
                        }
                    }
                }
                match &fun.code[pc] {
                    I::LocalGet(i) => cur[*i as usize / 64] |= 1 << (i % 64),
                    I::LocalSet(i) | I::LocalTee(i) => cur[*i as usize / 64] &= !(1 << (i % 64)),
                    _ => {}
                }
                if cur != live[pc] {
                    live[pc] = cur;
                    ch = true;
                }
            }
        }
        let r = Rc::new(live);
        self.live.insert(f, r.clone());
        r
    }

    /// Some(b) when the path condition determines the condition
    fn decide(&mut self, st: &mut St, cond: T) -> Option<bool> {
        if let Some(b) = as_bool(cond) {
            return Some(b);
        }
        let nc = not(cond);
        if st.pc.contains(&cond) {
            return Some(true);
        }
        if st.pc.contains(&nc) {
            return Some(false);
        }
        let nl = crate::solver::has_nl(cond);
        if self.lazy {
            // whether the branch can be taken is left open: both sides are explored
            st.uncertain = true;
            return None;
        }
        let slow = self.sol.slow_ms;
        self.sol.slow_ms = slow.min(8000);
        let soft = || if nl { Some(Instant::now() + std::time::Duration::from_millis(2500)) } else { None };
        self.sol.soft = soft();
        let r1 = self.sol.check(&st.pc, &[cond]).0;
        let r = if r1 == Res::Unsat {
            Some(false)
        } else {
            self.sol.soft = soft();
            let r2 = self.sol.check(&st.pc, &[nc]).0;
            if r2 == Res::Unsat {
                Some(true)
            } else {
                if r1 != Res::Sat || r2 != Res::Sat {
                    st.uncertain = true;
                }
                None
            }
        };
        self.sol.slow_ms = slow;
        self.sol.soft = None;
        r
    }

    fn take_branch(&mut self, st: &mut St, taken: bool) {
        let m = self.m.clone();
        let fr = st.frames.last_mut().unwrap();
        let ins = &m.funcs[fr.func as usize].code[fr.pc as usize];
        st.stack.pop();
        match ins {
            I::BrIf(t) => {
                if taken {
                    do_br(&m, st, t);
                } else {
                    fr.pc += 1;
                }
            }
            I::BrIfZ(t) => {
                // condition nonzero = fall through
                if taken {
                    fr.pc += 1;
                } else {
                    fr.pc = *t;
                }
            }
            x => panic!("take_branch {:?}", x),
        }
    }

    /// make operand at stack position concrete; Ok(value) or the fork
    fn conc(&mut self, st: &mut St, pos_from_top: usize, what: &str) -> Result<u64, Outcome> {
        let i = st.stack.len() - 1 - pos_from_top;
        let t = match st.stack[i] {
            V::C(x) => return Ok(x),
            V::S(t) => t,
        };
        self.conc_term(st, t, what, |s, v| s.stack[i] = V::C(v))
    }

    fn conc_term(
        &mut self,
        st: &mut St,
        t: T,
        what: &str,
        set: impl Fn(&mut St, u64),
    ) -> Result<u64, Outcome> {
        if let Some(b) = as_const(t) {
            set(st, b.u64());
            return Ok(b.u64());
        }
        st.conc_count += 1;
        if st.conc_count > self.max_conc {
            self.inconclusive.push(format!("too many values for {}: {}", what, show(t)));
            if self.verbose {
                eprintln!("CONC {} {}", what, show(t));
                for p in &st.pc {
                    eprintln!("   pc {}", show(*p));
                }
                for f in &st.frames {
                    eprintln!("   at {} pc {}", self.m.funcs[f.func as usize].name, f.pc);
                }
            }
            self.stop_all = true;
            return Err(Outcome::Done);
        }
        // a term with few possible values: try them in turn
        if let Some(vals) = leaf_values(t, 0) {
            let mut left: Vec<Bv> = vec![];
            for v in vals {
                let e = eq(t, cst(v.clone()));
                if as_bool(e) != Some(false) && !st.pc.contains(&not(e)) {
                    left.push(v);
                }
            }
            while let Some(v) = left.pop() {
                if left.is_empty() {
                    set(st, v.u64());
                    return Ok(v.u64());
                }
                let cond = eq(t, cst(v.clone()));
                match self.decide(st, cond) {
                    Some(true) => {
                        set(st, v.u64());
                        return Ok(v.u64());
                    }
                    Some(false) => st.pc.push(not(cond)),
                    None => {
                        let fr = st.frames.last().unwrap();
                        *self.fork_sites.entry((fr.func, fr.pc)).or_insert(0) += 1;
                        return self.split(st, cond, v.u64(), set);
                    }
                }
            }
        }
        // ask for a value
        if self.verbose {
            eprintln!("probing {} {} {:?}", what, show(t), leaf_values(t, 0));
        }
        let w = width(t);
        let probe = fresh("probe", w);
        let (r, mo) = self.sol.check(&st.pc, &[eq(probe, t)]);
        let v = match (r, mo) {
            (Res::Sat, Some(mo)) => {
                let mut ev = Eval::new(&mo.vars);
                ev.ufv = Some(&mo.hash);
                let val = ev.eval(t);
                // make sure it is feasible
                val
            }
            (Res::Unsat, _) => return Err(Outcome::Done),
            _ => {
                self.inconclusive.push(format!("unknown while concretising {}", what));
                self.stop_all = true;
                return Err(Outcome::Done);
            }
        };
        let cond = eq(t, cst(v.clone()));
        let fr = st.frames.last().unwrap();
        *self.fork_sites.entry((fr.func, fr.pc)).or_insert(0) += 1;
        match self.decide(st, cond) {
            Some(true) => {
                set(st, v.u64());
                Ok(v.u64())
            }
            Some(false) => {
                // the evaluated model was not a model of the path (hash values); use the solver
                let (r, mo) = self.sol.full_model(
                    &st.pc.iter().cloned().chain([eq(probe, t)]).collect::<Vec<_>>(),
                );
                if let (Res::Sat, Some(mo)) = (r, mo) {
                    if let N::Var(id) = node(probe) {
                        if let Some(v) = mo.vars.get(&id) {
                            let cond = eq(t, cst(v.clone()));
                            return self.split(st, cond, v.u64(), set);
                        }
                    }
                }
                self.inconclusive.push(format!("cannot concretise {}", what));
                self.stop_all = true;
                Err(Outcome::Done)
            }
            None => self.split(st, cond, v.u64(), set),
        }
    }

    fn split(
        &mut self,
        st: &mut St,
        cond: T,
        v: u64,
        set: impl Fn(&mut St, u64),
    ) -> Result<u64, Outcome> {
        let mut a = st.clone();
        a.pc.push(cond);
        set(&mut a, v);
        let mut b = st.clone();
        b.pc.push(not(cond));
        Err(Outcome::Fork(vec![b, a]))
    }

    fn trap(&mut self, st: &mut St, why: &str) -> Outcome {
        self.traps += 1;
        match st.trap {
            TrapMode::Never => {
                self.obligation(st, ff(), "unexpected trap", &format!("unexpected trap: {}", why));
            }
            TrapMode::Iff(cnd) | TrapMode::OnlyIf(cnd) => {
                self.obligation(
                    st,
                    cnd,
                    "unexpected trap",
                    &format!("trap outside the specified condition: {}", why),
                );
            }
        }
        self.paths += 1;
        Outcome::Done
    }

    /// PC => cond must hold. Returns false when violated / undecided (path should stop)
    fn obligation(&mut self, st: &St, cond: T, kind: &str, msg: &str) -> bool {
        self.obligations += 1;
        if as_bool(cond) == Some(true) {
            return true;
        }
        let nc = not(cond);
        if as_bool(cond) != Some(false) && st.pc.contains(&cond) {
            return true;
        }
        let mut goal = vec![];
        conjuncts(nc, &mut goal);
        // for a conjunction obligation, decide each conjunct separately
        let mut cj = vec![];
        conjuncts(cond, &mut cj);
        if cj.len() > 1 {
            let mut proved: Vec<T> = st.pc.clone();
            let mut ok = true;
            for x in cj {
                match self.sol.check(&proved, &[not(x)]).0 {
                    Res::Unsat => proved.push(x),
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                return true;
            }
        }
        let (r, _) = self.sol.check(&st.pc, &goal);
        match r {
            Res::Unsat => true,
            Res::Unknown(e) => {
                self.inconclusive.push(format!("undecided obligation ({}): {}", e, msg));
                if self.verbose {
                    eprintln!("UNDECIDED {} {}", msg, show(cond));
                    for p in &st.pc {
                        eprintln!("   pc {}", show(*p));
                    }
                }
                false
            }
            Res::Sat => {
                self.report(st, nc, kind, msg);
                false
            }
        }
    }

    /// structured values for the inputs: look for one that satisfies all conditions
    fn sample(&mut self, all: &[T], rounds: u64) -> bool {
        let mut vs: Vec<u32> = vec![];
        for t in all {
            vs.extend(varset(*t).iter().filter(|v| **v < u32::MAX - 100000));
        }
        vs.sort_unstable();
        vs.dedup();
        let cuts: Vec<(u32, T)> =
            self.cuts.iter().filter_map(|x| if let N::Var(i) = node(x.0) { Some((i, x.2)) } else { None }).collect();
        vs.retain(|v| !cuts.iter().any(|x| x.0 == *v));
        let mut consts: Vec<u64> = vec![0, 1, 2, u64::MAX, u64::MAX - 1, 1 << 32, (1 << 32) - 1, 1 << 63, (1 << 63) - 1, 3];
        let mut seen = std::collections::HashSet::new();
        let mut todo: Vec<T> = all.to_vec();
        while let Some(t) = todo.pop() {
            if !seen.insert(t) {
                continue;
            }
            let n = node(t);
            if let N::Const(b) = &n {
                if b.w >= 32 && consts.len() < 40 && b.fits_u64() {
                    for x in [b.u64(), b.u64().wrapping_sub(1), b.u64().wrapping_add(1)] {
                        if !consts.contains(&x) {
                            consts.push(x);
                        }
                    }
                }
            }
            todo.extend(children(&n));
        }
        let mut x = 0x9e3779b97f4a7c15u64;
        let mut rnd = || {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x
        };
        for _ in 0..rounds {
            let mut m = Model::default();
            for v in &vs {
                let w = store(|s| s.vars[*v as usize].1);
                let n = (w as usize + 63) / 64;
                let l: Vec<u64> = (0..n)
                    .map(|_| match rnd() % 3 {
                        0 => rnd(),
                        _ => consts[(rnd() % consts.len() as u64) as usize],
                    })
                    .collect();
                m.vars.insert(*v, Bv::from_limbs(w, &l));
            }
            for (i, t) in &cuts {
                let v = Eval::new(&m.vars).eval(*t);
                m.vars.insert(*i, v);
            }
            let mut ev = Eval::new(&m.vars);
            if all.iter().all(|g| ev.truth(*g)) {
                self.sol.models.push(std::rc::Rc::new(m));
                return true;
            }
        }
        false
    }

    fn is_cut(&self, p: T) -> bool {
        self.cuts.iter().any(|x| eq(x.0, x.2) == p)
    }
    /// an upper bound of x: its value if constant, m - 1 if x < m here, its width otherwise
    fn at_most(&mut self, st: &St, x: T, m: T) -> num_bigint::BigInt {
        if let Some(v) = as_const(x) {
            return crate::int::big(&v);
        }
        let w = width(x).max(width(m));
        let inb = ult(zext(x, w), zext(m, w));
        let pc: Vec<T> = st.pc.iter().filter(|p| !self.is_cut(**p)).cloned().collect();
        match as_const(m) {
            Some(mc) if as_bool(inb) == Some(true) || self.sol.check(&pc, &[not(inb)]).0 == Res::Unsat => {
                crate::int::big(&mc) - 1
            }
            _ => (num_bigint::BigInt::from(1) << width(x) as usize) - 1,
        }
    }

    /// r 2^k = a b (mod m) over the integers, and r < m if `below`
    fn prove_mul(&mut self, st: &St, r: T, k: u32, a: T, b: T, m: T, below: bool, msg: &str) {
        use crate::int::Ints;
        self.obligations += 1;
        let w = (width(r) + k).max(width(a) + width(b)).max(width(m)) + 1;
        let mz = zext(m, w);
        let lhs = urem(shl(zext(r, w), c(w, k as u64)), mz);
        let rhs = urem(mul(zext(a, w), zext(b, w)), mz);
        let mut cond = eq(lhs, rhs);
        if below {
            cond = and(cond, ult(zext(r, w), mz));
        }
        if as_bool(cond) == Some(true) {
            return;
        }
        let mut all = st.pc.clone();
        all.push(not(cond));
        if self.sample(&all, 400) {
            return self.report(st, not(cond), "check", msg);
        }
        let Some(mc) = as_const(m) else {
            self.inconclusive.push(format!("modulus not constant: {}", msg));
            return;
        };
        let mm = crate::int::big(&mc);
        let most = self.at_most(st, a, m) * self.at_most(st, b, m);
        let mut why = String::new();
        match crate::int::cases(&[r, a, b], 600) {
            None => why = "too many cases".to_string(),
            Some(cs) => {
                for (lits, ts) in cs {
                    let mut z = Ints::new();
                    z.factors(&self.cuts, self.cut.unwrap_or(0), &mm);
                    let (vr, va, vb) = (z.value(ts[0]), z.value(ts[1]), z.value(ts[2]));
                    let ab = va.mul(&vb);
                    let g = vr.scale(&(num_bigint::BigInt::from(1) << k as usize)).sub(&ab);
                    z.facts.push(Ints::konst(most.clone()).sub(&ab));
                    match self.settle(st, &mut z, &lits, &g, &mm) {
                        None => continue, // the case cannot occur
                        Some(true) => {}
                        Some(false) => {
                            why = format!("not congruent: {}", z.show(&Ints::residue(&z.substitute(&g), &mm)));
                            break;
                        }
                    }
                    if below {
                        let text = z.below(&lits, ts[0], &vr, k, &z.substitute(&g), &mm, &most);
                        if self.sol.linear(&text, 20000) != Res::Unsat {
                            why = format!("not reduced: {} literals, {}", lits.len(), z.brief(&z.substitute(&g)));
                            if self.verbose {
                                for (l, v) in &lits {
                                    eprintln!("LIT {} {}", v, show(*l));
                                }
                            }
                            break;
                        }
                    }
                }
            }
        };
        if why.is_empty() {
            return;
        }
        if self.sample(&all, 20000) {
            return self.report(st, not(cond), "check", msg);
        }
        if self.verbose {
            eprintln!("UNDECIDED {}: {}", msg, why);
        }
        self.inconclusive.push(format!("undecided obligation (integer encoding): {}", msg));
    }
    /// g = 0 (mod m), fixing quotients through the solver where the case's literals decide them
    fn settle(
        &mut self,
        st: &St,
        z: &mut crate::int::Ints,
        lits: &[(T, bool)],
        g: &crate::int::Poly,
        m: &num_bigint::BigInt,
    ) -> Option<bool> {
        use crate::int::Ints;
        for (l, v) in lits {
            z.solve(*l, *v);
        }
        for round in 0..2 {
            let h = z.substitute(g);
            let res = Ints::residue(&h, m);
            if z.overflow {
                return Some(false);
            }
            if self.verbose {
                eprintln!("case of {} literals, round {}: {} atoms, {} monomials in the claim, residue: {}", lits.len(), round, z.size(), h.0.len(), z.brief(&res));
            }
            if res.0.is_empty() {
                // the solver confirms it on the integer encoding
                let text = z.script(&[Ints::nonzero_mod(&h, m)], &[&h], &[], false);
                return Some(self.sol.linear(&text, 20000) == Res::Unsat);
            }
            if round == 0 {
                for (l, v) in lits {
                    z.learn(*l, *v);
                }
                for p in st.pc.iter().filter(|p| !self.is_cut(**p)) {
                    z.learn(*p, true);
                }
                // an impossible case?
                let text = z.script(&[], &[], &[], true);
                if self.sol.linear(&text, 5000) == Res::Unsat {
                    return None;
                }
                // what is left vanishes?
                if res.0.len() <= 8 {
                    let l = crate::int::primitive(&res).1;
                    let ng = format!("(or {} {})", Ints::lt(&l, &0.into()), Ints::ge(&l, &1.into()));
                    let text = z.script(&[ng], &[&l], &[], false);
                    if self.sol.linear(&text, 10000) == Res::Unsat {
                        z.equation(&l);
                        return Some(true);
                    }
                }
                if res.0.len() <= 40 {
                    let text = z.script(&[Ints::nonzero_mod(&res, m)], &[&res], &[], false);
                    if self.sol.linear(&text, 10000) == Res::Unsat {
                        return Some(true);
                    }
                }
                for a in z.narrow(&res) {
                    let (lo, hi) = z.bounds(a);
                    let p = z.atom_poly(a);
                    let mut x = lo;
                    while x <= hi {
                        let y: num_bigint::BigInt = &x + 1;
                        let ng = format!("(or {} {})", Ints::lt(&p, &x), Ints::ge(&p, &y));
                        let text = z.script(&[ng], &[&p], &[], false);
                        if self.sol.linear(&text, 10000) == Res::Unsat {
                            z.fix(a, x.clone());
                            break;
                        }
                        x = y;
                    }
                }
                let mut rel: Vec<_> = z
                    .close(&Ints::residue(&z.substitute(g), m))
                    .into_iter()
                    .map(|(a, b, lo, hi)| (z.atom_poly(a).sub(&z.atom_poly(b)), lo, hi))
                    .collect();
                rel.extend(z.flags());
                for (p, lo, hi) in rel {
                    let mut x = lo;
                    while x <= hi {
                        let y: num_bigint::BigInt = &x + 1;
                        let ng = format!("(or {} {})", Ints::lt(&p, &x), Ints::ge(&p, &y));
                        let text = z.script(&[ng], &[&p], &[], false);
                        if self.sol.linear(&text, 10000) == Res::Unsat {
                            z.equation(&p.sub(&Ints::konst(x)));
                            break;
                        }
                        x = y;
                    }
                    if Ints::residue(&z.substitute(g), m).0.is_empty() {
                        break;
                    }
                }
            }
        }
        Some(false)
    }
    /// a model of the conjunction, preferably one in which every hash has its real value.
    /// Ok(None): unsatisfiable
    fn find_model(&mut self, all: &[T]) -> Result<Option<(Model, bool)>, String> {
        for i in (0..self.sol.models.len()).rev().take(60) {
            let mo = self.sol.models[i].clone();
            let mut ev = Eval::new(&mo.vars);
            ev.ufv = Some(&mo.hash);
            if all.iter().all(|g| ev.truth(*g)) {
                return Ok(Some(((*mo).clone(), true)));
            }
        }
        let (r, mo) = self.sol.full_model(all);
        match r {
            Res::Unsat => Ok(None),
            Res::Unknown(e) => Err(e.to_string()),
            Res::Sat => {
                let mo = mo.unwrap();
                let mut ev = Eval::new(&mo.vars);
                ev.ufv = Some(&mo.hash);
                if all.iter().all(|g| ev.truth(*g)) {
                    return Ok(Some((mo, true)));
                }
                if let Some(m2) = self.realise(all, &mo) {
                    return Ok(Some((m2, true)));
                }
                Ok(Some((mo, false)))
            }
        }
    }

    fn report(&mut self, st: &St, nc: T, kind: &str, msg: &str) {
        let mut all = st.pc.clone();
        all.push(nc);
        let (mo, real) = match self.find_model(&all) {
            Ok(Some(x)) => x,
            Ok(None) => return, // sliced/cached answer refuted: the obligation holds
            Err(e) => {
                self.inconclusive.push(format!("no model for {}: {}", msg, e));
                return;
            }
        };
        let trace: Vec<String> = st
            .frames
            .iter()
            .map(|f| base_name(&self.m.funcs[f.func as usize].name).to_string())
            .collect();
        if self.verbose {
            eprintln!("VIOLATION {} {} (real-keccak={})", kind, msg, real);
            for p in &st.pc {
                eprintln!("   pc {}", show(*p));
            }
            eprintln!("   negated goal {}", show(nc));
            for t in &trace {
                eprintln!("   at {}", t);
            }
        }
        let json = self.model_json(st, &mo, real, kind, msg);
        self.violations.push(Violation { kind: kind.into(), msg: msg.into(), json, trace });
        self.stop_all = true;
    }

    /// look for a model in which every hash has its real value: pin the hashed bytes to the values
    /// they have in the model, replace the hash terms by the real digests and solve again
    fn realise(&mut self, all: &[T], mo: &Model) -> Option<Model> {
        let mut hs: Vec<T> = vec![];
        let mut seen = std::collections::HashSet::new();
        fn walk(t: T, seen: &mut std::collections::HashSet<T>, hs: &mut Vec<T>) {
            if !seen.insert(t) {
                return;
            }
            let n = node(t);
            for ch in children(&n) {
                walk(ch, seen, hs);
            }
            if let N::Keccak(_) = n {
                hs.push(t);
            }
        }
        for t in all {
            walk(*t, &mut seen, &mut hs);
        }
        let mut memo: HashMap<T, T> = HashMap::new();
        let mut extra: Vec<T> = vec![];
        for h in hs {
            if let N::Keccak(i) = node(h) {
                let i2 = subst(i, &mut memo);
                let mut ev = Eval::new(&mo.vars);
                ev.ufv = Some(&mo.hash);
                let val = ev.eval(i2);
                extra.push(eq(i2, cst(val.clone())));
                let d = keccak(cst(val));
                memo.insert(h, d);
            }
        }
        let mut v: Vec<T> = vec![];
        for t in all {
            v.push(subst(*t, &mut memo));
        }
        v.extend(extra);
        if v.iter().any(|x| as_bool(*x) == Some(false)) {
            return None;
        }
        match self.sol.full_model(&v) {
            (Res::Sat, Some(m)) => {
                let mut ev = Eval::new(&m.vars);
                ev.ufv = Some(&m.hash);
                if all.iter().all(|g| ev.truth(*g)) {
                    Some(m)
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    fn model_json(&mut self, st: &St, mo: &Model, real: bool, kind: &str, msg: &str) -> String {
        let mut ev = Eval::new(&mo.vars);
        ev.ufv = Some(&mo.hash);
        if !real {
            ev.hash = Some(&mo.hash);
        }
        fn be(b: &Bv, n: usize) -> String {
            let b = b.zext((n * 8) as u32);
            let mut v = b.to_le();
            v.truncate(n);
            v.reverse();
            v.iter().map(|x| format!("{:02x}", x)).collect()
        }
        fn mbs(ev: &mut Eval, d: &[MB]) -> String {
            let mut s = String::new();
            for x in d {
                let b = match x {
                    MB::C(b) => *b,
                    MB::S(t, i) => ev.eval(*t).byte(*i),
                };
                s += &format!("{:02x}", b);
            }
            s
        }
        let mut ins = vec![];
        for i in &st.host.inputs {
            match i {
                InRec::Sym(n, t, big, len) => {
                    let b = ev.eval(*t);
                    let h = be(&b, *len as usize);
                    // memory order
                    let bytes: Vec<&str> =
                        (0..*len as usize).map(|k| &h[2 * k..2 * k + 2]).collect();
                    let hx: String = if *big {
                        bytes.concat()
                    } else {
                        bytes.iter().rev().cloned().collect::<Vec<_>>().concat()
                    };
                    ins.push(format!("{{\"sym\":\"{}\",\"name\":\"{}\",\"num\":\"0x{}\"}}", hx, n, h));
                }
                InRec::Choose(k) => ins.push(format!("{{\"choose\":{}}}", k)),
                InRec::Ret(s, d) => {
                    let sv = ev.eval(*s).u64();
                    let dd = mbs(&mut ev, d);
                    ins.push(format!("{{\"ret\":\"{}\",\"status\":{}}}", dd, sv));
                }
            }
        }
        let mut maps = String::new();
        for lm in [&self.storage0, &self.balance0, &self.codesize, &self.codehash] {
            let mut es = vec![];
            let mut seen = std::collections::HashSet::new();
            for r in &lm.recs {
                if !LazyMap::mine(r, &st.host.trail) {
                    continue;
                }
                let (k, v) = (&r.0, &r.1);
                let kw = (width(*k) / 8) as usize;
                let vw = (width(*v) / 8) as usize;
                let ks = be(&ev.eval(*k), kw);
                if !seen.insert(ks.clone()) {
                    continue;
                }
                let vs = be(&ev.eval(*v), vw);
                es.push(format!("\"{}\":\"{}\"", ks, vs));
            }
            maps += &format!(",\"{}\":{{{}}}", lm.name, es.join(","));
        }
        let mut hs = vec![];
        if !real {
            for (t, v) in &mo.hash {
                if let N::Keccak(i) = node(*t) {
                    let b = ev.eval(i);
                    hs.push(format!("\"{}\":\"{}\"", be(&b, (b.w / 8) as usize), be(v, 32)));
                }
            }
        }
        let mut ufs = vec![];
        {
            let ids: Vec<(T, Bv)> = mo.hash.iter().map(|(t, v)| (*t, v.clone())).collect();
            for (t, v) in ids {
                if let N::Uf(id, args) = node(t) {
                    let mut s = String::new();
                    for a in args.iter() {
                        let b = ev.eval(*a);
                        s += &be(&b, (b.w as usize + 7) / 8);
                    }
                    let nm = store(|st| st.uf_names[id as usize].0.clone());
                    ufs.push(format!("\"{}:{}\":\"{}\"", nm, s, be(&v, (v.w as usize + 7) / 8)));
                }
            }
        }
        let e = self.env.clone();
        format!(
            "{{\"harness\":\"{}\",\"kind\":\"{}\",\"msg\":\"{}\",\"thorough\":{},\"real_keccak\":{},\"env\":{{\"sender\":\"{}\",\"value\":\"{}\",\"self\":\"{}\",\"timestamp\":\"{}\",\"number\":\"{}\",\"chainid\":\"{}\"}},\"inputs\":[{}]{},\"hashes\":{{{}}},\"ufs\":{{{}}}}}",
            self.harness,
            kind,
            msg.replace('\\', "/").replace('"', "'"),
            self.thorough,
            real,
            be(&ev.eval(e.sender), 20),
            be(&ev.eval(e.value), 32),
            be(&ev.eval(e.me), 20),
            be(&ev.eval(e.timestamp), 8),
            be(&ev.eval(e.number), 8),
            be(&ev.eval(e.chainid), 8),
            ins.join(",\n "),
            maps,
            hs.join(","),
            ufs.join(",")
        )
    }

    // ---------- merging ----------

    fn merge_all(&mut self, rs: Vec<St>) -> Vec<St> {
        let mut out: Vec<St> = vec![];
        for s in rs {
            let mut cur = s;
            let mut i = out.len();
            let mut placed = false;
            while i > 0 {
                i -= 1;
                if let Some(mg) = self.merge2(&out[i], &cur) {
                    self.merges += 1;
                    out.remove(i);
                    cur = mg;
                    placed = true;
                    i = out.len();
                    let _ = placed;
                }
            }
            out.push(cur);
        }
        out
    }

    fn ptr_like(&self, x: u64, memlen: usize) -> bool {
        x >= 1024 && x < memlen as u64
    }

    fn merge_v(&self, sel: T, a: V, b: V, w: u32, memlen: usize) -> Option<V> {
        if a == b {
            return Some(a);
        }
        if let (V::C(x), V::C(y)) = (a, b) {
            if w == 32 && (self.ptr_like(x, memlen) || self.ptr_like(y, memlen)) {
                return None;
            }
        }
        let t = |v: V| match v {
            V::C(x) => c(w, x),
            V::S(t) => t,
        };
        // symbolic operands of unknown width: take it from the term
        let w = match (a, b) {
            (V::S(t), _) | (_, V::S(t)) => width(t),
            _ => w,
        };
        let tw = |v: V| match v {
            V::C(x) => c(w, x),
            V::S(t) => t,
        };
        let _ = t;
        let (ta, tb) = (tw(a), tw(b));
        if width(ta) != width(tb) {
            return None;
        }
        Some(mkv(ite(sel, ta, tb)))
    }

    fn merge2(&mut self, a: &St, b: &St) -> Option<St> {
        if a.frames.len() != b.frames.len()
            || a.stack.len() != b.stack.len()
            || a.mem.pages.len() != b.mem.pages.len()
            || a.trap != b.trap
        {
            return None;
        }
        for (x, y) in a.frames.iter().zip(&b.frames) {
            if x.func != y.func || x.pc != y.pc || x.base != y.base {
                return None;
            }
        }
        if !Rc::ptr_eq(&a.host, &b.host) {
            let (x, y) = (&a.host, &b.host);
            // every field has to be compared
            let Host {
                writes, logs, calls, retdata, sender, value, me, timestamp, number, chainid,
                balances, callback, pending_status, pending_ret, ret_lens, inputs, marks, trail: _,
            } = &**x;
            if *writes != y.writes
                || logs.len() != y.logs.len()
                || calls.len() != y.calls.len()
                || inputs.len() != y.inputs.len()
                || *balances != y.balances
                || *sender != y.sender
                || *value != y.value
                || *me != y.me
                || *timestamp != y.timestamp
                || *number != y.number
                || *chainid != y.chainid
                || *callback != y.callback
                || *pending_status != y.pending_status
                || *pending_ret != y.pending_ret
                || *ret_lens != y.ret_lens
                || *marks != y.marks
                || *retdata != y.retdata
            {
                return None;
            }
            for (p, q) in x.logs.iter().zip(&y.logs) {
                if p.1 != q.1 || (!Rc::ptr_eq(&p.0, &q.0) && p.0 != q.0) {
                    return None;
                }
            }
            for (p, q) in x.calls.iter().zip(&y.calls) {
                if p.kind != q.kind
                    || p.target != q.target
                    || p.value != q.value
                    || p.data != q.data
                    || p.status != q.status
                    || p.ret != q.ret
                {
                    return None;
                }
            }
            for (p, q) in x.inputs.iter().zip(&y.inputs) {
                match (p, q) {
                    (InRec::Sym(_, t1, b1, n1), InRec::Sym(_, t2, b2, n2))
                        if t1 == t2 && b1 == b2 && n1 == n2 => {}
                    (InRec::Choose(u), InRec::Choose(v)) if u == v => {}
                    (InRec::Ret(u, d1), InRec::Ret(v, d2)) if u == v && d1 == d2 => {}
                    _ => return None,
                }
            }
        }
        // selector
        let mut k = 0;
        while k < a.pc.len() && k < b.pc.len() && a.pc[k] == b.pc[k] {
            k += 1;
        }
        let conj = |v: &[T]| v.iter().fold(tt(), |x, y| and(x, *y));
        let (ca, cb) = (conj(&a.pc[k..]), conj(&b.pc[k..]));
        let sel = if k < a.pc.len() && k < b.pc.len() && not(a.pc[k]) == b.pc[k] {
            a.pc[k]
        } else {
            ca
        };
        let memlen = a.mem.len();
        // globals
        if a.globals != b.globals {
            return None;
        }
        let mut sp = match a.globals.first() {
            Some(V::C(x)) => *x as usize,
            _ => 0,
        };
        // a leaf function may keep its frame in the 128-byte red zone below the stack pointer
        let leaf = !self.m.funcs[a.frames.last()?.func as usize]
            .code
            .iter()
            .any(|i| matches!(i, I::Call(_) | I::CallIndirect(..)));
        if leaf {
            sp = sp.saturating_sub(128);
        }
        // stack: only the top frame may differ in dead locals
        let mut stack = a.stack.clone();
        let ftop = a.frames.last()?;
        let live = self.liveness(ftop.func);
        let fun = self.m.clone();
        let fl = &fun.funcs[ftop.func as usize];
        for i in 0..stack.len() {
            if a.stack[i] == b.stack[i] {
                continue;
            }
            let mut w = 64;
            if i >= ftop.base && i < ftop.base + fl.nlocals as usize {
                let li = i - ftop.base;
                if live[ftop.pc as usize][li / 64] >> (li % 64) & 1 == 0 {
                    continue;
                }
                w = if fl.local_types[li] == 0x7f { 32 } else { 64 };
            } else {
                // operand of unknown type: treat small values as 32 bit when possible
                if let (V::C(_), V::C(_)) = (a.stack[i], b.stack[i]) {
                    w = self.operand_width(a, i)?;
                }
            }
            stack[i] = self.merge_v(sel, a.stack[i], b.stack[i], w, memlen)?;
        }
        // memory
        let mut mem = a.mem.clone();
        let mut ndiff = 0usize;
        for p in 0..a.mem.pages.len() {
            if Rc::ptr_eq(&a.mem.pages[p], &b.mem.pages[p]) {
                continue;
            }
            if (p + 1) * PS <= sp {
                continue; // dead stack
            }
            let mut o = 0;
            while o < PS {
                let ad = p * PS + o;
                if ad < sp || a.mem.get(ad) == b.mem.get(ad) {
                    o += 1;
                    continue;
                }
                // aligned 4-byte word test for pointers
                let w0 = ad & !3;
                if let (Some(x), Some(y)) = (a.mem.load_c(w0, 4), b.mem.load_c(w0, 4)) {
                    if self.ptr_like(x, memlen) || self.ptr_like(y, memlen) {
                        return None;
                    }
                }
                // run of differing bytes within the aligned 8-byte group
                let g = (ad & !7) + 8;
                let mut e = ad + 1;
                while e < g && a.mem.get(e) != b.mem.get(e) {
                    e += 1;
                }
                let n = e - ad;
                let t = ite(sel, a.mem.load_le(ad, n), b.mem.load_le(ad, n));
                mem.store_le(ad, n, t);
                ndiff += n;
                if ndiff > 4096 {
                    return None;
                }
                o += n;
            }
        }
        let mut pc = a.pc[..k].to_vec();
        let d = or(ca, cb);
        if as_bool(d) != Some(true) {
            pc.push(d);
        }
        Some(St {
            frames: a.frames.clone(),
            stack,
            globals: a.globals.clone(),
            mem,
            pc,
            host: a.host.clone(),
            trap: a.trap,
            steps: a.steps.max(b.steps),
            conc_count: a.conc_count.max(b.conc_count),
            uncertain: a.uncertain || b.uncertain,
        })
    }

    fn operand_width(&self, st: &St, i: usize) -> Option<u32> {
        // an operand of the top frame right after a return: the result type of the callee is not
        // recorded, so look at the caller's call instruction
        let f = st.frames.last()?;
        let fun = &self.m.funcs[f.func as usize];
        if i != st.stack.len() - 1 || f.pc == 0 {
            return None;
        }
        match &fun.code[f.pc as usize - 1] {
            I::Call(g) => {
                let ty = &self.m.types[self.m.funcs[*g as usize].ty];
                ty.results.first().map(|t| if *t == 0x7f { 32 } else { 64 })
            }
            I::CallIndirect(t) => {
                self.m.types[*t as usize].results.first().map(|t| if *t == 0x7f { 32 } else { 64 })
            }
            _ => None,
        }
    }

    // ---------- single step ----------

    #[inline]
    fn step(&mut self, m: &Rc<Module>, st: &mut St) -> Outcome {
        let (func, pc) = {
            let f = st.frames.last().unwrap();
            (f.func, f.pc)
        };
        let ins = &m.funcs[func as usize].code[pc as usize];
        macro_rules! next {
            () => {{
                st.frames.last_mut().unwrap().pc += 1;
                return Outcome::Cont;
            }};
        }
        match ins {
            I::Unreachable => self.trap(st, "unreachable"),
            I::Unsupported(op) => {
                self.inconclusive.push(format!("unsupported opcode {:x}", op));
                self.stop_all = true;
                Outcome::Done
            }
            I::Nop => next!(),
            I::Jump(t) => {
                st.frames.last_mut().unwrap().pc = *t;
                Outcome::Cont
            }
            I::Br(t) => {
                do_br(m, st, t);
                Outcome::Cont
            }
            I::BrIf(_) | I::BrIfZ(_) => {
                let v = *st.stack.last().unwrap();
                match v {
                    V::C(x) => {
                        self.take_branch(st, x as u32 != 0);
                        Outcome::Cont
                    }
                    V::S(t) => {
                        let w = width(t);
                        Outcome::Branch(ne(t, c(w, 0)))
                    }
                }
            }
            I::BrTable(v) => {
                let x = match self.conc(st, 0, "br_table index") {
                    Ok(x) => x,
                    Err(o) => return o,
                };
                st.stack.pop();
                let t = v[(x as usize).min(v.len() - 1)].clone();
                do_br(m, st, &t);
                Outcome::Cont
            }
            I::Return => self.do_return(m, st),
            I::Call(f) => self.call(m, st, *f),
            I::CallIndirect(ty) => {
                let x = match self.conc(st, 0, "call_indirect index") {
                    Ok(x) => x as usize,
                    Err(o) => return o,
                };
                let f = match m.table.get(x).cloned().flatten() {
                    Some(f) => f,
                    None => return self.trap(st, "undefined table element"),
                };
                if m.types[m.funcs[f as usize].ty] != m.types[*ty as usize] {
                    return self.trap(st, "indirect call type mismatch");
                }
                st.stack.pop();
                self.call(m, st, f)
            }
            I::Drop => {
                st.stack.pop();
                next!()
            }
            I::Select(sw) => {
                let n = st.stack.len();
                let (a, b, cnd) = (st.stack[n - 3], st.stack[n - 2], st.stack[n - 1]);
                let r = match cnd {
                    V::C(x) => {
                        if x as u32 != 0 {
                            a
                        } else {
                            b
                        }
                    }
                    V::S(t) => {
                        let cd = ne(t, c(width(t), 0));
                        if let Some(k) = as_bool(cd) {
                            if k {
                                a
                            } else {
                                b
                            }
                        } else if a == b {
                            a
                        } else {
                            match (a, b) {
                                (V::C(x), V::C(y))
                                    if *sw == 32
                                        && self.ptr_like(x, st.mem.len())
                                        && self.ptr_like(y, st.mem.len()) =>
                                {
                                    // fork on the condition
                                    return match self.decide(st, cd) {
                                        Some(k) => {
                                            st.stack[n - 1] = V::C(k as u64);
                                            Outcome::Cont
                                        }
                                        None => {
                                            let mut p = st.clone();
                                            p.pc.push(cd);
                                            p.stack[n - 1] = V::C(1);
                                            let mut q = st.clone();
                                            q.pc.push(not(cd));
                                            q.stack[n - 1] = V::C(0);
                                            *self.fork_sites.entry((func, pc)).or_insert(0) += 1;
                                            Outcome::Fork(vec![q, p])
                                        }
                                    };
                                }
                                _ => {}
                            }
                            let w = match (a, b) {
                                (V::S(t), _) | (_, V::S(t)) => width(t),
                                _ => *sw,
                            };
                            let f = |v: V| match v {
                                V::C(x) => c(w, x),
                                V::S(t) => t,
                            };
                            mkv(ite(cd, f(a), f(b)))
                        }
                    }
                };
                st.stack.truncate(n - 3);
                st.stack.push(r);
                next!()
            }
            I::LocalGet(i) => {
                let b = st.frames.last().unwrap().base;
                let v = st.stack[b + *i as usize];
                st.stack.push(v);
                next!()
            }
            I::LocalSet(i) => {
                let b = st.frames.last().unwrap().base;
                let v = st.stack.pop().unwrap();
                st.stack[b + *i as usize] = v;
                next!()
            }
            I::LocalTee(i) => {
                let b = st.frames.last().unwrap().base;
                let v = *st.stack.last().unwrap();
                st.stack[b + *i as usize] = v;
                next!()
            }
            I::GlobalGet(i) => {
                st.stack.push(st.globals[*i as usize]);
                next!()
            }
            I::GlobalSet(i) => {
                st.globals[*i as usize] = st.stack.pop().unwrap();
                next!()
            }
            I::Load(n, signed, long, off) => {
                if let V::S(at) = *st.stack.last().unwrap() {
                    if let Some(t) = table_load(&st.mem, at, *off as u64, *n as usize) {
                        let w = if *long { 64 } else { 32 };
                        let v = mkv(if *signed { sext(t, w) } else { zext(t, w) });
                        *st.stack.last_mut().unwrap() = v;
                        next!()
                    }
                }
                let a = match self.conc(st, 0, "load address") {
                    Ok(x) => x as u32 as u64 + *off as u64,
                    Err(o) => return o,
                };
                let n = *n as usize;
                if a as usize + n > st.mem.len() {
                    return self.trap(st, "out of bounds memory access");
                }
                let v = match st.mem.load_c(a as usize, n) {
                    Some(x) => {
                        let x = if *signed {
                            let sh = 64 - 8 * n as u32;
                            let y = ((x << sh) as i64 >> sh) as u64;
                            if *long {
                                y
                            } else {
                                y as u32 as u64
                            }
                        } else {
                            x
                        };
                        V::C(x)
                    }
                    None => {
                        let t = st.mem.load_le(a as usize, n);
                        let w = if *long { 64 } else { 32 };
                        mkv(if *signed { sext(t, w) } else { zext(t, w) })
                    }
                };
                *st.stack.last_mut().unwrap() = v;
                next!()
            }
            I::Store(n, off) => {
                let a = match self.conc(st, 1, "store address") {
                    Ok(x) => x as u32 as u64 + *off as u64,
                    Err(o) => return o,
                };
                let n = *n as usize;
                if a as usize + n > st.mem.len() {
                    return self.trap(st, "out of bounds memory access");
                }
                let v = st.stack.pop().unwrap();
                st.stack.pop();
                match v {
                    V::C(x) => st.mem.store_c(a as usize, n, x),
                    V::S(t) => {
                        let t = extract(t, 8 * n as u32 - 1, 0);
                        st.mem.store_le(a as usize, n, t);
                    }
                }
                next!()
            }
            I::MemSize => {
                st.stack.push(V::C((st.mem.len() / 65536) as u64));
                next!()
            }
            I::MemGrow => {
                let d = match self.conc(st, 0, "memory.grow") {
                    Ok(x) => x as usize,
                    Err(o) => return o,
                };
                let old = st.mem.len() / 65536;
                let r = if old + d <= 1024 {
                    st.mem.grow(d * 65536);
                    old as u64
                } else {
                    u32::MAX as u64
                };
                *st.stack.last_mut().unwrap() = V::C(r);
                next!()
            }
            I::MemCopy | I::MemFill => {
                for i in [0, 2] {
                    if let Err(o) = self.conc(st, i, "bulk memory") {
                        return o;
                    }
                }
                let cp = matches!(ins, I::MemCopy);
                if cp {
                    if let Err(o) = self.conc(st, 1, "bulk memory") {
                        return o;
                    }
                }
                let n = st.stack.len();
                let len = cv(st.stack[n - 1]) as usize;
                let dst = cv(st.stack[n - 3]) as u32 as usize;
                let sv = st.stack[n - 2];
                st.stack.truncate(n - 3);
                if dst + len > st.mem.len() {
                    return self.trap(st, "bulk memory out of bounds");
                }
                if cp {
                    let src = cv(sv) as u32 as usize;
                    if src + len > st.mem.len() {
                        return self.trap(st, "bulk memory out of bounds");
                    }
                    copy(st, dst, src, len);
                } else {
                    let t = extract(w32(sv), 7, 0);
                    for i in 0..len {
                        st.mem.set(dst + i, byte_of(t, 0));
                    }
                }
                next!()
            }
            I::C32(x) => {
                st.stack.push(V::C(*x as u64));
                next!()
            }
            I::C64(x) => {
                st.stack.push(V::C(*x));
                next!()
            }
            I::Un(op) => {
                let v = *st.stack.last().unwrap();
                let r = un(*op, v);
                *st.stack.last_mut().unwrap() = r;
                next!()
            }
            I::Bin32(op) => {
                let n = st.stack.len();
                let (a, b) = (st.stack[n - 2], st.stack[n - 1]);
                match self.bin(st, *op, a, b, 32) {
                    Ok(r) => {
                        st.stack.pop();
                        *st.stack.last_mut().unwrap() = r;
                        next!()
                    }
                    Err(o) => o,
                }
            }
            I::Bin64(op) => {
                let n = st.stack.len();
                let (a, b) = (st.stack[n - 2], st.stack[n - 1]);
                match self.bin(st, *op, a, b, 64) {
                    Ok(r) => {
                        st.stack.pop();
                        *st.stack.last_mut().unwrap() = r;
                        next!()
                    }
                    Err(o) => o,
                }
            }
        }
    }

    fn bin(&mut self, st: &mut St, op: B, a: V, b: V, w: u32) -> Result<V, Outcome> {
        if let (V::C(x), V::C(y)) = (a, b) {
            return match bin_c(op, x, y, w) {
                Some(r) => Ok(V::C(r)),
                None => Err(self.trap(st, "integer divide by zero or overflow")),
            };
        }
        let (x, y) = if w == 32 { (w32(a), w32(b)) } else { (w64(a), w64(b)) };
        let bl = |t: T| zext(t, 32);
        let r = match op {
            B::Eq => bl(eq(x, y)),
            B::Ne => bl(ne(x, y)),
            B::LtS => bl(slt(x, y)),
            B::LtU => bl(ult(x, y)),
            B::GtS => bl(slt(y, x)),
            B::GtU => bl(ult(y, x)),
            B::LeS => bl(not(slt(y, x))),
            B::LeU => bl(not(ult(y, x))),
            B::GeS => bl(not(slt(x, y))),
            B::GeU => bl(not(ult(x, y))),
            B::Add => add(x, y),
            B::Sub => sub(x, y),
            B::Mul => {
                let r = mul(x, y);
                let k = if as_const(x).is_some() { x } else { y };
                match (self.cut, as_const(k)) {
                    (Some(f), Some(kc)) if w == 64 && kc.u64() == f => {
                        let o = if k == x { y } else { x };
                        let t = match self.cuts.iter().find(|z| z.1 == o) {
                            Some(z) => z.0,
                            None => {
                                let t = fresh(&format!("factor{}", self.cuts.len()), 64);
                                self.cuts.push((t, o, r));
                                t
                            }
                        };
                        let e = eq(t, r);
                        if !st.pc.contains(&e) {
                            st.pc.push(e);
                        }
                        t
                    }
                    _ => r,
                }
            }
            B::DivU | B::RemU | B::DivS | B::RemS => {
                let z = eq(y, c(w, 0));
                match self.decide(st, z) {
                    Some(true) => return Err(self.trap(st, "integer divide by zero")),
                    Some(false) => {}
                    None => {
                        let mut p = st.clone();
                        p.pc.push(z);
                        let n = p.stack.len();
                        p.stack[n - 1] = V::C(0);
                        if w == 32 {
                            if let V::S(_) = p.stack[n - 2] {}
                        }
                        let mut q = st.clone();
                        q.pc.push(not(z));
                        // p traps when re-executed with a concrete zero divisor
                        if let V::S(_) = p.stack[n - 2] {
                            p.stack[n - 2] = V::C(1);
                        }
                        return Err(Outcome::Fork(vec![q, p]));
                    }
                }
                match op {
                    B::DivU => udiv(x, y),
                    B::RemU => urem(x, y),
                    B::DivS => sdiv(x, y),
                    _ => srem(x, y),
                }
            }
            B::And => and(x, y),
            B::Or => or(x, y),
            B::Xor => xor(x, y),
            B::Shl => shl(x, and(y, c(w, w as u64 - 1))),
            B::ShrU => lshr(x, and(y, c(w, w as u64 - 1))),
            B::ShrS => ashr(x, and(y, c(w, w as u64 - 1))),
            B::Rotl | B::Rotr => {
                let y = and(y, c(w, w as u64 - 1));
                if let Some(k) = as_const(y) {
                    let mut k = k.u64() as u32;
                    if op == B::Rotr {
                        k = (w - k) % w;
                    }
                    if k == 0 {
                        x
                    } else {
                        concat(&[extract(x, w - k - 1, 0), extract(x, w - 1, w - k)])
                    }
                } else {
                    let inv = and(sub(c(w, w as u64), y), c(w, w as u64 - 1));
                    if op == B::Rotl {
                        or(shl(x, y), lshr(x, inv))
                    } else {
                        or(lshr(x, y), shl(x, inv))
                    }
                }
            }
        };
        Ok(mkv(r))
    }

    fn do_return(&mut self, m: &Rc<Module>, st: &mut St) -> Outcome {
        let fr = st.frames.pop().unwrap();
        let nr = m.funcs[fr.func as usize].nresults as usize;
        let n = st.stack.len();
        for i in 0..nr {
            st.stack[fr.base + i] = st.stack[n - nr + i];
        }
        st.stack.truncate(fr.base + nr);
        if st.frames.is_empty() {
            // harness finished
            self.paths += 1;
            if let TrapMode::Iff(cnd) = st.trap {
                self.obligation(st, not(cnd), "missing trap", "expected a trap");
            }
            *self.covers.entry("<end>".into()).or_insert(0) += 1;
            return Outcome::Done;
        }
        if let Post::Call { idx, len_ptr } = fr.post {
            let h = Rc::make_mut(&mut st.host);
            h.calls[idx].status = h.pending_status;
            h.calls[idx].ret = h.pending_ret.clone();
            h.retdata = h.pending_ret.clone();
            let len = h.retdata.len();
            let s = h.pending_status;
            st.mem.store_c(len_ptr as usize, 4, len as u64);
            st.stack.truncate(fr.base);
            st.stack.push(s);
        }
        // the call instruction's pc was advanced when calling
        Outcome::Cont
    }

    fn call(&mut self, m: &Rc<Module>, st: &mut St, f: u32) -> Outcome {
        let fun = &m.funcs[f as usize];
        if fun.import.is_some() {
            return self.host_call(m, st, f);
        }
        match self.summaries[f as usize] {
            S_NONE => {}
            s => {
                if let Some(o) = self.summary(m, st, f, s) {
                    return o;
                }
            }
        }
        st.frames.last_mut().unwrap().pc += 1;
        self.push_frame(st, f, Post::None);
        Outcome::Cont
    }

    /// pop n args, push result, advance
    fn ret(&mut self, st: &mut St, nargs: usize, r: Option<V>) -> Outcome {
        let n = st.stack.len();
        st.stack.truncate(n - nargs);
        if let Some(v) = r {
            st.stack.push(v);
        }
        st.frames.last_mut().unwrap().pc += 1;
        Outcome::Cont
    }

    fn summary(&mut self, m: &Rc<Module>, st: &mut St, f: u32, s: u8) -> Option<Outcome> {
        let np = m.funcs[f as usize].nparams as usize;
        let n = st.stack.len();
        macro_rules! arg {
            ($i:expr) => {{
                match self.conc(st, np - 1 - $i, "summary argument") {
                    Ok(x) => x as u32 as usize,
                    Err(o) => return Some(o),
                }
            }};
        }
        match s {
            S_PANIC => {
                let nm = base_name(&m.funcs[f as usize].name).to_string();
                let mut caller = String::new();
                for fr in st.frames.iter().rev() {
                    let cn = base_name(&m.funcs[fr.func as usize].name);
                    if !cn.starts_with("core::") {
                        caller = cn.to_string();
                        break;
                    }
                }
                Some(self.trap(st, &format!("{} in {}", nm, caller)))
            }
            S_MEMCPY => {
                let (d, s_, l) = (arg!(0), arg!(1), arg!(2));
                if d + l > st.mem.len() || s_ + l > st.mem.len() {
                    return Some(self.trap(st, "memcpy out of bounds"));
                }
                copy(st, d, s_, l);
                Some(self.ret(st, np, Some(V::C(d as u64))))
            }
            S_MEMSET => {
                let (d, l) = (arg!(0), arg!(2));
                if d + l > st.mem.len() {
                    return Some(self.trap(st, "memset out of bounds"));
                }
                let t = extract(w32(st.stack[n - np + 1]), 7, 0);
                let b = byte_of(t, 0);
                for i in 0..l {
                    st.mem.set(d + i, b);
                }
                Some(self.ret(st, np, Some(V::C(d as u64))))
            }
            S_MEMCMP => {
                let (a, b, l) = (arg!(0), arg!(1), arg!(2));
                if a + l > st.mem.len() || b + l > st.mem.len() {
                    return Some(self.trap(st, "memcmp out of bounds"));
                }
                if l == 0 {
                    return Some(self.ret(st, np, Some(V::C(0))));
                }
                let (x, y) = (st.mem.load_be(a, l), st.mem.load_be(b, l));
                let r = ite(
                    eq(x, y),
                    c(32, 0),
                    ite(ult(x, y), cst(Bv::ones(32)), c(32, 1)),
                );
                Some(self.ret(st, np, Some(mkv(r))))
            }
            S_MULTI3 => {
                // (out, a_lo, a_hi, b_lo, b_hi)
                let o = arg!(0);
                let v: Vec<T> = (1..5).map(|i| w64(st.stack[n - np + i])).collect();
                let (a, b) = (concat(&[v[1], v[0]]), concat(&[v[3], v[2]]));
                let r = mul(a, b);
                st.mem.store_le(o, 16, r);
                Some(self.ret(st, np, None))
            }
            S_RADD | S_RSUB if !self.raw_ruint => {
                let (o, a, b, k) = (arg!(0), arg!(1), arg!(2), arg!(3));
                let (x, y) = (st.mem.load_le(a, 8 * k), st.mem.load_le(b, 8 * k));
                let (r, ov) = if s == S_RADD {
                    (add(x, y), ult(not(x), y))
                } else {
                    (sub(x, y), ult(x, y))
                };
                st.mem.store_le(o, 8 * k, r);
                Some(self.ret(st, np, Some(mkv(zext(ov, 32)))))
            }
            S_RLT if !self.raw_ruint => {
                let (a, b, k) = (arg!(0), arg!(1), arg!(2));
                let (x, y) = (st.mem.load_le(a, 8 * k), st.mem.load_le(b, 8 * k));
                Some(self.ret(st, np, Some(mkv(zext(ult(x, y), 32)))))
            }
            S_RCMP if !self.raw_ruint => {
                let (a, b, k) = (arg!(0), arg!(1), arg!(2));
                let (x, y) = (st.mem.load_le(a, 8 * k), st.mem.load_le(b, 8 * k));
                let r = ite(
                    eq(x, y),
                    c(32, 0),
                    ite(ult(x, y), cst(Bv::ones(32)), c(32, 1)),
                );
                Some(self.ret(st, np, Some(mkv(r))))
            }
            S_RMUL if !self.raw_ruint => {
                // (out, on, a, an, b, bn) -> overflow
                let (o, on, a, an, b, bn) =
                    (arg!(0), arg!(1), arg!(2), arg!(3), arg!(4), arg!(5));
                let w = 64 * (an + bn).max(on) as u32;
                let x = zext(st.mem.load_le(a, 8 * an), w);
                let y = zext(st.mem.load_le(b, 8 * bn), w);
                let p = mul(x, y);
                let ow = 64 * on as u32;
                let ov = if w > ow { ne(extract(p, w - 1, ow), c(w - ow, 0)) } else { ff() };
                let lo = if on == an && on == bn {
                    // keep the narrow product as a term of its own
                    mul(extract(x, ow - 1, 0), extract(y, ow - 1, 0))
                } else {
                    extract(p, ow - 1, 0)
                };
                st.mem.store_le(o, 8 * on, lo);
                Some(self.ret(st, np, Some(mkv(zext(ov, 32)))))
            }
            S_RDIV if !self.raw_ruint => {
                // (num, nn, den, dn): num <- quotient, den <- remainder; den != 0 ensured by the caller
                let (a, an, b, bn) = (arg!(0), arg!(1), arg!(2), arg!(3));
                let w = 64 * an.max(bn) as u32;
                let x = zext(st.mem.load_le(a, 8 * an), w);
                let y = zext(st.mem.load_le(b, 8 * bn), w);
                let m = max_bits(x).max(max_bits(y)).max(1);
                let q = if m <= 32 {
                    zext(udiv(extract(x, m - 1, 0), extract(y, m - 1, 0)), w)
                } else {
                    udiv(x, y)
                };
                st.mem.store_le(a, 8 * an, extract(q, 64 * an as u32 - 1, 0));
                st.mem.store_le(b, 8 * bn, extract(urem(x, y), 64 * bn as u32 - 1, 0));
                Some(self.ret(st, np, None))
            }
            S_RSHL | S_RSHR if !self.raw_ruint => {
                // (out, a, n, amount) -> set bits lost
                let (o, a, k) = (arg!(0), arg!(1), arg!(2));
                let w = 64 * k as u32;
                let x = st.mem.load_le(a, 8 * k);
                let sh = w32(st.stack[n - np + 3]);
                let big = not(ult(sh, c(32, w as u64)));
                let shw = if w > 32 { zext(sh, w) } else { extract(sh, w - 1, 0) };
                let z = c(w, 0);
                let (r, back) = if s == S_RSHL {
                    let r = shl(x, shw);
                    (r, lshr(r, shw))
                } else {
                    let r = lshr(x, shw);
                    (r, shl(r, shw))
                };
                let lost = ite(big, ne(x, z), ne(back, x));
                let r = ite(big, z, r);
                st.mem.store_le(o, 8 * k, r);
                Some(self.ret(st, np, Some(mkv(zext(lost, 32)))))
            }
            _ => None,
        }
    }

    /// storage slots chosen by conditions that the path decides
    fn clean_key(&mut self, st: &mut St, key: T) -> T {
        let mut key = key;
        let mut open: std::collections::HashSet<T> = Default::default();
        for _ in 0..12 {
            let mut seen = std::collections::HashSet::new();
            let mut work = vec![key];
            let mut pick = None;
            while let Some(t) = work.pop() {
                if !seen.insert(t) {
                    continue;
                }
                let n = node(t);
                if let N::Ite(cc, _, _) = &n {
                    if !open.contains(cc) {
                        pick = Some(*cc);
                        break;
                    }
                }
                if matches!(n, N::Ite(..) | N::Concat(_) | N::Extract(..) | N::Sum(..)) {
                    work.extend(crate::term::children(&n));
                }
            }
            let Some(cc) = pick else { return key };
            let was = st.uncertain;
            match self.decide(st, cc) {
                Some(b) => {
                    let mut memo = HashMap::new();
                    memo.insert(cc, if b { tt() } else { ff() });
                    key = crate::term::subst(key, &mut memo);
                }
                None => {
                    st.uncertain = was;
                    open.insert(cc);
                    if std::env::var("WSYM_KEY").is_ok() {
                        eprintln!("key undecided {}", crate::term::show(key).chars().take(1500).collect::<String>());
                    }
                }
            }
        }
        key
    }

    fn sload(&mut self, st: &St, key: T) -> T {
        let mut pend: Vec<(T, T)> = vec![];
        let mut base = None;
        for (k, v) in st.host.writes.iter().rev() {
            let e = eq(*k, key);
            match as_bool(e) {
                Some(true) => {
                    base = Some(*v);
                    break;
                }
                Some(false) => continue,
                None => {
                    if st.pc.contains(&e) {
                        base = Some(*v);
                        break;
                    }
                    if st.pc.contains(&not(e)) {
                        continue;
                    }
                    pend.push((e, *v));
                }
            }
        }
        let mut val = match base {
            Some(v) => v,
            None if self.fresh => cst(Bv::zero(256)),
            None => self.storage0.get(key, &st.host.trail),
        };
        for (e, v) in pend.into_iter().rev() {
            val = ite(e, v, val);
        }
        val
    }

    fn host_call(&mut self, m: &Rc<Module>, st: &mut St, f: u32) -> Outcome {
        let fun = &m.funcs[f as usize];
        let (md, nm) = fun.import.as_ref().unwrap();
        let np = fun.nparams as usize;
        let n = st.stack.len();
        macro_rules! arg {
            ($i:expr) => {{
                match self.conc(st, np - 1 - $i, "host argument") {
                    Ok(x) => x as u32 as usize,
                    Err(o) => return o,
                }
            }};
        }
        macro_rules! raw {
            ($i:expr) => {
                st.stack[n - np + $i]
            };
        }
        macro_rules! done {
            ($r:expr) => {
                return self.ret(st, np, $r)
            };
        }
        macro_rules! chk {
            ($p:expr, $l:expr) => {
                if $p + $l > st.mem.len() {
                    return self.trap(st, "host pointer out of bounds");
                }
            };
        }
        fn text(st: &St, p: usize, l: usize) -> String {
            (0..l)
                .map(|i| match st.mem.get(p + i) {
                    MB::C(x) => x as char,
                    _ => '?',
                })
                .collect()
        }
        match (md.as_str(), nm.as_str()) {
            ("vm_hooks", "pay_for_memory_grow") | ("vm_hooks", "storage_flush_cache") => done!(None),
            ("vm_hooks", "msg_reentrant") => done!(Some(V::C(0))),
            ("vm_hooks", "msg_sender") => {
                let p = arg!(0);
                let t = st.host.sender;
                st.mem.store_be(p, 20, t);
                done!(None)
            }
            ("vm_hooks", "contract_address") => {
                let p = arg!(0);
                let t = st.host.me;
                st.mem.store_be(p, 20, t);
                done!(None)
            }
            ("vm_hooks", "msg_value") => {
                let p = arg!(0);
                let t = st.host.value;
                st.mem.store_be(p, 32, t);
                done!(None)
            }
            ("vm_hooks", "block_timestamp") => {
                let v = mkv(st.host.timestamp);
                done!(Some(v))
            }
            ("vm_hooks", "block_number") => {
                let v = mkv(st.host.number);
                done!(Some(v))
            }
            ("vm_hooks", "chainid") => {
                let v = mkv(st.host.chainid);
                done!(Some(v))
            }
            ("vm_hooks", "evm_gas_left") | ("vm_hooks", "evm_ink_left") => {
                done!(Some(V::C(u64::MAX / 2)))
            }
            ("vm_hooks", "tx_ink_price") => done!(Some(V::C(10000))),
            ("vm_hooks", "account_balance") => {
                let (a, d) = (arg!(0), arg!(1));
                let key = st.mem.load_be(a, 20);
                let mut val = self.balance0.get(key, &st.host.trail);
                for (k, v) in st.host.balances.iter() {
                    val = ite(eq(*k, key), *v, val);
                }
                st.mem.store_be(d, 32, val);
                done!(None)
            }
            ("vm_hooks", "account_code_size") => {
                let a = arg!(0);
                let key = st.mem.load_be(a, 20);
                let v = self.codesize.get(key, &st.host.trail);
                done!(Some(mkv(v)))
            }
            ("vm_hooks", "account_codehash") => {
                let (a, d) = (arg!(0), arg!(1));
                let key = st.mem.load_be(a, 20);
                let v = self.codehash.get(key, &st.host.trail);
                st.mem.store_be(d, 32, v);
                done!(None)
            }
            ("vm_hooks", "storage_load_bytes32") => {
                let (k, d) = (arg!(0), arg!(1));
                let key = st.mem.load_be(k, 32);
                let key = self.clean_key(st, key);
                let v = self.sload(st, key);
                st.mem.store_be(d, 32, v);
                done!(None)
            }
            ("vm_hooks", "storage_cache_bytes32") => {
                let (k, d) = (arg!(0), arg!(1));
                let key = st.mem.load_be(k, 32);
                let key = self.clean_key(st, key);
                let v = st.mem.load_be(d, 32);
                let h = Rc::make_mut(&mut st.host);
                h.writes.retain(|x| x.0 != key);
                h.writes.push((key, v));
                done!(None)
            }
            ("vm_hooks", "native_keccak256") => {
                let (p, l, d) = (arg!(0), arg!(1), arg!(2));
                chk!(p, l);
                let t = if l == 0 { keccak_empty() } else { keccak(st.mem.load_be(p, l)) };
                st.mem.store_be(d, 32, t);
                done!(None)
            }
            ("vm_hooks", "emit_log") => {
                let (p, l, k) = (arg!(0), arg!(1), arg!(2));
                chk!(p, l);
                let d: Vec<MB> = (0..l).map(|i| st.mem.get(p + i)).collect();
                Rc::make_mut(&mut st.host).logs.push((Rc::new(d), k as u32));
                done!(None)
            }
            ("vm_hooks", "return_data_size") => {
                let l = st.host.retdata.len();
                done!(Some(V::C(l as u64)))
            }
            ("vm_hooks", "read_return_data") => {
                let (d, off, sz) = (arg!(0), arg!(1), arg!(2));
                let data = st.host.retdata.clone();
                let k = data.len().saturating_sub(off).min(sz);
                for i in 0..k {
                    st.mem.set(d + i, data[off + i]);
                }
                done!(Some(V::C(k as u64)))
            }
            ("vm_hooks", "write_result") => done!(None),
            ("vm_hooks", "call_contract")
            | ("vm_hooks", "static_call_contract")
            | ("vm_hooks", "delegate_call_contract") => {
                let (to, d, l) = (arg!(0), arg!(1), arg!(2));
                let (kind, value, lp) = match nm.as_str() {
                    "call_contract" => {
                        let v = arg!(3);
                        (0u32, st.mem.load_be(v, 32), arg!(5))
                    }
                    "static_call_contract" => (1, c(256, 0), arg!(4)),
                    _ => (2, c(256, 0), arg!(4)),
                };
                chk!(d, l);
                let data: Vec<MB> = (0..l).map(|i| st.mem.get(d + i)).collect();
                let rec = CallRec {
                    kind,
                    target: st.mem.load_be(to, 20),
                    value,
                    data: Rc::new(data),
                    status: V::C(0),
                    ret: Rc::new(vec![]),
                };
                let idx = st.host.calls.len();
                if let Some(cb) = st.host.callback {
                    let h = Rc::make_mut(&mut st.host);
                    h.calls.push(rec);
                    h.pending_status = V::C(0);
                    h.pending_ret = Rc::new(vec![]);
                    st.stack.truncate(n - np);
                    st.frames.last_mut().unwrap().pc += 1;
                    st.stack.push(V::C(idx as u64));
                    let fi = m.table[cb as usize].expect("callback");
                    self.push_frame(st, fi, Post::Call { idx, len_ptr: lp as u32 });
                    return Outcome::Cont;
                }
                // default: arbitrary status, arbitrary data of each configured length
                let lens = st.host.ret_lens.clone();
                let mut outs = vec![];
                for k in lens.iter().rev() {
                    let mut s = st.clone();
                    let status = fresh("call_status", 1);
                    let k = *k as usize;
                    let ret: Vec<MB> = if k > 0 {
                        let t = fresh("call_ret", 8 * k as u32);
                        (0..k).map(|i| byte_of(t, (k - 1 - i) as u32)).collect()
                    } else {
                        vec![]
                    };
                    let ret = Rc::new(ret);
                    let h = Rc::make_mut(&mut s.host);
                    let mut r = rec.clone();
                    r.status = V::S(zext(status, 32));
                    r.ret = ret.clone();
                    h.calls.push(r);
                    h.retdata = ret.clone();
                    h.input(InRec::Ret(status, ret));
                    s.mem.store_c(lp, 4, k as u64);
                    s.stack.truncate(n - np);
                    s.stack.push(V::S(zext(status, 32)));
                    s.frames.last_mut().unwrap().pc += 1;
                    outs.push(s);
                }
                Outcome::Fork(outs)
            }
            ("wsym", "sym_le") | ("wsym", "sym_be") => {
                let (p, l, np_, nl) = (arg!(0), arg!(1), arg!(2), arg!(3));
                let name = text(st, np_, nl);
                if l > 0 {
                    let t = fresh(&name, 8 * l as u32);
                    let big = nm == "sym_be";
                    if big {
                        st.mem.store_be(p, l, t);
                    } else {
                        st.mem.store_le(p, l, t);
                    }
                    Rc::make_mut(&mut st.host).input(InRec::Sym(name, t, big, l as u32));
                }
                done!(None)
            }
            ("wsym", "sym_u32") | ("wsym", "sym_u64") => {
                let (np_, nl) = (arg!(0), arg!(1));
                let name = text(st, np_, nl);
                let w = if nm == "sym_u32" { 32 } else { 64 };
                let t = fresh(&name, w);
                Rc::make_mut(&mut st.host).input(InRec::Sym(name, t, false, w / 8));
                done!(Some(V::S(t)))
            }
            ("wsym", "bound") => {
                // (name, nlen, quick, thorough)
                let (a, b, q, t) = (arg!(0), arg!(1), arg!(2), arg!(3));
                let name = text(st, a, b);
                let v = if self.thorough { t } else { q } as u64;
                self.bounds.insert(name, v);
                done!(Some(V::C(v)))
            }
            ("wsym", "choose") => {
                let k = arg!(0);
                let mut outs = vec![];
                for i in (0..k).rev() {
                    let mut s = st.clone();
                    s.stack.truncate(n - np);
                    s.stack.push(V::C(i as u64));
                    s.frames.last_mut().unwrap().pc += 1;
                    Rc::make_mut(&mut s.host).input(InRec::Choose(i as u32));
                    outs.push(s);
                }
                Outcome::Fork(outs)
            }
            ("wsym", "assume") => {
                let t = w32(raw!(0));
                let cd = ne(t, c(32, 0));
                match self.decide(st, cd) {
                    Some(true) => {}
                    Some(false) => return Outcome::Done,
                    None => {
                        let mut cj = vec![];
                        conjuncts(cd, &mut cj);
                        st.pc.extend(cj);
                    }
                }
                done!(None)
            }
            ("wsym", "check") => {
                let (p, l) = (arg!(1), arg!(2));
                let msg = text(st, p, l);
                *self.checks.entry(msg.clone()).or_insert(0) += 1;
                let t = w32(raw!(0));
                let cd = ne(t, c(32, 0));
                if !self.obligation(st, cd, "check", &msg) {
                    if self.stop_all {
                        return Outcome::Done;
                    }
                }
                done!(None)
            }
            ("wsym", "cover") => {
                let (p, l) = (arg!(0), arg!(1));
                let msg = text(st, p, l);
                if self.lazy {
                    let goal: Vec<T> = st.pc.clone();
                    if self.sample(&goal, 5000) {
                        st.uncertain = false;
                    }
                }
                if st.uncertain {
                    // the path was entered on an undecided feasibility query: confirm
                    let goal: Vec<T> = st.pc.clone();
                    if self.sol.full_model(&goal).0 != Res::Sat {
                        done!(None)
                    }
                    st.uncertain = false;
                }
                let k = self.covers.entry(msg.clone()).or_insert(0);
                *k += 1;
                if *k == 1 {
                    // a concrete execution reaching this point, replayed by the driver
                    let all = st.pc.clone();
                    if let Ok(Some((mo, real))) = self.find_model(&all) {
                        let j = self.model_json(st, &mo, real, "witness", &msg);
                        self.witnesses.push(j);
                    }
                }
                done!(None)
            }
            ("wsym", "expect_trap") | ("wsym", "allow_trap") => {
                let t = w32(raw!(0));
                let cd = ne(t, c(32, 0));
                st.trap =
                    if nm == "expect_trap" { TrapMode::Iff(cd) } else { TrapMode::OnlyIf(cd) };
                done!(None)
            }
            ("wsym", "end_expect") => {
                if let TrapMode::Iff(cd) = st.trap {
                    if !self.obligation(st, not(cd), "missing trap", "expected a trap") {
                        if self.stop_all {
                            return Outcome::Done;
                        }
                    }
                }
                st.trap = TrapMode::Never;
                done!(None)
            }
            ("wsym", "stop") => {
                self.paths += 1;
                Outcome::Done
            }
            ("wsym", "set_sender") => {
                let p0 = arg!(0);
                let t = st.mem.load_be(p0, 20);
                Rc::make_mut(&mut st.host).sender = t;
                done!(None)
            }
            ("wsym", "set_self") => {
                let p0 = arg!(0);
                let t = st.mem.load_be(p0, 20);
                Rc::make_mut(&mut st.host).me = t;
                done!(None)
            }
            ("wsym", "set_value") => {
                let p0 = arg!(0);
                let t = st.mem.load_be(p0, 32);
                Rc::make_mut(&mut st.host).value = t;
                done!(None)
            }
            ("wsym", "set_timestamp") => {
                let t = w64(raw!(0));
                Rc::make_mut(&mut st.host).timestamp = t;
                done!(None)
            }
            ("wsym", "set_balance") => {
                let (a, v) = (arg!(0), arg!(1));
                let (k, v) = (st.mem.load_be(a, 20), st.mem.load_be(v, 32));
                Rc::make_mut(&mut st.host).balances.push((k, v));
                done!(None)
            }
            ("wsym", "on_call") => {
                let x = arg!(0) as u32;
                Rc::make_mut(&mut st.host).callback = if x == 0 { None } else { Some(x) };
                done!(None)
            }
            ("wsym", "set_return") => {
                let (p, l) = (arg!(1), arg!(2));
                let d: Vec<MB> = (0..l).map(|i| st.mem.get(p + i)).collect();
                let s = raw!(0);
                let h = Rc::make_mut(&mut st.host);
                h.pending_status = s;
                h.pending_ret = Rc::new(d);
                done!(None)
            }
            ("wsym", "ret_lens") => {
                let (p, l) = (arg!(0), arg!(1));
                let v: Vec<u32> =
                    (0..l).map(|i| st.mem.load_c(p + 4 * i, 4).expect("ret_lens") as u32).collect();
                Rc::make_mut(&mut st.host).ret_lens = Rc::new(v);
                done!(None)
            }
            ("wsym", "n_logs") => {
                let k = st.host.logs.len() as u64;
                done!(Some(V::C(k)))
            }
            ("wsym", "log_topics") => {
                let i = arg!(0);
                let k = st.host.logs[i].1 as u64;
                done!(Some(V::C(k)))
            }
            ("wsym", "log_len") => {
                let i = arg!(0);
                let k = st.host.logs[i].0.len() as u64;
                done!(Some(V::C(k)))
            }
            ("wsym", "log_read") => {
                let (i, p) = (arg!(0), arg!(1));
                let d = st.host.logs[i].0.clone();
                for (k, b) in d.iter().enumerate() {
                    st.mem.set(p + k, *b);
                }
                done!(None)
            }
            ("wsym", "n_calls") => {
                let k = st.host.calls.len() as u64;
                done!(Some(V::C(k)))
            }
            ("wsym", "call_info") => {
                // (idx, target_ptr20, value_ptr32) -> kind
                let (i, p, q) = (arg!(0), arg!(1), arg!(2));
                let r = st.host.calls[i].clone();
                st.mem.store_be(p, 20, r.target);
                st.mem.store_be(q, 32, r.value);
                done!(Some(V::C(r.kind as u64)))
            }
            ("wsym", "call_len") => {
                let i = arg!(0);
                let k = st.host.calls[i].data.len() as u64;
                done!(Some(V::C(k)))
            }
            ("wsym", "call_data") => {
                let (i, p) = (arg!(0), arg!(1));
                let d = st.host.calls[i].data.clone();
                for (k, b) in d.iter().enumerate() {
                    st.mem.set(p + k, *b);
                }
                done!(None)
            }
            ("wsym", "call_status") => {
                let i = arg!(0);
                let s = st.host.calls[i].status;
                done!(Some(s))
            }
            ("wsym", "call_ret_len") => {
                let i = arg!(0);
                let k = st.host.calls[i].ret.len() as u64;
                done!(Some(V::C(k)))
            }
            ("wsym", "call_ret") => {
                let (i, p) = (arg!(0), arg!(1));
                let d = st.host.calls[i].ret.clone();
                for (k, b) in d.iter().enumerate() {
                    st.mem.set(p + k, *b);
                }
                done!(None)
            }
            ("wsym", "n_writes") => {
                let k = st.host.writes.len() as u64;
                done!(Some(V::C(k)))
            }
            ("wsym", "uf") => {
                // (name, nlen, in, inlen, out, outlen)
                let (a, b, p, l, o, ol) =
                    (arg!(0), arg!(1), arg!(2), arg!(3), arg!(4), arg!(5));
                let name = text(st, a, b);
                let id = uf_id(&format!("{}_{}", name, l), 8 * ol as u32);
                let t = uf(id, if l == 0 { vec![] } else { vec![st.mem.load_be(p, l)] });
                st.mem.store_be(o, ol, t);
                done!(None)
            }
            ("wsym", "fresh_storage") => {
                // a newly deployed contract: every slot reads zero until written
                self.fresh = true;
                done!(None)
            }
            ("wsym", "check_mul") => {
                // (r, rn, k, a, an, b, bn, m, mn, below, msg, len): r 2^k = a b modulo m, and r < m if below
                let (r, rn, k, a, an, b, bn, m, mn) = (
                    arg!(0), arg!(1), arg!(2), arg!(3), arg!(4), arg!(5), arg!(6), arg!(7), arg!(8),
                );
                let (below, p, l) = (arg!(9), arg!(10), arg!(11));
                let msg = text(st, p, l);
                *self.checks.entry(msg.clone()).or_insert(0) += 1;
                let (tr, ta, tb, tm) =
                    (st.mem.load_le(r, rn), st.mem.load_le(a, an), st.mem.load_le(b, bn), st.mem.load_le(m, mn));
                self.prove_mul(st, tr, k as u32, ta, tb, tm, below != 0, &msg);
                if self.stop_all {
                    return Outcome::Done;
                }
                done!(None)
            }
            ("wsym", "cut") => {
                self.cut = as_const(w64(raw!(0))).map(|b| b.u64());
                done!(None)
            }
            ("wsym", "lazy") => {
                let x = arg!(0);
                self.lazy = x & 1 != 0;
                set_linear(x & 2 != 0);
                done!(None)
            }
            ("wsym", "merge") => {
                let x = arg!(0);
                self.merge_on = x != 0;
                done!(None)
            }
            ("wsym", "dbg") => {
                let (p, l) = (arg!(1), arg!(2));
                eprintln!("DBG {} {}", text(st, p, l), match raw!(0) {
                    V::C(x) => format!("{:#x}", x),
                    V::S(t) => show(t),
                });
                done!(None)
            }
            ("wsym", "dbg_mem") => {
                let (q, k, p, l) = (arg!(0), arg!(1), arg!(2), arg!(3));
                let t = st.mem.load_be(q, k);
                eprintln!("DBG {} {}", text(st, p, l), show(t));
                done!(None)
            }
            (a, b) => {
                self.inconclusive.push(format!("host function {}.{} not modelled", a, b));
                self.stop_all = true;
                Outcome::Done
            }
        }
    }
}

fn cv(v: V) -> u64 {
    match v {
        V::C(x) => x,
        V::S(_) => panic!("cv on symbolic"),
    }
}

fn copy(st: &mut St, d: usize, s: usize, l: usize) {
    if d == s || l == 0 {
        return;
    }
    let v: Vec<MB> = (0..l).map(|i| st.mem.get(s + i)).collect();
    for (i, b) in v.into_iter().enumerate() {
        st.mem.set(d + i, b);
    }
}

fn do_br(m: &Rc<Module>, st: &mut St, t: &Target) {
    let fr = st.frames.last_mut().unwrap();
    let nl = m.funcs[fr.func as usize].nlocals as usize;
    let keep = t.arity as usize;
    let h = fr.base + nl + t.height as usize;
    let n = st.stack.len();
    if n - keep != h {
        for i in 0..keep {
            st.stack[h + i] = st.stack[n - keep + i];
        }
        st.stack.truncate(h + keep);
    }
    fr.pc = t.pc;
}

fn un(op: Un, v: V) -> V {
    match v {
        V::C(x) => {
            let y = x as u32;
            V::C(match op {
                Un::Eqz32 => (y == 0) as u64,
                Un::Eqz64 => (x == 0) as u64,
                Un::Clz32 => y.leading_zeros() as u64,
                Un::Ctz32 => y.trailing_zeros() as u64,
                Un::Popcnt32 => y.count_ones() as u64,
                Un::Clz64 => x.leading_zeros() as u64,
                Un::Ctz64 => x.trailing_zeros() as u64,
                Un::Popcnt64 => x.count_ones() as u64,
                Un::Wrap => y as u64,
                Un::ExtS => y as i32 as i64 as u64,
                Un::ExtU => y as u64,
                Un::Ext8S32 => y as i8 as i32 as u32 as u64,
                Un::Ext16S32 => y as i16 as i32 as u32 as u64,
                Un::Ext8S64 => x as i8 as i64 as u64,
                Un::Ext16S64 => x as i16 as i64 as u64,
                Un::Ext32S64 => x as i32 as i64 as u64,
            })
        }
        V::S(t) => {
            let w = width(t);
            mkv(match op {
                Un::Eqz32 | Un::Eqz64 => zext(eq(t, c(w, 0)), 32),
                Un::Wrap => extract(t, 31, 0),
                Un::ExtS => sext(t, 64),
                Un::ExtU => zext(t, 64),
                Un::Ext8S32 => sext(extract(t, 7, 0), 32),
                Un::Ext16S32 => sext(extract(t, 15, 0), 32),
                Un::Ext8S64 => sext(extract(t, 7, 0), 64),
                Un::Ext16S64 => sext(extract(t, 15, 0), 64),
                Un::Ext32S64 => sext(extract(t, 31, 0), 64),
                Un::Clz32 | Un::Clz64 => {
                    let mut r = c(w, w as u64);
                    for i in 0..w {
                        r = ite(extract(t, i, i), c(w, (w - 1 - i) as u64), r);
                    }
                    r
                }
                Un::Ctz32 | Un::Ctz64 => {
                    let mut r = c(w, w as u64);
                    for i in (0..w).rev() {
                        r = ite(extract(t, i, i), c(w, i as u64), r);
                    }
                    r
                }
                Un::Popcnt32 | Un::Popcnt64 => {
                    let mut r = c(w, 0);
                    for i in 0..w {
                        r = add(r, zext(extract(t, i, i), w));
                    }
                    r
                }
            })
        }
    }
}

fn bin_c(op: B, x: u64, y: u64, w: u32) -> Option<u64> {
    if w == 32 {
        let (a, b) = (x as u32, y as u32);
        let (sa, sb) = (a as i32, b as i32);
        Some(match op {
            B::Eq => (a == b) as u64,
            B::Ne => (a != b) as u64,
            B::LtS => (sa < sb) as u64,
            B::LtU => (a < b) as u64,
            B::GtS => (sa > sb) as u64,
            B::GtU => (a > b) as u64,
            B::LeS => (sa <= sb) as u64,
            B::LeU => (a <= b) as u64,
            B::GeS => (sa >= sb) as u64,
            B::GeU => (a >= b) as u64,
            B::Add => a.wrapping_add(b) as u64,
            B::Sub => a.wrapping_sub(b) as u64,
            B::Mul => a.wrapping_mul(b) as u64,
            B::DivS => sa.checked_div(sb)? as u32 as u64,
            B::DivU => a.checked_div(b)? as u64,
            B::RemS => {
                if sb == 0 {
                    return None;
                }
                sa.wrapping_rem(sb) as u32 as u64
            }
            B::RemU => a.checked_rem(b)? as u64,
            B::And => (a & b) as u64,
            B::Or => (a | b) as u64,
            B::Xor => (a ^ b) as u64,
            B::Shl => a.wrapping_shl(b) as u64,
            B::ShrS => sa.wrapping_shr(b) as u32 as u64,
            B::ShrU => a.wrapping_shr(b) as u64,
            B::Rotl => a.rotate_left(b & 31) as u64,
            B::Rotr => a.rotate_right(b & 31) as u64,
        })
    } else {
        let (sx, sy) = (x as i64, y as i64);
        Some(match op {
            B::Eq => (x == y) as u64,
            B::Ne => (x != y) as u64,
            B::LtS => (sx < sy) as u64,
            B::LtU => (x < y) as u64,
            B::GtS => (sx > sy) as u64,
            B::GtU => (x > y) as u64,
            B::LeS => (sx <= sy) as u64,
            B::LeU => (x <= y) as u64,
            B::GeS => (sx >= sy) as u64,
            B::GeU => (x >= y) as u64,
            B::Add => x.wrapping_add(y),
            B::Sub => x.wrapping_sub(y),
            B::Mul => x.wrapping_mul(y),
            B::DivS => sx.checked_div(sy)? as u64,
            B::DivU => x.checked_div(y)?,
            B::RemS => {
                if sy == 0 {
                    return None;
                }
                sx.wrapping_rem(sy) as u64
            }
            B::RemU => x.checked_rem(y)?,
            B::And => x & y,
            B::Or => x | y,
            B::Xor => x ^ y,
            B::Shl => x.wrapping_shl(y as u32),
            B::ShrS => sx.wrapping_shr(y as u32) as u64,
            B::ShrU => x.wrapping_shr(y as u32),
            B::Rotl => x.rotate_left((y & 63) as u32),
            B::Rotr => x.rotate_right((y & 63) as u32),
        })
    }
}
