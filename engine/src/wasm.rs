//! WebAssembly binary decoder producing a flat instruction form with resolved branches.

#[derive(Clone, Debug, PartialEq)]
pub struct FuncType {
    pub params: Vec<u8>,
    pub results: Vec<u8>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Un {
    Eqz32, Eqz64, Clz32, Ctz32, Popcnt32, Clz64, Ctz64, Popcnt64, Wrap, ExtS, ExtU,
    Ext8S32, Ext16S32, Ext8S64, Ext16S64, Ext32S64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    Eq, Ne, LtS, LtU, GtS, GtU, LeS, LeU, GeS, GeU,
    Add, Sub, Mul, DivS, DivU, RemS, RemU, And, Or, Xor, Shl, ShrS, ShrU, Rotl, Rotr,
}

#[derive(Clone, Debug)]
pub struct Target {
    pub pc: u32,
    pub arity: u32,
    pub height: u32,
}

#[derive(Clone, Debug)]
pub enum I {
    Unreachable,
    Nop,
    Br(Target),
    BrIf(Target),
    /// jump when the condition is zero (from `if`), no stack adjustment
    BrIfZ(u32),
    Jump(u32),
    BrTable(Box<[Target]>),
    Return,
    Call(u32),
    CallIndirect(u32),
    Drop,
    /// with the width of the operands
    Select(u32),
    LocalGet(u32),
    LocalSet(u32),
    LocalTee(u32),
    GlobalGet(u32),
    GlobalSet(u32),
    /// bytes, sign extend, 64-bit result, offset
    Load(u8, bool, bool, u32),
    /// bytes, offset
    Store(u8, u32),
    MemSize,
    MemGrow,
    MemCopy,
    MemFill,
    C32(u32),
    C64(u64),
    Un(Un),
    Bin32(B),
    Bin64(B),
    Unsupported(u8),
}

#[derive(Clone, Debug, Default)]
pub struct Func {
    pub ty: usize,
    pub nparams: u32,
    pub nresults: u32,
    pub nlocals: u32, // params included
    pub local_types: Vec<u8>,
    pub code: Vec<I>,
    pub name: String,
    pub import: Option<(String, String)>,
    pub size: usize,
}

#[derive(Default)]
pub struct Module {
    pub types: Vec<FuncType>,
    pub funcs: Vec<Func>,
    pub nimports: usize,
    pub table: Vec<Option<u32>>,
    pub mem_pages: u32,
    pub mem_max: u32,
    pub globals: Vec<(u8, bool, u64)>,
    pub exports: Vec<(String, u8, u32)>,
    pub data: Vec<(u32, Vec<u8>)>,
}

struct R<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> R<'a> {
    fn u8(&mut self) -> u8 {
        let x = self.b[self.p];
        self.p += 1;
        x
    }
    fn leb(&mut self) -> u64 {
        let mut r = 0u64;
        let mut s = 0;
        loop {
            let x = self.u8();
            r |= ((x & 0x7f) as u64) << s;
            s += 7;
            if x & 0x80 == 0 {
                return r;
            }
        }
    }
    fn u32(&mut self) -> u32 {
        self.leb() as u32
    }
    fn sleb(&mut self) -> i64 {
        let mut r = 0i64;
        let mut s = 0;
        loop {
            let x = self.u8();
            r |= ((x & 0x7f) as i64) << s;
            s += 7;
            if x & 0x80 == 0 {
                if s < 64 && x & 0x40 != 0 {
                    r |= -1i64 << s;
                }
                return r;
            }
        }
    }
    fn bytes(&mut self, n: usize) -> &'a [u8] {
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        r
    }
    fn name(&mut self) -> String {
        let n = self.u32() as usize;
        String::from_utf8_lossy(self.bytes(n)).to_string()
    }
    fn eof(&self) -> bool {
        self.p >= self.b.len()
    }
}

fn const_expr(r: &mut R) -> u64 {
    let op = r.u8();
    let v = match op {
        0x41 => r.sleb() as u32 as u64,
        0x42 => r.sleb() as u64,
        x => panic!("const expr {:x}", x),
    };
    assert_eq!(r.u8(), 0x0b);
    v
}

pub fn parse(b: &[u8]) -> Module {
    assert_eq!(&b[0..4], b"\0asm");
    let mut r = R { b, p: 8 };
    let mut m = Module::default();
    let mut fty: Vec<usize> = vec![];
    let mut bodies: Vec<(usize, usize)> = vec![];
    let mut names: Vec<(u32, String)> = vec![];
    while !r.eof() {
        let id = r.u8();
        let len = r.u32() as usize;
        let end = r.p + len;
        match id {
            0 => {
                let n = r.name();
                if n == "name" {
                    while r.p < end {
                        let sid = r.u8();
                        let sl = r.u32() as usize;
                        let se = r.p + sl;
                        if sid == 1 {
                            let k = r.u32();
                            for _ in 0..k {
                                let i = r.u32();
                                let nm = r.name();
                                names.push((i, nm));
                            }
                        }
                        r.p = se;
                    }
                }
            }
            1 => {
                let n = r.u32();
                for _ in 0..n {
                    assert_eq!(r.u8(), 0x60);
                    let np = r.u32() as usize;
                    let params = r.bytes(np).to_vec();
                    let nr = r.u32() as usize;
                    let results = r.bytes(nr).to_vec();
                    m.types.push(FuncType { params, results });
                }
            }
            2 => {
                let n = r.u32();
                for _ in 0..n {
                    let md = r.name();
                    let nm = r.name();
                    let k = r.u8();
                    assert_eq!(k, 0, "only function imports supported");
                    let ty = r.u32() as usize;
                    m.funcs.push(Func {
                        ty,
                        nparams: m.types[ty].params.len() as u32,
                        nresults: m.types[ty].results.len() as u32,
                        name: format!("{}.{}", md, nm),
                        import: Some((md, nm)),
                        ..Default::default()
                    });
                }
                m.nimports = m.funcs.len();
            }
            3 => {
                let n = r.u32();
                for _ in 0..n {
                    fty.push(r.u32() as usize);
                }
            }
            4 => {
                let n = r.u32();
                for _ in 0..n {
                    r.u8();
                    let fl = r.u8();
                    let min = r.u32();
                    if fl & 1 == 1 {
                        r.u32();
                    }
                    m.table = vec![None; min as usize];
                }
            }
            5 => {
                r.u32();
                let fl = r.u8();
                m.mem_pages = r.u32();
                m.mem_max = if fl & 1 == 1 { r.u32() } else { 65536 };
            }
            6 => {
                let n = r.u32();
                for _ in 0..n {
                    let t = r.u8();
                    let mu = r.u8();
                    let v = const_expr(&mut r);
                    m.globals.push((t, mu == 1, v));
                }
            }
            7 => {
                let n = r.u32();
                for _ in 0..n {
                    let nm = r.name();
                    let k = r.u8();
                    let i = r.u32();
                    m.exports.push((nm, k, i));
                }
            }
            9 => {
                let n = r.u32();
                for _ in 0..n {
                    let fl = r.u32();
                    assert_eq!(fl, 0, "elem kind");
                    let off = const_expr(&mut r) as usize;
                    let k = r.u32();
                    for j in 0..k as usize {
                        let f = r.u32();
                        if m.table.len() <= off + j {
                            m.table.resize(off + j + 1, None);
                        }
                        m.table[off + j] = Some(f);
                    }
                }
            }
            10 => {
                let n = r.u32();
                for _ in 0..n {
                    let sz = r.u32() as usize;
                    bodies.push((r.p, r.p + sz));
                    r.p += sz;
                }
            }
            11 => {
                let n = r.u32();
                for _ in 0..n {
                    let fl = r.u32();
                    assert_eq!(fl, 0, "data kind");
                    let off = const_expr(&mut r) as u32;
                    let k = r.u32() as usize;
                    m.data.push((off, r.bytes(k).to_vec()));
                }
            }
            _ => {}
        }
        r.p = end;
    }
    for (i, ty) in fty.iter().enumerate() {
        m.funcs.push(Func {
            ty: *ty,
            nparams: m.types[*ty].params.len() as u32,
            nresults: m.types[*ty].results.len() as u32,
            size: bodies[i].1 - bodies[i].0,
            ..Default::default()
        });
    }
    for (i, n) in names {
        let f = &mut m.funcs[i as usize];
        if f.import.is_none() {
            f.name = demangle(&n);
        }
    }
    for (i, (s, e)) in bodies.iter().enumerate() {
        let fi = m.nimports + i;
        compile(&mut m, fi, &b[*s..*e]);
    }
    m
}

struct Ctl {
    is_loop: bool,
    is_if: bool,
    else_patch: Option<usize>,
    start: u32,
    height: u32,
    nparams: u32,
    nresults: u32,
    kind: u8,
    patches: Vec<(usize, usize)>, // (instr index, br_table slot or usize::MAX)
    dead: bool,
}

fn compile(m: &mut Module, fi: usize, body: &[u8]) {
    let mut r = R { b: body, p: 0 };
    let ty = m.types[m.funcs[fi].ty].clone();
    let mut local_types = ty.params.clone();
    let n = r.u32();
    for _ in 0..n {
        let k = r.u32();
        let t = r.u8();
        for _ in 0..k {
            local_types.push(t);
        }
    }
    let mut code: Vec<I> = Vec::new();
    let mut h: u32 = 0; // operand stack height above locals
    let mut ctl: Vec<Ctl> = vec![Ctl {
        is_loop: false,
        is_if: false,
        else_patch: None,
        start: 0,
        height: 0,
        nparams: 0,
        nresults: ty.results.len() as u32,
        kind: ty.results.first().copied().unwrap_or(0x7f),
        patches: vec![],
        dead: false,
    }];
    // types of the operands by height
    let mut kinds: Vec<u8> = vec![];
    let mut dead = false;
    let mut skip = 0u32; // nesting inside dead code
    macro_rules! bt {
        ($r:expr, $m:expr) => {{
            let t = $r.sleb();
            if t == -64 {
                (0u32, 0u32, 0x7fu8)
            } else if t < 0 {
                (0, 1, (t & 0x7f) as u8)
            } else {
                let ft = &$m.types[t as usize];
                (ft.params.len() as u32, ft.results.len() as u32, ft.results.first().copied().unwrap_or(0x7f))
            }
        }};
    }
    fn target(ctl: &mut [Ctl], d: u32, at: usize, slot: usize) -> Target {
        let n = ctl.len();
        let cframe = &mut ctl[n - 1 - d as usize];
        if cframe.is_loop {
            Target { pc: cframe.start, arity: cframe.nparams, height: cframe.height }
        } else {
            cframe.patches.push((at, slot));
            Target { pc: u32::MAX, arity: cframe.nresults, height: cframe.height }
        }
    }
    loop {
        let op = r.u8();
        if dead {
            // skip instructions until the matching else/end
            match op {
                0x02 | 0x03 | 0x04 => {
                    r.sleb();
                    skip += 1;
                    continue;
                }
                0x05 if skip > 0 => continue,
                0x0b if skip > 0 => {
                    skip -= 1;
                    continue;
                }
                0x05 | 0x0b => {}
                0x0c | 0x0d | 0x10 | 0x20..=0x24 => {
                    r.leb();
                    continue;
                }
                0x0e => {
                    let k = r.u32();
                    for _ in 0..=k {
                        r.u32();
                    }
                    continue;
                }
                0x11 => {
                    r.leb();
                    r.leb();
                    continue;
                }
                0x28..=0x3e => {
                    r.leb();
                    r.leb();
                    continue;
                }
                0x3f | 0x40 => {
                    r.u8();
                    continue;
                }
                0x43 => {
                    r.bytes(4);
                    continue;
                }
                0x44 => {
                    r.bytes(8);
                    continue;
                }
                0x41 | 0x42 => {
                    r.sleb();
                    continue;
                }
                0xfc => {
                    let s = r.u32();
                    match s {
                        10 => {
                            r.u8();
                            r.u8();
                        }
                        11 => {
                            r.u8();
                        }
                        _ => panic!("fc {}", s),
                    }
                    continue;
                }
                _ => continue,
            }
        }
        let mut pushed: Option<u8> = None;
        match op {
            0x00 => {
                code.push(I::Unreachable);
                dead = true;
            }
            0x01 => {}
            0x02 | 0x03 => {
                let (np, nr, kind) = bt!(r, m);
                ctl.push(Ctl {
                    is_loop: op == 3,
                    is_if: false,
                    else_patch: None,
                    start: code.len() as u32,
                    height: h - np,
                    nparams: np,
                    nresults: nr,
                    kind,
                    patches: vec![],
                    dead: false,
                });
            }
            0x04 => {
                let (np, nr, kind) = bt!(r, m);
                h -= 1;
                code.push(I::BrIfZ(u32::MAX));
                ctl.push(Ctl {
                    is_loop: false,
                    is_if: true,
                    else_patch: Some(code.len() - 1),
                    start: 0,
                    height: h - np,
                    nparams: np,
                    nresults: nr,
                    kind,
                    patches: vec![],
                    dead: false,
                });
            }
            0x05 => {
                let top = ctl.last_mut().unwrap();
                if !dead {
                    code.push(I::Jump(u32::MAX));
                    top.patches.push((code.len() - 1, usize::MAX));
                }
                let at = code.len() as u32;
                if let Some(p) = top.else_patch.take() {
                    code[p] = I::BrIfZ(at);
                }
                top.dead = top.dead && dead;
                h = top.height + top.nparams;
                dead = false;
            }
            0x0b => {
                let top = ctl.pop().unwrap();
                let at = code.len() as u32;
                if let Some(p) = top.else_patch {
                    code[p] = I::BrIfZ(at);
                }
                let _ = top.is_if;
                for (i, s) in &top.patches {
                    match &mut code[*i] {
                        I::Br(t) | I::BrIf(t) => t.pc = at,
                        I::Jump(t) => *t = at,
                        I::BrTable(v) => v[*s].pc = at,
                        x => panic!("patch {:?}", x),
                    }
                }
                h = top.height + top.nresults;
                if top.nresults > 0 {
                    pushed = Some(top.kind);
                }
                dead = false;
                if ctl.is_empty() {
                    code.push(I::Return);
                    break;
                }
            }
            0x0c => {
                let d = r.u32();
                let at = code.len();
                let t = target(&mut ctl, d, at, usize::MAX);
                code.push(I::Br(t));
                dead = true;
            }
            0x0d => {
                let d = r.u32();
                h -= 1;
                let at = code.len();
                let t = target(&mut ctl, d, at, usize::MAX);
                code.push(I::BrIf(t));
            }
            0x0e => {
                let k = r.u32();
                h -= 1;
                let at = code.len();
                let mut v = vec![];
                for s in 0..=k {
                    let d = r.u32();
                    v.push(target(&mut ctl, d, at, s as usize));
                }
                code.push(I::BrTable(v.into_boxed_slice()));
                dead = true;
            }
            0x0f => {
                code.push(I::Return);
                dead = true;
            }
            0x10 => {
                let f = r.u32();
                h = h - m.funcs[f as usize].nparams + m.funcs[f as usize].nresults;
                code.push(I::Call(f));
            }
            0x11 => {
                let t = r.u32();
                r.u32();
                h = h - 1 - m.types[t as usize].params.len() as u32
                    + m.types[t as usize].results.len() as u32;
                code.push(I::CallIndirect(t));
            }
            0x1a => {
                h -= 1;
                code.push(I::Drop);
            }
            0x1b => {
                h -= 2;
                code.push(I::Select(if kinds.get(h as usize - 1) == Some(&0x7e) { 64 } else { 32 }));
            }
            0x20 => {
                h += 1;
                code.push(I::LocalGet(r.u32()));
            }
            0x21 => {
                h -= 1;
                code.push(I::LocalSet(r.u32()));
            }
            0x22 => code.push(I::LocalTee(r.u32())),
            0x23 => {
                h += 1;
                code.push(I::GlobalGet(r.u32()));
            }
            0x24 => {
                h -= 1;
                code.push(I::GlobalSet(r.u32()));
            }
            0x28..=0x35 => {
                r.u32();
                let off = r.u32();
                if op == 0x2a || op == 0x2b {
                    code.push(I::Unsupported(op));
                    continue;
                }
                let (n, s, l) = match op {
                    0x28 => (4, false, false),
                    0x29 => (8, false, true),
                    0x2a | 0x2b => panic!("float"),
                    0x2c => (1, true, false),
                    0x2d => (1, false, false),
                    0x2e => (2, true, false),
                    0x2f => (2, false, false),
                    0x30 => (1, true, true),
                    0x31 => (1, false, true),
                    0x32 => (2, true, true),
                    0x33 => (2, false, true),
                    0x34 => (4, true, true),
                    _ => (4, false, true),
                };
                code.push(I::Load(n, s, l, off));
            }
            0x36..=0x3e => {
                r.u32();
                let off = r.u32();
                if op == 0x38 || op == 0x39 {
                    h -= 2;
                    code.push(I::Unsupported(op));
                    continue;
                }
                let n = match op {
                    0x36 => 4,
                    0x37 => 8,
                    0x38 | 0x39 => panic!("float"),
                    0x3a => 1,
                    0x3b => 2,
                    0x3c => 1,
                    0x3d => 2,
                    _ => 4,
                };
                h -= 2;
                code.push(I::Store(n, off));
            }
            0x3f => {
                r.u8();
                h += 1;
                code.push(I::MemSize);
            }
            0x40 => {
                r.u8();
                code.push(I::MemGrow);
            }
            0x41 => {
                h += 1;
                code.push(I::C32(r.sleb() as u32));
            }
            0x42 => {
                h += 1;
                code.push(I::C64(r.sleb() as u64));
            }
            0x45 => code.push(I::Un(Un::Eqz32)),
            0x50 => code.push(I::Un(Un::Eqz64)),
            0x46..=0x4f | 0x51..=0x5a => {
                const CM: [B; 10] =
                    [B::Eq, B::Ne, B::LtS, B::LtU, B::GtS, B::GtU, B::LeS, B::LeU, B::GeS, B::GeU];
                h -= 1;
                if op <= 0x4f {
                    code.push(I::Bin32(CM[(op - 0x46) as usize]));
                } else {
                    code.push(I::Bin64(CM[(op - 0x51) as usize]));
                }
            }
            0x67 => code.push(I::Un(Un::Clz32)),
            0x68 => code.push(I::Un(Un::Ctz32)),
            0x69 => code.push(I::Un(Un::Popcnt32)),
            0x79 => code.push(I::Un(Un::Clz64)),
            0x7a => code.push(I::Un(Un::Ctz64)),
            0x7b => code.push(I::Un(Un::Popcnt64)),
            0x6a..=0x78 | 0x7c..=0x8a => {
                const AR: [B; 15] = [
                    B::Add, B::Sub, B::Mul, B::DivS, B::DivU, B::RemS, B::RemU, B::And, B::Or,
                    B::Xor, B::Shl, B::ShrS, B::ShrU, B::Rotl, B::Rotr,
                ];
                h -= 1;
                if op <= 0x78 {
                    code.push(I::Bin32(AR[(op - 0x6a) as usize]));
                } else {
                    code.push(I::Bin64(AR[(op - 0x7c) as usize]));
                }
            }
            0xa7 => code.push(I::Un(Un::Wrap)),
            0xac => code.push(I::Un(Un::ExtS)),
            0xad => code.push(I::Un(Un::ExtU)),
            0xc0 => code.push(I::Un(Un::Ext8S32)),
            0xc1 => code.push(I::Un(Un::Ext16S32)),
            0xc2 => code.push(I::Un(Un::Ext8S64)),
            0xc3 => code.push(I::Un(Un::Ext16S64)),
            0xc4 => code.push(I::Un(Un::Ext32S64)),
            0xfc => {
                let s = r.u32();
                match s {
                    10 => {
                        r.u8();
                        r.u8();
                        h -= 3;
                        code.push(I::MemCopy);
                    }
                    11 => {
                        r.u8();
                        h -= 3;
                        code.push(I::MemFill);
                    }
                    _ => panic!("fc {}", s),
                }
            }
            0x43 => {
                r.bytes(4);
                h += 1;
                code.push(I::Unsupported(op));
            }
            0x44 => {
                r.bytes(8);
                h += 1;
                code.push(I::Unsupported(op));
            }
            0x5b..=0x66 | 0x92..=0x98 | 0xa0..=0xa6 => {
                h -= 1;
                code.push(I::Unsupported(op));
            }
            0x8b..=0x91 | 0x99..=0x9f | 0xa8..=0xbf => code.push(I::Unsupported(op)),
            x => panic!("unsupported opcode {:x} in {}", x, m.funcs[fi].name),
        }
        if pushed.is_none() {
            pushed = match (op, code.last()) {
                (0x0b | 0x05, _) => None,
                (_, Some(I::LocalGet(l) | I::LocalTee(l))) => Some(local_types[*l as usize]),
                (_, Some(I::GlobalGet(g))) => Some(m.globals[*g as usize].0),
                (_, Some(I::Call(f))) => m.types[m.funcs[*f as usize].ty].results.first().copied(),
                (_, Some(I::CallIndirect(t))) => m.types[*t as usize].results.first().copied(),
                (0x28 | 0x2c..=0x2f | 0x3f..=0x41 | 0x45..=0x5a | 0x67..=0x78 | 0xa7 | 0xc0 | 0xc1, _) => Some(0x7f),
                (0x29 | 0x30..=0x35 | 0x42 | 0x79..=0x8a | 0xac | 0xad | 0xc2..=0xc4, _) => Some(0x7e),
                _ => None,
            };
        }
        if let (Some(k), true) = (pushed, h > 0) {
            if kinds.len() < h as usize {
                kinds.resize(h as usize, 0x7f);
            }
            kinds[h as usize - 1] = k;
        }
    }
    let f = &mut m.funcs[fi];
    f.nlocals = local_types.len() as u32;
    f.local_types = local_types;
    f.code = code;
}

/// successors of an instruction inside a function (usize::MAX = function exit)
pub fn succs(code: &[I], pc: usize) -> Vec<usize> {
    match &code[pc] {
        I::Unreachable => vec![],
        I::Br(t) => vec![t.pc as usize],
        I::BrIf(t) => vec![pc + 1, t.pc as usize],
        I::BrIfZ(t) => vec![pc + 1, *t as usize],
        I::Jump(t) => vec![*t as usize],
        I::BrTable(v) => v.iter().map(|t| t.pc as usize).collect(),
        I::Return => vec![usize::MAX],
        _ => vec![pc + 1],
    }
}

/// immediate post-dominators (traps ignored), usize::MAX = exit
pub fn ipdoms(code: &[I]) -> Vec<usize> {
    // basic blocks
    let n = code.len();
    let mut leader = vec![false; n];
    leader[0] = true;
    for pc in 0..n {
        let s = succs(code, pc);
        if s.len() != 1 || s[0] != pc + 1 {
            for t in s {
                if t != usize::MAX {
                    leader[t] = true;
                }
            }
            if pc + 1 < n {
                leader[pc + 1] = true;
            }
        }
    }
    let starts: Vec<usize> = (0..n).filter(|i| leader[*i]).collect();
    let mut blk = vec![0usize; n];
    let mut b = 0;
    for i in 0..n {
        if i > 0 && leader[i] {
            b += 1;
        }
        blk[i] = b;
    }
    let nb = starts.len();
    let exit = nb;
    let mut su: Vec<Vec<usize>> = vec![vec![]; nb + 1];
    let mut pr: Vec<Vec<usize>> = vec![vec![]; nb + 1];
    for k in 0..nb {
        let end = if k + 1 < nb { starts[k + 1] } else { n };
        for t in succs(code, end - 1) {
            let tb = if t == usize::MAX { exit } else { blk[t] };
            if !su[k].contains(&tb) {
                su[k].push(tb);
                pr[tb].push(k);
            }
        }
    }
    // reverse postorder from exit on the reversed graph
    let mut order = vec![];
    let mut seen = vec![false; nb + 1];
    let mut st = vec![(exit, 0usize)];
    seen[exit] = true;
    while let Some((x, i)) = st.pop() {
        if i < pr[x].len() {
            st.push((x, i + 1));
            let y = pr[x][i];
            if !seen[y] {
                seen[y] = true;
                st.push((y, 0));
            }
        } else {
            order.push(x);
        }
    }
    order.reverse();
    let mut num = vec![usize::MAX; nb + 1];
    for (i, x) in order.iter().enumerate() {
        num[*x] = i;
    }
    let mut id = vec![usize::MAX; nb + 1];
    id[exit] = exit;
    let mut ch = true;
    while ch {
        ch = false;
        for &x in &order[1..] {
            let mut new = usize::MAX;
            for &s in &su[x] {
                if id[s] == usize::MAX {
                    continue;
                }
                new = if new == usize::MAX {
                    s
                } else {
                    let (mut p, mut q) = (new, s);
                    while p != q {
                        while num[p] > num[q] {
                            p = id[p];
                        }
                        while num[q] > num[p] {
                            q = id[q];
                        }
                    }
                    p
                };
            }
            if id[x] != new {
                id[x] = new;
                ch = true;
            }
        }
    }
    (0..n)
        .map(|pc| {
            let d = id[blk[pc]];
            if d == usize::MAX || d == exit {
                usize::MAX
            } else {
                starts[d]
            }
        })
        .collect()
}

/// readable form of a legacy-mangled Rust symbol (hash dropped)
pub fn demangle(s: &str) -> String {
    let s = match s.find(".llvm.") {
        Some(i) => &s[..i],
        None => s,
    };
    if !s.starts_with("_ZN") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut i = 3;
    let mut parts: Vec<String> = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut n = 0usize;
        while i < b.len() && b[i].is_ascii_digit() {
            n = n * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + n > b.len() {
            return s.to_string();
        }
        let mut id = &s[i..i + n];
        i += n;
        if i < b.len() && b[i] == b'E' && n == 17 && id.starts_with('h')
            && id[1..].bytes().all(|c| c.is_ascii_hexdigit())
        {
            break;
        }
        if id.starts_with("_$") {
            id = &id[1..];
        }
        let mut o = String::new();
        let c: Vec<char> = id.chars().collect();
        let mut k = 0;
        while k < c.len() {
            if c[k] == '$' {
                if let Some(e) = (k + 1..c.len()).find(|j| c[*j] == '$') {
                    let t: String = c[k + 1..e].iter().collect();
                    let r = match t.as_str() {
                        "SP" => "@".into(),
                        "BP" => "*".into(),
                        "RF" => "&".into(),
                        "LT" => "<".into(),
                        "GT" => ">".into(),
                        "LP" => "(".into(),
                        "RP" => ")".into(),
                        "C" => ",".into(),
                        x if x.starts_with('u') => {
                            match u32::from_str_radix(&x[1..], 16).ok().and_then(char::from_u32) {
                                Some(ch) => ch.to_string(),
                                None => x.to_string(),
                            }
                        }
                        x => x.to_string(),
                    };
                    o += &r;
                    k = e + 1;
                    continue;
                }
            }
            if c[k] == '.' && k + 1 < c.len() && c[k + 1] == '.' {
                o += "::";
                k += 2;
                continue;
            }
            o.push(c[k]);
            k += 1;
        }
        parts.push(o);
    }
    parts.join("::")
}
