//! Path-based symbolic execution of the parsed IR.
use crate::bdd::*;
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: HashMap<u32, [Bit; 8]>,
    pub constant: bool,
    pub heap: bool,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<Val>,
    pub bb: u32,
    pub ip: u32,
    pub allocas: Vec<u32>,
    pub dst: u32,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub pc: Vec<Bit>,
    pub known: HashMap<u32, bool>,
    pub memo: HashMap<u32, Bit>,
    pub model: Model,
    pub inputs: Vec<u32>,
    pub log: Vec<Val>,
    pub insts: u64,
    pub heap_now: u64,
    pub heap_peak: u64,
    pub heap_max_single: u64,
    /// return value of the outermost frame
    pub ret: Option<Val>,
    /// path condition as a BDD (while summarising a function)
    pub pcb: B,
    /// execute formatting instead of replacing its result by an empty text
    pub text: bool,
}

#[derive(Clone, Debug)]
pub enum Stop {
    Done,
    AssumeFalse,
    Panic(String),
    Error(String),
    Unsupported(String),
    Exit,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub loc: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(u32, u128)>,
}
#[derive(Clone, Debug)]
pub struct Sample {
    pub outcome: String,
    pub inputs: Vec<(u32, u128)>,
    pub log: Vec<u128>,
}

pub struct Limits {
    pub secs: f64,
    pub max_insts_path: u64,
    pub max_paths: u64,
    pub max_violations: usize,
    pub max_samples: usize,
    pub seed: u64,
    pub max_alloc: u64,
    /// tier-dependent bounds read by harnesses through zsym_opt
    pub opts: Vec<u64>,
    /// merge the paths of pure integer functions
    pub merge: bool,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub c: Ctx,
    pub s: Solver,
    pub work: Vec<State>,
    pub lim: Limits,
    pub violations: Vec<Violation>,
    pub vkeys: HashMap<String, usize>,
    pub samples: Vec<Sample>,
    pub covers: BTreeMap<u64, u64>,
    pub asserts: BTreeMap<u64, (u64, u64)>,
    pub funcs_used: BTreeSet<u32>,
    pub paths: BTreeMap<String, u64>,
    pub forks: u64,
    /// queries and milliseconds per source line (ZSYM_PROF)
    pub prof: Option<HashMap<String, (u64, f64)>>,
    pub insts: u64,
    pub unsupported: BTreeMap<String, u64>,
    pub start: Instant,
    pub kinds: HashMap<u32, Kind>,
    pub vars_by_pos: HashMap<(u32, u32), u32>,
    float_ops: HashMap<(u8, u32, Vec<Bit>, Vec<Bit>), u32>,
    pub rng: u64,
    pub alloc_max: u64,
    pub timed_out: bool,
    /// path-merged summaries of pure integer functions
    pub sums: HashMap<u32, Option<Rc<Summary>>>,
    pub in_summary: bool,
    pub sum_uses: BTreeMap<u32, u64>,
    const_mem: Vec<Option<Rc<Obj>>>,
    sx: SumCx,
}

/// BDD manager of the function being summarised.
pub struct SumCx {
    bdd: Bdd,
    memo: Memo,
    pos: HashMap<(u32, u32), u32>,
    order: Vec<(u32, u32)>,
}
impl SumCx {
    fn new() -> SumCx {
        SumCx { bdd: Bdd::new(400_000), memo: Memo::default(), pos: HashMap::new(), order: vec![] }
    }
    fn of(&mut self, c: &Ctx, b: Bit) -> R<B> {
        let pos = &self.pos;
        self.bdd
            .of(c, b, &|v, i| pos.get(&(v, i)).copied(), &mut self.memo)
            .map_err(|_| Stop::Unsupported("no compact summary".into()))
    }
    fn and(&mut self, a: B, b: B) -> R<B> {
        self.bdd.and(a, b).map_err(|_| Stop::Unsupported("no compact summary".into()))
    }
    fn model(&self, mut b: B) -> Model {
        let mut m = Model::default();
        while b > 1 {
            let (l, lo, hi) = self.bdd.n[b as usize];
            let (v, i) = self.order[l as usize];
            if m.vals.len() <= v as usize {
                m.vals.resize(v as usize + 1, 0);
            }
            if hi != 0 {
                m.vals[v as usize] |= 1 << i;
                b = hi;
            } else {
                b = lo;
            }
        }
        m
    }
}

/// What a pure function returns, as BDDs over its argument bits.
pub struct Summary {
    pub bdd: Bdd,
    /// (argument, bit) of each level
    pub order: Vec<(u32, u32)>,
    pub out: Vec<B>,
    /// arguments for which some path panics
    pub bad: B,
    pub leaves: u64,
    pub rw: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Defined,
    Intr(I),
    Panic,
    Unknown,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum I {
    Nop,
    Assume,
    Memcpy,
    Memset,
    Umax,
    Umin,
    Smax,
    Smin,
    UsubSat,
    UaddSat,
    SsubSat,
    SaddSat,
    Ctlz,
    Cttz,
    Ctpop,
    Fshl,
    Fshr,
    Bswap,
    Bitrev,
    Abs,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    Ucmp,
    Scmp,
    Expect,
    IsConst,
    Trap,
    Tls,
    Bcmp,
    Strlen,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Format,
    FeatureDetect,
    SymBits,
    SymBytes,
    SymAssume,
    SymAssert,
    SymCover,
    SymLog,
    SymConc,
    SymHeap,
    SymOpt,
    Zero,
    Errno,
}

type R<T> = Result<T, Stop>;
const REDO: &str = "__redo__";

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, lim: Limits, solver_ms: u32) -> Exec<'m> {
        let seed = lim.seed;
        Exec {
            m,
            c: Ctx::new(),
            s: Solver::new(solver_ms),
            work: vec![],
            lim,
            violations: vec![],
            vkeys: HashMap::new(),
            samples: vec![],
            covers: BTreeMap::new(),
            asserts: BTreeMap::new(),
            funcs_used: BTreeSet::new(),
            paths: BTreeMap::new(),
            forks: 0,
            prof: std::env::var_os("ZSYM_PROF").map(|_| HashMap::new()),
            insts: 0,
            unsupported: BTreeMap::new(),
            start: Instant::now(),
            kinds: HashMap::new(),
            vars_by_pos: HashMap::new(),
            float_ops: HashMap::new(),
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            alloc_max: 0,
            timed_out: false,
            sums: HashMap::new(),
            in_summary: false,
            sum_uses: BTreeMap::new(),
            const_mem: vec![],
            sx: SumCx::new(),
        }
    }

    fn kind(&mut self, id: u32) -> Kind {
        if let Some(k) = self.kinds.get(&id) {
            return *k;
        }
        let name = self.m.names[id as usize].as_str();
        let pretty = self.m.pretty.get(&id).map(|s| s.as_str()).unwrap_or(name);
        let k = classify(name, pretty, self.m.fdefs.contains_key(&id));
        self.kinds.insert(id, k);
        k
    }

    pub fn run(&mut self, entry: &str) {
        let id = *self.m.ids.get(entry).unwrap_or_else(|| panic!("no entry {entry}"));
        let f = self.m.func(id).unwrap();
        let mut mem: Vec<Option<Rc<Obj>>> = vec![None; self.m.nids as usize];
        for (id, g) in &self.m.globals {
            mem[*id as usize] = Some(Rc::new(Obj {
                size: g.size,
                data: g.data.clone(),
                sym: HashMap::new(),
                constant: g.constant,
                heap: false,
            }));
        }
        self.const_mem = mem.iter().map(|o| o.as_ref().filter(|o| o.constant).cloned()).collect();
        let st = State {
            frames: vec![Frame {
                regs: vec![Val::C(0); f.nregs as usize],
                f,
                bb: 0,
                ip: 0,
                allocas: vec![],
                dst: u32::MAX,
                normal: None,
            }],
            mem,
            free: vec![],
            pc: vec![],
            known: HashMap::new(),
            memo: HashMap::new(),
            model: Model::default(),
            inputs: vec![],
            text: false,
            log: vec![],
            insts: 0,
            heap_now: 0,
            heap_peak: 0,
            heap_max_single: 0,
            ret: None,
            pcb: 1,
        };
        self.funcs_used.insert(id);
        self.work.push(st);
        let mut npaths = 0u64;
        while let Some(mut st) = self.work.pop() {
            let stop = self.run_path(&mut st);
            npaths += 1;
            self.finish(&mut st, stop);
            if npaths >= self.lim.max_paths || self.start.elapsed().as_secs_f64() > self.lim.secs {
                if !self.work.is_empty() {
                    self.timed_out = true;
                }
                break;
            }
            if self.timed_out {
                break;
            }
        }
    }

    fn inputs_of(&self, st: &State, m: &Model) -> Vec<(u32, u128)> {
        st.inputs.iter().map(|v| (self.c.vars[*v as usize].w, m.get(*v) & mask(self.c.vars[*v as usize].w))).collect()
    }

    fn finish(&mut self, st: &mut State, stop: Stop) {
        let name = match &stop {
            Stop::Done | Stop::Exit => "done",
            Stop::AssumeFalse => "assumed_out",
            Stop::Panic(_) => "panic",
            Stop::Error(_) => "error",
            Stop::Unsupported(_) => "unsupported",
        };
        *self.paths.entry(name.into()).or_insert(0) += 1;
        if st.heap_max_single > self.alloc_max {
            self.alloc_max = st.heap_max_single;
        }
        match stop {
            Stop::Panic(msg) => {
                let m = st.model.clone();
                self.violation(st, "panic", msg, &m);
            }
            Stop::Error(msg) => {
                let m = st.model.clone();
                self.violation(st, "error", msg, &m);
            }
            Stop::Unsupported(msg) => {
                let w = self.where_(st);
                *self.unsupported.entry(format!("{msg} at {w}")).or_insert(0) += 1;
            }
            Stop::Done | Stop::Exit => {
                // reservoir sample of completed paths
                let n = self.paths["done"];
                let slot = if self.samples.len() < self.lim.max_samples {
                    self.samples.len()
                } else {
                    self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    ((self.rng >> 33) % n) as usize
                };
                if slot < self.lim.max_samples {
                    let mut mm = st.model.clone();
                    let log = st.log.iter().map(|v| self.c.eval_val(v, &mut mm)).collect();
                    let s = Sample { outcome: "done".into(), inputs: self.inputs_of(st, &st.model), log };
                    if slot < self.samples.len() {
                        self.samples[slot] = s;
                    } else {
                        self.samples.push(s);
                    }
                }
            }
            Stop::AssumeFalse => {}
        }
    }

    fn loc(&self, st: &State) -> String {
        // innermost frame with a location outside the Rust standard library
        let mut first = None;
        for fr in st.frames.iter().rev() {
            let b = &fr.f.blocks[fr.bb as usize];
            let ip = (fr.ip as usize).min(b.dbg.len().saturating_sub(1));
            if let Some((f, l)) = b.dbg.get(ip).and_then(|d| self.m.dbg_loc(*d)) {
                let s = format!("{f}:{l}");
                if first.is_none() {
                    first = Some(s.clone());
                }
                if !f.starts_with("/rustc/") {
                    return s;
                }
            }
        }
        first.unwrap_or_default()
    }

    fn violation(&mut self, st: &State, kind: &str, msg: String, m: &Model) {
        let stack: Vec<String> = st.frames.iter().rev().map(|f| f.f.pretty.clone()).collect();
        let loc = self.loc(st);
        let key = format!("{kind}|{msg}|{loc}");
        let n = self.vkeys.entry(key).or_insert(0);
        *n += 1;
        if *n > 2 || self.violations.len() >= self.lim.max_violations {
            return;
        }
        self.violations.push(Violation { kind: kind.into(), msg, loc, stack, inputs: self.inputs_of(st, m) });
    }

    fn where_(&self, st: &State) -> String {
        st.frames.last().map(|f| f.f.pretty.clone()).unwrap_or_default()
    }

    // ---- constraints ---------------------------------------------------
    fn simp(&mut self, st: &mut State, b: Bit) -> Bit {
        if b <= 1 || st.known.is_empty() {
            return b;
        }
        self.c.simp_bit(b, &st.known, &mut st.memo)
    }
    fn simp_val(&mut self, st: &mut State, v: &Val) -> Val {
        match v {
            Val::S(bits) => {
                let nb: Vec<Bit> = bits.iter().map(|b| self.simp(st, *b)).collect();
                self.c.val(nb)
            }
            _ => v.clone(),
        }
    }
    fn learn(&mut self, st: &mut State, b: Bit) {
        let mut stack = vec![b];
        let mut ch = false;
        while let Some(b) = stack.pop() {
            if b <= 1 {
                continue;
            }
            let n = b >> 1;
            if st.known.insert(n, b & 1 == 0).is_none() {
                ch = true;
            }
            if b & 1 == 0 {
                if let Node::And(x, y) = self.c.nodes[n as usize] {
                    stack.push(x);
                    stack.push(y);
                }
            }
        }
        if ch {
            st.memo.clear();
        }
    }
    fn add_pc(&mut self, st: &mut State, b: Bit) {
        if b == T {
            return;
        }
        st.pc.push(b);
        self.learn(st, b);
    }
    fn slice(&self, st: &State, b: Bit) -> Vec<Bit> {
        let mut m = self.c.supp[(b >> 1) as usize];
        let mut out = vec![b];
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, p) in st.pc.iter().enumerate() {
                if !used[i] {
                    let s = self.c.supp[(*p >> 1) as usize];
                    if s & m != 0 {
                        used[i] = true;
                        m |= s;
                        out.push(*p);
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    fn query(&mut self, st: &State, b: Bit) -> R<Option<Model>> {
        if self.in_summary {
            return Err(Stop::Unsupported("solver query in a summary".into()));
        }
        let lits = self.slice(st, b);
        let t0 = std::time::Instant::now();
        let ans = self.s.check(&self.c, &lits, &st.model);
        if self.prof.is_some() {
            let fr = st.frames.last().unwrap();
            let k = format!("{} | {}", self.loc(st), fr.f.name.chars().take(60).collect::<String>());
            let e = self.prof.as_mut().unwrap().entry(k).or_insert((0, 0.0));
            e.0 += 1;
            e.1 += t0.elapsed().as_secs_f64() * 1e3;
        }
        match ans {
            Ans::Sat(mut m) => {
                for l in &lits {
                    if !self.c.eval_bit(*l, &mut m) {
                        return Err(Stop::Unsupported("solver model does not satisfy query".into()));
                    }
                }
                Ok(Some(m))
            }
            Ans::Unsat => Ok(None),
            Ans::Unknown => Err(Stop::Unsupported("solver returned unknown/timeout".into())),
        }
    }
    /// Decides a branch condition; forks when both sides are feasible.
    fn branch(&mut self, st: &mut State, c: Bit) -> R<bool> {
        let s = self.simp(st, c);
        if s <= 1 {
            return Ok(s == T);
        }
        if self.in_summary {
            let b = self.sx.of(&self.c, s)?;
            let t = self.sx.and(st.pcb, b)?;
            let nb = self.sx.of(&self.c, s ^ 1)?;
            let e = self.sx.and(st.pcb, nb)?;
            if t == 0 || e == 0 {
                self.learn(st, s ^ (t == 0) as Bit);
                return Ok(t != 0);
            }
            let mut st2 = st.clone();
            st2.pcb = e;
            self.add_pc(&mut st2, s ^ 1);
            self.work.push(st2);
            st.pcb = t;
            self.add_pc(st, s);
            return Ok(true);
        }
        let v = {
            let mut m = std::mem::take(&mut st.model);
            let r = self.c.eval_bit(s, &mut m);
            st.model = m;
            r
        };
        let other = if v { s ^ 1 } else { s };
        match self.query(st, other)? {
            Some(m2) => {
                let mut st2 = st.clone();
                self.forks += 1;
                self.add_pc(&mut st2, other);
                st2.model = m2;
                self.work.push(st2);
                self.add_pc(st, other ^ 1);
            }
            None => self.learn(st, other ^ 1),
        }
        Ok(v)
    }
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u128> {
        if let Val::C(x) = v {
            return Ok(*x);
        }
        let v = self.simp_val(st, v);
        if let Val::C(x) = v {
            return Ok(x);
        }
        // the value of `atom + constant` follows from that of the atom
        if !self.in_summary {
            if let Some((k, a)) = self.c.offset_of(&v, w) {
                let x = self.conc(st, &a, w)?;
                return Ok(x.wrapping_add(k) & mask(w));
            }
        }
        let x = if self.in_summary {
            let mut m = self.sx.model(st.pcb);
            self.c.eval_val(&v, &mut m)
        } else {
            let mut m = std::mem::take(&mut st.model);
            let x = self.c.eval_val(&v, &mut m);
            st.model = m;
            x
        };
        let e = self.c.eq(w, &v, &Val::C(x));
        if self.branch(st, e)? {
            Ok(x)
        } else {
            Err(Stop::Unsupported("concretisation".into()))
        }
    }

    // ---- memory ----------------------------------------------------------
    fn alloc(&mut self, st: &mut State, size: u64, heap: bool) -> u128 {
        let o = Rc::new(Obj { size, data: vec![0; size as usize], sym: HashMap::new(), constant: false, heap });
        if heap {
            st.heap_now += size;
            st.heap_peak = st.heap_peak.max(st.heap_now);
            st.heap_max_single = st.heap_max_single.max(size);
        }
        if let Some(id) = st.free.pop() {
            st.mem[id as usize] = Some(o);
            return (id as u128) << 32;
        }
        st.mem.push(Some(o));
        ((st.mem.len() - 1) as u128) << 32
    }
    fn dealloc(&mut self, st: &mut State, addr: u128) -> R<()> {
        if addr == 0 {
            return Ok(());
        }
        let id = (addr >> 32) as usize;
        if addr & 0xffff_ffff != 0 || id >= st.mem.len() {
            return Err(Stop::Error("free of invalid pointer".into()));
        }
        match st.mem[id].take() {
            Some(o) if o.heap => {
                st.heap_now -= o.size;
                st.free.push(id as u32);
                Ok(())
            }
            _ => Err(Stop::Error("invalid free".into())),
        }
    }
    fn obj<'a>(&self, st: &'a State, addr: u128, n: u64) -> R<(&'a Rc<Obj>, usize)> {
        let id = (addr >> 32) as usize;
        let off = (addr & 0xffff_ffff) as u64;
        match st.mem.get(id) {
            Some(Some(o)) => {
                if off + n > o.size {
                    Err(Stop::Error(format!("out-of-bounds access: offset {off}+{n} of {}", o.size)))
                } else {
                    Ok((o, off as usize))
                }
            }
            _ => Err(Stop::Error(format!("access through invalid pointer {addr:#x} ({n} bytes)"))),
        }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, addr: u128, n: u64) -> R<(&'a mut Obj, usize)> {
        let id = (addr >> 32) as usize;
        let off = (addr & 0xffff_ffff) as u64;
        match st.mem.get_mut(id) {
            Some(Some(o)) => {
                if off + n > o.size {
                    Err(Stop::Error(format!("out-of-bounds write: offset {off}+{n} of {}", o.size)))
                } else if o.constant {
                    Err(Stop::Error("write to constant".into()))
                } else {
                    Ok((Rc::make_mut(o), off as usize))
                }
            }
            _ => Err(Stop::Error(format!("write through invalid pointer {addr:#x}"))),
        }
    }
    fn read_scalar(&self, o: &Obj, off: usize, n: usize, w: u32) -> Val {
        if o.sym.is_empty() || !(0..n).any(|i| o.sym.contains_key(&((off + i) as u32))) {
            let mut x = 0u128;
            for i in 0..n {
                x |= (o.data[off + i] as u128) << (8 * i);
            }
            return Val::C(x & mask(w));
        }
        let mut bits: Vec<Bit> = Vec::with_capacity(n * 8);
        for i in 0..n {
            match o.sym.get(&((off + i) as u32)) {
                Some(b) => bits.extend_from_slice(b),
                None => {
                    let d = o.data[off + i];
                    for k in 0..8 {
                        bits.push((d >> k & 1) as Bit);
                    }
                }
            }
        }
        bits.truncate(w as usize);
        self.c.val(bits)
    }
    fn read_ty(&self, o: &Obj, off: usize, t: &Ty) -> Val {
        match t {
            Ty::Struct(f, _) => {
                let v = (0..f.len()).map(|i| self.read_ty(o, off + t.field_off(i) as usize, &f[i])).collect();
                Val::A(Rc::new(v))
            }
            Ty::Array(n, e) => {
                let s = e.size() as usize;
                Val::A(Rc::new((0..*n as usize).map(|i| self.read_ty(o, off + i * s, e)).collect()))
            }
            Ty::Vector(n, e) if e.bits() % 8 == 0 => {
                let s = e.bits() as usize / 8;
                Val::A(Rc::new((0..*n as usize).map(|i| self.read_ty(o, off + i * s, e)).collect()))
            }
            Ty::Vector(n, _) => {
                let nb = t.store_size() as usize;
                let v = self.read_scalar(o, off, nb, *n as u32);
                let bits = self.c.bits(&v, *n as u32);
                Val::A(Rc::new(bits.iter().map(|b| self.c.bool_val(*b)).collect()))
            }
            _ => self.read_scalar(o, off, t.store_size() as usize, t.bits()),
        }
    }
    fn write_scalar(o: &mut Obj, off: usize, n: usize, v: &Val, w: u32) {
        match v {
            Val::C(x) => {
                for i in 0..n {
                    o.data[off + i] = (x >> (8 * i)) as u8;
                }
                if !o.sym.is_empty() {
                    for i in 0..n {
                        o.sym.remove(&((off + i) as u32));
                    }
                }
            }
            Val::S(b) => {
                for i in 0..n {
                    let mut by = [F; 8];
                    for k in 0..8 {
                        let j = i * 8 + k;
                        if j < w as usize {
                            by[k] = b[j];
                        }
                    }
                    if by.iter().all(|x| *x <= 1) {
                        let mut d = 0;
                        for k in 0..8 {
                            d |= (by[k] as u8) << k;
                        }
                        o.data[off + i] = d;
                        o.sym.remove(&((off + i) as u32));
                    } else {
                        o.sym.insert((off + i) as u32, by);
                    }
                }
            }
            _ => panic!("write_scalar aggregate"),
        }
    }
    fn write_ty(&self, o: &mut Obj, off: usize, t: &Ty, v: &Val) {
        match (t, v) {
            (Ty::Struct(f, _), Val::A(vs)) => {
                for i in 0..f.len() {
                    self.write_ty(o, off + t.field_off(i) as usize, &f[i], &vs[i]);
                }
            }
            (Ty::Array(_, e), Val::A(vs)) => {
                let s = e.size() as usize;
                for (i, x) in vs.iter().enumerate() {
                    self.write_ty(o, off + i * s, e, x);
                }
            }
            (Ty::Vector(n, e), Val::A(vs)) => {
                if e.bits() % 8 == 0 {
                    let s = e.bits() as usize / 8;
                    for (i, x) in vs.iter().enumerate() {
                        self.write_ty(o, off + i * s, e, x);
                    }
                } else {
                    let bits: Vec<Bit> = vs.iter().map(|x| self.c.to_bit(x)).collect();
                    let v = self.c.val(bits);
                    Self::write_scalar(o, off, t.store_size() as usize, &v, *n as u32);
                }
            }
            _ => Self::write_scalar(o, off, t.store_size() as usize, v, t.bits()),
        }
    }
    fn load(&mut self, st: &mut State, t: &Ty, p: &Val) -> R<Val> {
        let n = t.store_size();
        if let Val::C(a) = p {
            let (o, off) = self.obj(st, *a, n)?;
            return Ok(self.read_ty(o, off, t));
        }
        let p = self.simp_val(st, p);
        if let Val::C(a) = p {
            let (o, off) = self.obj(st, a, n)?;
            return Ok(self.read_ty(o, off, t));
        }
        // table lookup through a symbolic offset into one object
        if t.is_scalar() {
            let mut m = std::mem::take(&mut st.model);
            let a0 = self.c.eval_val(&p, &mut m);
            st.model = m;
            let base = a0 >> 32 << 32;
            let id = (a0 >> 32) as usize;
            let o = match st.mem.get(id) {
                Some(Some(o)) => o.clone(),
                _ => return Err(Stop::Error("access through invalid symbolic pointer".into())),
            };
            if o.size >= n {
                let off = self.c.sub(64, &p, &Val::C(base));
                let inb = {
                    let l = self.c.ult(64, &off, &Val::C((o.size - n + 1) as u128));
                    self.simp(st, l)
                };
                let ok = inb == T || (inb != F && self.query(st, inb ^ 1)?.is_none());
                if ok {
                    let ob = self.c.bits(&off, 64);
                    let mut low = 0;
                    while low < 6 && ob[low] == F {
                        low += 1;
                    }
                    let stride = 1u64 << low;
                    let cnt = (o.size - n) / stride + 1;
                    if cnt <= 2048 {
                        let w = t.bits();
                        let mut tab: Vec<Vec<Bit>> = (0..cnt)
                            .map(|i| {
                                let v = self.read_scalar(&o, (i * stride) as usize, n as usize, w);
                                self.c.bits(&v, w)
                            })
                            .collect();
                        let mut k = low;
                        while tab.len() > 1 {
                            let sel = ob[k];
                            let mut nt = Vec::with_capacity((tab.len() + 1) / 2);
                            for ch in tab.chunks(2) {
                                if ch.len() == 2 {
                                    let r: Vec<Bit> =
                                        (0..w as usize).map(|j| self.c.mux(sel, ch[1][j], ch[0][j])).collect();
                                    nt.push(r);
                                } else {
                                    nt.push(ch[0].clone());
                                }
                            }
                            tab = nt;
                            k += 1;
                        }
                        let v = self.c.val(tab.pop().unwrap());
                        return Ok(v);
                    }
                }
            }
        }
        let a = self.conc(st, &p, 64)?;
        let (o, off) = self.obj(st, a, n)?;
        Ok(self.read_ty(o, off, t))
    }
    fn store(&mut self, st: &mut State, t: &Ty, p: &Val, v: &Val) -> R<()> {
        let a = self.conc(st, p, 64)?;
        let n = t.store_size();
        // split borrow: evaluate object first
        let c = &self.c as *const Ctx;
        let _ = c;
        let id = (a >> 32) as usize;
        self.obj_mut(st, a, n)?;
        let off = (a & 0xffff_ffff) as usize;
        let mut rc = st.mem[id].take().unwrap();
        self.write_ty(Rc::make_mut(&mut rc), off, t, v);
        st.mem[id] = Some(rc);
        Ok(())
    }
    fn copy(&mut self, st: &mut State, d: u128, s: u128, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (so, soff) = self.obj(st, s, n)?;
        let so = so.clone();
        let (o, off) = self.obj_mut(st, d, n)?;
        o.data[off..off + n as usize].copy_from_slice(&so.data[soff..soff + n as usize]);
        if !o.sym.is_empty() || !so.sym.is_empty() {
            for i in 0..n as usize {
                match so.sym.get(&((soff + i) as u32)) {
                    Some(b) => {
                        o.sym.insert((off + i) as u32, *b);
                    }
                    None => {
                        o.sym.remove(&((off + i) as u32));
                    }
                }
            }
        }
        Ok(())
    }
    fn cstr(&self, st: &State, p: u128, n: usize) -> String {
        match self.obj(st, p, n as u64) {
            Ok((o, off)) => String::from_utf8_lossy(&o.data[off..off + n]).into_owned(),
            _ => String::new(),
        }
    }

    // ---- interpreter -----------------------------------------------------
    #[inline]
    fn get(&self, fr: &Frame, o: &Op) -> Val {
        match o {
            Op::R(r) => fr.regs[*r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }
    fn run_path(&mut self, st: &mut State) -> Stop {
        let mut n = 0u32;
        loop {
            n += 1;
            if n & 0x1ff == 0 {
                if self.start.elapsed().as_secs_f64() > self.lim.secs {
                    self.timed_out = true;
                    return Stop::Unsupported("time limit".into());
                }
            }
            if st.insts > self.lim.max_insts_path {
                return Stop::Error(format!("path exceeds {} instructions (no termination?)", self.lim.max_insts_path));
            }
            match self.step(st) {
                Ok(()) => {}
                Err(Stop::Exit) => return Stop::Done,
                Err(s) => return s,
            }
        }
    }
    fn goto(&mut self, st: &mut State, target: u32) {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let prev = fr.bb;
        let b = &f.blocks[target as usize];
        if !b.phis.is_empty() {
            let vals: Vec<Val> = b
                .phis
                .iter()
                .map(|(_, _, ins)| {
                    let (o, _) = ins.iter().find(|x| x.1 == prev).expect("phi pred");
                    match o {
                        Op::R(r) => fr.regs[*r as usize].clone(),
                        Op::K(v) => v.clone(),
                    }
                })
                .collect();
            for ((d, _, _), v) in b.phis.iter().zip(vals) {
                fr.regs[*d as usize] = v;
            }
        }
        fr.bb = target;
        fr.ip = 0;
    }
    fn set(&self, st: &mut State, d: u32, v: Val) {
        if d != u32::MAX {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }
    fn lanes2(
        &mut self,
        t: &Ty,
        a: &Val,
        b: &Val,
        f: &mut dyn FnMut(&mut Self, u32, &Val, &Val) -> R<Val>,
    ) -> R<Val> {
        match t {
            Ty::Vector(n, e) => {
                let (av, bv) = match (a, b) {
                    (Val::A(x), Val::A(y)) => (x.clone(), y.clone()),
                    _ => return Err(Stop::Unsupported("vector operand".into())),
                };
                let mut out = vec![];
                for i in 0..*n as usize {
                    out.push(f(self, e.bits(), &av[i], &bv[i])?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            _ => f(self, t.bits(), a, b),
        }
    }
    /// An extension of a truncated sum is the sum itself when the path says so.
    fn unext(&mut self, st: &State, v: Val, w: u32) -> R<Val> {
        if self.in_summary || !matches!(v, Val::S(_)) {
            return Ok(v);
        }
        if let Some(c) = self.c.lin_cand(&v, w) {
            let e = self.c.bits_eq(&v, &c, w);
            if e == T || e != F && self.query(st, e ^ 1)?.is_none() {
                return Ok(c);
            }
        }
        Ok(v)
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        st.insts += 1;
        self.insts += 1;
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let inst = &f.blocks[fr.bb as usize].insts[fr.ip as usize];
        match inst {
            Inst::Bin(k, t, d, a, b) => {
                let (a, mut b) = (self.get(fr, a), self.get(fr, b));
                let k = *k;
                if matches!(k, BinK::Shl | BinK::LShr | BinK::AShr) && !matches!(b, Val::C(_) | Val::A(_)) {
                    // one path per shift amount
                    b = Val::C(self.conc(st, &b, t.bits())?);
                }
                let (a, b) = if matches!(k, BinK::Add | BinK::Sub) {
                    (self.unext(st, a, t.bits())?, self.unext(st, b, t.bits())?)
                } else {
                    (a, b)
                };
                let v = self.lanes2(t, &a, &b, &mut |s, w, a, b| {
                    Ok(match k {
                        BinK::Add => s.c.add(w, a, b),
                        BinK::Sub => s.c.sub(w, a, b),
                        BinK::Mul => s.c.mul(w, a, b),
                        BinK::UDiv => s.c.udiv(w, a, b),
                        BinK::SDiv => s.c.sdiv(w, a, b),
                        BinK::URem => s.c.urem(w, a, b),
                        BinK::SRem => s.c.srem(w, a, b),
                        BinK::Shl => s.c.shl(w, a, b),
                        BinK::LShr => s.c.lshr(w, a, b),
                        BinK::AShr => s.c.ashr(w, a, b),
                        BinK::And => s.c.bitop(b'&', w, a, b),
                        BinK::Or => s.c.bitop(b'|', w, a, b),
                        BinK::Xor => s.c.bitop(b'^', w, a, b),
                        BinK::FOp(o) => s.float_op(o, w, a, b)?,
                    })
                })?;
                self.set(st, *d, v);
            }
            Inst::ICmp(p, t, d, a, b) => {
                let (a, b) = (self.get(fr, a), self.get(fr, b));
                let p = *p;
                let v = self.lanes2(t, &a, &b, &mut |s, w, a, b| {
                    let c = &mut s.c;
                    let r = match p {
                        Pred::Eq => c.eq(w, a, b),
                        Pred::Ne => c.eq(w, a, b) ^ 1,
                        Pred::Ult => c.ult(w, a, b),
                        Pred::Uge => c.ult(w, a, b) ^ 1,
                        Pred::Ugt => c.ult(w, b, a),
                        Pred::Ule => c.ult(w, b, a) ^ 1,
                        Pred::Slt => c.slt(w, a, b),
                        Pred::Sge => c.slt(w, a, b) ^ 1,
                        Pred::Sgt => c.slt(w, b, a),
                        Pred::Sle => c.slt(w, b, a) ^ 1,
                    };
                    Ok(c.bool_val(r))
                })?;
                self.set(st, *d, v);
            }
            Inst::FCmp(p, t, d, a, b) => {
                let (a, b) = (self.get(fr, a), self.get(fr, b));
                let v = self.fcmp(p, t, &a, &b)?;
                self.set(st, *d, v);
            }
            Inst::Cast(k, ft, tt, d, a) => {
                let a = self.get(fr, a);
                let v = self.cast(*k, ft, tt, &a)?;
                self.set(st, *d, v);
            }
            Inst::Select(ct, t, d, cv, a, b) => {
                let (cv, a, b) = (self.get(fr, cv), self.get(fr, a), self.get(fr, b));
                let v = self.select(st, ct, t, &cv, &a, &b)?;
                self.set(st, *d, v);
            }
            Inst::Load(t, d, p) => {
                let p = self.get(fr, p);
                let v = self.load(st, t, &p)?;
                self.set(st, *d, v);
            }
            Inst::Store(t, v, p) => {
                let (v, p) = (self.get(fr, v), self.get(fr, p));
                self.store(st, t, &p, &v)?;
            }
            Inst::Gep(d, base, off, dynv) => {
                let mut v = self.get(fr, base);
                for (o, w, scale) in dynv {
                    let i = self.get(fr, o);
                    let i = if *w < 64 { self.c.sext(*w, 64, &i) } else { i };
                    let sc = Val::C(*scale as u128 & mask(64));
                    let t = self.c.mul(64, &i, &sc);
                    v = self.c.add(64, &v, &t);
                }
                let v = self.c.add(64, &v, &Val::C(*off as u128 & mask(64)));
                self.set(st, *d, v);
            }
            Inst::Alloca(d, size, _) => {
                let a = self.alloc(st, *size, false);
                st.frames.last_mut().unwrap().allocas.push((a >> 32) as u32);
                self.set(st, *d, Val::C(a));
            }
            Inst::Call { dst, ret, callee, args, normal, .. } => {
                return self.call(st, *dst, ret, callee, args, *normal);
            }
            Inst::Br(t) => {
                self.goto(st, *t);
                return Ok(());
            }
            Inst::CondBr(v, a, b) => {
                let v = self.get(fr, v);
                let c = self.c.to_bit(&v);
                let t = if c <= 1 { c == T } else { self.branch(st, c)? };
                self.goto(st, if t { *a } else { *b });
                return Ok(());
            }
            Inst::Switch(w, v, def, cases) => {
                let v = self.get(fr, v);
                let v = self.simp_val(st, &v);
                if let Val::C(x) = v {
                    let t = cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def);
                    self.goto(st, t);
                    return Ok(());
                }
                // group cases by target
                let mut seen: Vec<u32> = vec![];
                for (_, t) in cases {
                    if !seen.contains(t) {
                        seen.push(*t);
                    }
                }
                for t in seen {
                    let mut c = F;
                    for (k, t2) in cases {
                        if *t2 == t {
                            let e = self.c.eq(*w, &v, &Val::C(*k));
                            c = self.c.or(c, e);
                        }
                    }
                    if t == *def {
                        continue;
                    }
                    if self.branch(st, c)? {
                        self.goto(st, t);
                        return Ok(());
                    }
                }
                self.goto(st, *def);
                return Ok(());
            }
            Inst::Ret(_, v) => {
                let v = v.as_ref().map(|o| self.get(fr, o));
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.mem[*a as usize] = None;
                    st.free.push(*a);
                }
                if st.frames.is_empty() {
                    // keep one frame for reporting
                    st.ret = v;
                    st.frames.push(fr);
                    return Err(Stop::Exit);
                }
                if let Some(v) = v {
                    self.set(st, fr.dst, v);
                }
                match fr.normal {
                    Some(n) => self.goto(st, n),
                    None => st.frames.last_mut().unwrap().ip += 1,
                }
                return Ok(());
            }
            Inst::Unreachable => return Err(Stop::Error("unreachable code reached".into())),
            Inst::Extract(d, a, ix) => {
                let mut v = self.get(fr, a);
                for i in ix {
                    v = match &v {
                        Val::A(x) => x[*i].clone(),
                        _ => Val::C(0),
                    };
                }
                self.set(st, *d, v);
            }
            Inst::Insert(d, t, a, e, ix) => {
                let v = self.get(fr, a);
                let e = self.get(fr, e);
                let r = insert(&v, t, ix, e);
                self.set(st, *d, r);
            }
            Inst::ExtractElem(d, a, i) => {
                let v = self.get(fr, a);
                let i = self.get(fr, i);
                let i = self.conc(st, &i, 64)?;
                if let Val::A(x) = v {
                    let r = x[i as usize].clone();
                    self.set(st, *d, r);
                }
            }
            Inst::InsertElem(d, t, a, e, i) => {
                let v = self.get(fr, a);
                let e = self.get(fr, e);
                let i = self.get(fr, i);
                let i = self.conc(st, &i, 64)?;
                let r = insert(&v, t, &[i as usize], e);
                self.set(st, *d, r);
            }
            Inst::Shuffle(d, a, b, ix, _) => {
                let (a, b) = (self.get(fr, a), self.get(fr, b));
                if let (Val::A(x), Val::A(y)) = (a, b) {
                    let r = ix.iter().map(|i| if *i < x.len() { x[*i].clone() } else { y[*i - x.len()].clone() }).collect();
                    self.set(st, *d, Val::A(Rc::new(r)));
                }
            }
            Inst::Rmw(k, t, d, p, v) => {
                let (p, v) = (self.get(fr, p), self.get(fr, v));
                let old = self.load(st, t, &p)?;
                let w = t.bits();
                let new = match k.as_str() {
                    "xchg" => v,
                    "add" => self.c.add(w, &old, &v),
                    "sub" => self.c.sub(w, &old, &v),
                    "and" => self.c.bitop(b'&', w, &old, &v),
                    "or" => self.c.bitop(b'|', w, &old, &v),
                    "xor" => self.c.bitop(b'^', w, &old, &v),
                    "umax" => {
                        let l = self.c.ult(w, &old, &v);
                        self.c.ite(w, l, &v, &old)
                    }
                    _ => return Err(Stop::Unsupported(format!("atomicrmw {k}"))),
                };
                self.store(st, t, &p, &new)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg(t, d, p, a, b) => {
                let (p, a, b) = (self.get(fr, p), self.get(fr, a), self.get(fr, b));
                let old = self.load(st, t, &p)?;
                let e = self.c.eq(t.bits(), &old, &a);
                let new = self.c.ite(t.bits(), e, &b, &old);
                self.store(st, t, &p, &new)?;
                let eb = self.c.bool_val(e);
                self.set(st, *d, Val::A(Rc::new(vec![old, eb])));
            }
            Inst::Copy(d, a) => {
                let v = self.get(fr, a);
                self.set(st, *d, v);
            }
            Inst::Nop => {}
            Inst::Bad(s) => return Err(Stop::Unsupported(format!("instruction: {s}"))),
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }
    fn cast(&mut self, k: CastK, ft: &Ty, tt: &Ty, a: &Val) -> R<Val> {
        if let (Ty::Vector(n, fe), Ty::Vector(_, te), true) = (ft, tt, k != CastK::Bit) {
            if let Val::A(x) = a {
                let mut out = vec![];
                for i in 0..*n as usize {
                    out.push(self.cast(k, fe, te, &x[i])?);
                }
                return Ok(Val::A(Rc::new(out)));
            }
        }
        Ok(match k {
            CastK::Trunc => self.c.trunc(ft.bits(), tt.bits(), a),
            CastK::ZExt => self.c.zext(ft.bits(), tt.bits(), a),
            CastK::SExt => self.c.sext(ft.bits(), tt.bits(), a),
            CastK::Bit => {
                if ft.is_scalar() && tt.is_scalar() {
                    let (fw, tw) = (ft.bits(), tt.bits());
                    if fw == tw {
                        a.clone()
                    } else if fw > tw {
                        self.c.trunc(fw, tw, a)
                    } else {
                        self.c.zext(fw, tw, a)
                    }
                } else {
                    // through bits
                    let mut bits = vec![];
                    flatten(&self.c, ft, a, &mut bits);
                    let mut i = 0;
                    unflatten(&self.c, tt, &bits, &mut i)
                }
            }
            CastK::Fp(o) => self.float_cast(o, ft, tt, a)?,
        })
    }
    /// A float operation on symbolic operands is an uninterpreted function of its operands: equal
    /// operands give the same unknown result.
    fn unknown(&mut self, op: u8, w: u32, a: &Val, wa: u32, b: &Val, wb: u32) -> R<Val> {
        if self.in_summary {
            return Err(Stop::Unsupported("float arithmetic".into()));
        }
        let key = (op, w, self.c.bits(a, wa), self.c.bits(b, wb));
        let v = match self.float_ops.get(&key) {
            Some(v) => *v,
            None => {
                let v = self.c.new_var(w, format!("float{}", self.float_ops.len()));
                self.float_ops.insert(key, v);
                v
            }
        };
        let bits = (0..w).map(|k| self.c.input(v, k)).collect();
        Ok(self.c.val(bits))
    }
    fn float_op(&mut self, op: u8, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Some(x), Some(y)) = (a.c(), b.c()) {
            if w == 32 {
                let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                let z = [x + y, x - y, x * y, x / y, x % y][op as usize];
                return Ok(Val::C(z.to_bits() as u128));
            }
            if w == 64 {
                let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                let z = [x + y, x - y, x * y, x / y, x % y][op as usize];
                return Ok(Val::C(z.to_bits() as u128));
            }
        }
        // sums and products do not depend on the order of their operands
        let (mut a, mut b) = (a.clone(), b.clone());
        if (op == 0 || op == 2) && self.c.bits(&a, w) > self.c.bits(&b, w) {
            std::mem::swap(&mut a, &mut b);
        }
        self.unknown(op, w, &a, w, &b, w)
    }
    fn float_cast(&mut self, op: u8, ft: &Ty, tt: &Ty, a: &Val) -> R<Val> {
        let (wf, wt) = (ft.bits(), tt.bits());
        if let Some(x) = a.c() {
            match (op, wf, wt) {
                (1, 32, 64) => return Ok(Val::C((f32::from_bits(x as u32) as f64).to_bits() as u128)),
                (0, 64, 32) => return Ok(Val::C((f64::from_bits(x as u64) as f32).to_bits() as u128)),
                (4, _, 64) => return Ok(Val::C((x as f64).to_bits() as u128)),
                (4, _, 32) => return Ok(Val::C((x as f32).to_bits() as u128)),
                (5, _, 64) => return Ok(Val::C((sext(x, wf) as f64).to_bits() as u128)),
                (5, _, 32) => return Ok(Val::C((sext(x, wf) as f32).to_bits() as u128)),
                _ => {}
            }
        }
        if op > 5 || matches!(a, Val::A(_)) {
            return Err(Stop::Unsupported("float conversion".into()));
        }
        self.unknown(8 + op, wt, a, wf, &Val::C(0), 1)
    }
    fn fcmp(&mut self, p: &str, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        let w = t.bits();
        let (e, m) = match w {
            16 => (5, 10),
            32 => (8, 23),
            _ => (11, 52),
        };
        let _ = e;
        let c = &mut self.c;
        let parts = |c: &mut Ctx, v: &Val| {
            let b = c.bits(v, w);
            let expo: Vec<Bit> = b[m..(w - 1) as usize].to_vec();
            let mant: Vec<Bit> = b[..m].to_vec();
            let mut allone = T;
            for x in expo.iter() {
                allone = c.and(allone, *x);
            }
            let mut any = F;
            for x in mant.iter() {
                any = c.or(any, *x);
            }
            let mut nz = any;
            for x in expo.iter() {
                nz = c.or(nz, *x);
            }
            let nan = c.and(allone, any);
            (nan, nz ^ 1, b[w as usize - 1])
        };
        let (na, za, sa) = parts(c, a);
        let (nb, zb, sb) = parts(c, b);
        let uno = c.or(na, nb);
        let bothz = c.and(za, zb);
        let same = c.eq(w, a, b);
        let eq = c.or(bothz, same);
        // a < b on ordered non-nan values: compare sign/magnitude
        let ult = c.ult(w, a, b);
        let ugt = c.ult(w, b, a);
        let neg_pos = c.and(sa, sb ^ 1);
        let pp = c.and(sa ^ 1, sb ^ 1);
        let nn = c.and(sa, sb);
        let x1 = c.and(pp, ult);
        let x2 = c.and(nn, ugt);
        let x = c.or(x1, x2);
        let x = c.or(x, neg_pos);
        let lt = c.and(x, eq ^ 1);
        let base = match &p[1..] {
            "eq" => eq,
            "ne" => eq ^ 1,
            "lt" => lt,
            "le" => c.or(lt, eq),
            "gt" => {
                let le = c.or(lt, eq);
                le ^ 1
            }
            "ge" => lt ^ 1,
            "rd" => return Ok(c.bool_val(uno ^ 1)),
            "no" => return Ok(c.bool_val(uno)),
            _ => return Err(Stop::Unsupported(format!("fcmp {p}"))),
        };
        let r = if p.starts_with('o') { c.and(base, uno ^ 1) } else { c.or(base, uno) };
        Ok(c.bool_val(r))
    }
    fn select(&mut self, st: &mut State, ct: &Ty, t: &Ty, cv: &Val, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vector(n, _) = ct {
            if let (Val::A(c), Val::A(x), Val::A(y)) = (cv, a, b) {
                let e = t.elem(0);
                let mut out = vec![];
                for i in 0..*n as usize {
                    let cb = self.c.to_bit(&c[i]);
                    out.push(self.c.ite(e.bits(), cb, &x[i], &y[i]));
                }
                return Ok(Val::A(Rc::new(out)));
            }
        }
        let c = self.c.to_bit(cv);
        if c == T {
            return Ok(a.clone());
        }
        if c == F {
            return Ok(b.clone());
        }
        if let (Val::A(_), _) | (_, Val::A(_)) = (a, b) {
            return Ok(if self.branch(st, c)? { a.clone() } else { b.clone() });
        }
        if *t == Ty::Ptr {
            // selects between pointers: fork, so that pointers stay concrete
            if let (Val::C(x), Val::C(y)) = (a, b) {
                if x == y {
                    return Ok(a.clone());
                }
            }
            return Ok(if self.branch(st, c)? { a.clone() } else { b.clone() });
        }
        Ok(self.c.ite(t.bits(), c, a, b))
    }

    fn call(
        &mut self,
        st: &mut State,
        dst: u32,
        ret: &Ty,
        callee: &Callee,
        args: &[(Ty, Op)],
        normal: Option<u32>,
    ) -> R<()> {
        let id = match callee {
            Callee::Direct(i) => *i,
            Callee::Indirect(o) => {
                let v = self.get(st.frames.last().unwrap(), o);
                let a = self.conc(st, &v, 64)?;
                if a & 0xffff_ffff != 0 {
                    return Err(Stop::Error("call through invalid function pointer".into()));
                }
                (a >> 32) as u32
            }
        };
        if id as usize >= self.m.names.len() {
            return Err(Stop::Error("call through invalid function pointer".into()));
        }
        let mut av: Vec<Val> = {
            let fr = st.frames.last().unwrap();
            args.iter().map(|(_, o)| self.get(fr, o)).collect()
        };
        // bit counts handed to the bit stream primitives: one path per value
        if let (Some((Ty::Int(8), _)), Some(Val::S(_)), false) = (args.last(), av.last(), self.in_summary) {
            let n = &self.m.names[id as usize];
            let io = ["14rust_bitwriter", "9bitreader", "write_unsigned_bits", "write_signed_bits", "read_unsigned_bits", "read_signed_bits"];
            if args.len() >= 2 && io.iter().any(|x| n.contains(x)) {
                let v = av.pop().unwrap();
                let x = self.conc(st, &v, 8)?;
                av.push(Val::C(x));
            }
        }
        let mut k = self.kind(id);
        if st.text && matches!(k, Kind::Intr(I::Format)) {
            k = Kind::Defined;
        }
        match k {
            Kind::Defined => {
                let f = self.m.func(id).unwrap();
                self.funcs_used.insert(id);
                if let Some(v) = self.summarised(st, id, &f, ret, args, &av)? {
                    self.set(st, dst, v);
                    match normal {
                        Some(n) => self.goto(st, n),
                        None => st.frames.last_mut().unwrap().ip += 1,
                    }
                    return Ok(());
                }
                let mut regs = vec![Val::C(0); f.nregs as usize];
                for (p, v) in f.params.iter().zip(av) {
                    regs[*p as usize] = v;
                }
                if st.frames.len() > 400 {
                    return Err(Stop::Error("stack overflow (400 frames)".into()));
                }
                st.frames.push(Frame { f, regs, bb: 0, ip: 0, allocas: vec![], dst, normal });
                Ok(())
            }
            Kind::Panic => {
                let name = self.m.pretty.get(&id).cloned().unwrap_or_default();
                let mut msg = String::new();
                if av.len() >= 2 {
                    if let (Val::C(p), Val::C(n)) = (&av[0], &av[1]) {
                        if *n < 400 && (name.ends_with("panicking::panic") || name.contains("expect") || name.contains("unwrap_failed")) {
                            msg = self.cstr(st, *p, *n as usize);
                        }
                    }
                }
                let mut loc = String::new();
                if let Some(Val::C(l)) = av.last() {
                    if let Ok((o, off)) = self.obj(st, *l, 24) {
                        let fp = u64::from_le_bytes(o.data[off..off + 8].try_into().unwrap());
                        let fl = u64::from_le_bytes(o.data[off + 8..off + 16].try_into().unwrap());
                        let ln = u32::from_le_bytes(o.data[off + 16..off + 20].try_into().unwrap());
                        if fl < 400 {
                            loc = format!("{}:{}", self.cstr(st, fp as u128, fl as usize), ln);
                        }
                    }
                }
                Err(Stop::Panic(format!("{name} {msg} @ {loc}")))
            }
            Kind::Unknown => Err(Stop::Unsupported(format!("external function {}", self.m.names[id as usize]))),
            Kind::Intr(i) => {
                let v = self.intrinsic(st, i, ret, args, &av)?;
                if let Some(v) = v {
                    self.set(st, dst, v);
                }
                match normal {
                    Some(n) => self.goto(st, n),
                    None => st.frames.last_mut().unwrap().ip += 1,
                }
                Ok(())
            }
        }
    }

    /// Result of a call to a pure integer function with many paths, as one merged value.
    fn summarised(&mut self, st: &mut State, id: u32, f: &Rc<Func>, ret: &Ty, args: &[(Ty, Op)], av: &[Val]) -> R<Option<Val>> {
        if self.in_summary || !self.lim.merge || f.blocks.len() < 3 || args.is_empty() {
            return Ok(None);
        }
        let int = |t: &Ty| matches!(t, Ty::Int(w) if *w <= 64);
        if !int(ret) || !args.iter().all(|a| int(&a.0)) {
            return Ok(None);
        }
        let mut vals = vec![];
        for v in av {
            vals.push(self.simp_val(st, v));
        }
        if vals.iter().all(|v| matches!(v, Val::C(_))) {
            return Ok(None);
        }
        if !self.sums.contains_key(&id) {
            let s = self.summarise(id, f, ret, args);
            self.sums.insert(id, s.map(Rc::new));
        }
        let s = match &self.sums[&id] {
            Some(s) => s.clone(),
            None => return Ok(None),
        };
        let inp: Vec<Bit> = s
            .order
            .iter()
            .map(|(a, i)| self.c.bits(&vals[*a as usize], args[*a as usize].0.bits())[*i as usize])
            .collect();
        let mut memo = HashMap::new();
        let bad = s.bdd.gates(&mut self.c, s.bad, &inp, &mut memo);
        if self.branch(st, bad)? {
            // some of these arguments end in a panic: follow the code itself
            return Ok(None);
        }
        let mut bits = vec![];
        for b in &s.out {
            bits.push(s.bdd.gates(&mut self.c, *b, &inp, &mut memo));
        }
        *self.sum_uses.entry(id).or_insert(0) += 1;
        Ok(Some(self.c.val(bits)))
    }
    fn summarise(&mut self, id: u32, f: &Rc<Func>, ret: &Ty, args: &[(Ty, Op)]) -> Option<Summary> {
        let saved = std::mem::take(&mut self.work);
        let mut regs = vec![Val::C(0); f.nregs as usize];
        let mut vars = vec![];
        for (k, (p, (t, _))) in f.params.iter().zip(args).enumerate() {
            let w = t.bits();
            let v = self.c.new_var(w, format!("sum{id}_{k}"));
            let bits: Vec<Bit> = (0..w).map(|i| self.c.input(v, i)).collect();
            regs[*p as usize] = self.c.val(bits);
            vars.push((v, w));
        }
        self.work.push(State {
            frames: vec![Frame { f: f.clone(), regs, bb: 0, ip: 0, allocas: vec![], dst: u32::MAX, normal: None }],
            mem: self.const_mem.clone(),
            free: vec![],
            pc: vec![],
            known: HashMap::new(),
            memo: HashMap::new(),
            model: Model::default(),
            inputs: vec![],
            text: false,
            log: vec![],
            insts: 0,
            heap_now: 0,
            heap_peak: 0,
            heap_max_single: 0,
            ret: None,
            pcb: 1,
        });
        // level order: most significant bits first, arguments interleaved
        let mut order = vec![];
        for i in (0..64).rev() {
            for (k, (_, w)) in vars.iter().enumerate() {
                if i < *w {
                    order.push((k as u32, i));
                }
            }
        }
        let vorder: Vec<(u32, u32)> = order.iter().map(|(k, i)| (vars[*k as usize].0, *i)).collect();
        self.sx = SumCx::new();
        self.sx.pos = vorder.iter().enumerate().map(|(l, p)| (*p, l as u32)).collect();
        self.sx.order = vorder;
        self.in_summary = true;
        let t0 = Instant::now();
        let mut leaves: Vec<(B, Option<Val>)> = vec![];
        let mut ok = true;
        while let Some(mut st) = self.work.pop() {
            let stop = self.run_path(&mut st);
            let pure = st.inputs.is_empty() && st.log.is_empty() && st.heap_now == 0;
            match stop {
                Stop::Done if pure && st.ret.is_some() => leaves.push((st.pcb, st.ret.clone())),
                Stop::Panic(_) => leaves.push((st.pcb, None)),
                ref s => {
                    if std::env::var_os("ZSYM_DEBUG").is_some() {
                        eprintln!("summary of {}: {} leaves, stop {:?} pure {} heap {} at {:?}", f.name, leaves.len(), s, pure, st.heap_now, t0.elapsed());
                    }
                    ok = false
                }
            }
            if !ok || leaves.len() > 20_000 || t0.elapsed().as_secs_f64() > 10.0 {
                ok = false;
                break;
            }
        }
        self.in_summary = false;
        self.work = saved;
        let mut sx = std::mem::replace(&mut self.sx, SumCx::new());
        if !ok || leaves.len() <= 12 {
            return None;
        }
        let rw = ret.bits();
        let mut out: Vec<B> = vec![0; rw as usize];
        let mut bad = 0;
        let mut build = || -> R<()> {
            let full = |_| Stop::Exit;
            for (cond, v) in &leaves {
                match v {
                    None => bad = sx.bdd.or(bad, *cond).map_err(full)?,
                    Some(v) => {
                        let bits = self.c.bits(v, rw);
                        for j in 0..rw as usize {
                            if bits[j] == F {
                                continue;
                            }
                            let x = sx.of(&self.c, bits[j])?;
                            let y = sx.and(*cond, x)?;
                            out[j] = sx.bdd.or(out[j], y).map_err(full)?;
                        }
                    }
                }
            }
            Ok(())
        };
        if build().is_err() {
            return None;
        }
        let bdd = sx.bdd;
        Some(Summary { bdd, order, out, bad, leaves: leaves.len() as u64, rw })
    }

    fn sym_var(&mut self, st: &mut State, w: u32) -> u32 {
        let pos = st.inputs.len() as u32;
        let v = match self.vars_by_pos.get(&(pos, w)) {
            Some(v) => *v,
            None => {
                let v = self.c.new_var(w, format!("in{pos}"));
                self.vars_by_pos.insert((pos, w), v);
                v
            }
        };
        st.inputs.push(v);
        v
    }

    fn max_value(&mut self, st: &mut State, v: &Val) -> R<u128> {
        // largest feasible value, by bisection on solver queries
        let mut m = std::mem::take(&mut st.model);
        let mut lo = self.c.eval_val(v, &mut m);
        st.model = m;
        let mut hi = mask(64);
        while lo < hi {
            let mid = lo + (hi - lo + 1) / 2;
            let b = self.c.ult(64, v, &Val::C(mid)) ^ 1;
            let b = self.simp(st, b);
            if b == F {
                hi = mid - 1;
                continue;
            }
            match self.query(st, b)? {
                Some(mut m2) => lo = self.c.eval_val(v, &mut m2),
                None => hi = mid - 1,
            }
        }
        Ok(lo)
    }
    fn alloc_sym(&mut self, st: &mut State, v: &Val) -> R<Val> {
        let v = self.simp_val(st, v);
        let n = match v {
            Val::C(x) => x,
            _ => self.max_value(st, &v)?,
        };
        if n > self.lim.max_alloc as u128 {
            let b = self.c.ult(64, &v, &Val::C(n)) ^ 1;
            if let Some(m) = self.query(st, b)? {
                st.model = m;
            }
            return Err(Stop::Error(format!("allocation of up to {n} bytes")));
        }
        Ok(Val::C(self.alloc(st, n as u64, true)))
    }

    fn intrinsic(&mut self, st: &mut State, i: I, ret: &Ty, args: &[(Ty, Op)], av: &[Val]) -> R<Option<Val>> {
        if let Ty::Vector(n, e) = ret {
            if !matches!(i, I::Memcpy | I::Memset | I::Nop) {
                // element-wise
                let mut out = vec![];
                for k in 0..*n as usize {
                    let sub: Vec<Val> = av
                        .iter()
                        .map(|v| match v {
                            Val::A(x) => x[k].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    let sargs: Vec<(Ty, Op)> = args
                        .iter()
                        .map(|(t, o)| (if let Ty::Vector(_, e) = t { (**e).clone() } else { t.clone() }, o.clone()))
                        .collect();
                    out.push(self.intrinsic(st, i, e, &sargs, &sub)?.unwrap_or(Val::C(0)));
                }
                return Ok(Some(Val::A(Rc::new(out))));
            }
        }
        let w = args.first().map(|a| if a.0.is_scalar() { a.0.bits() } else { 0 }).unwrap_or(0);
        let r = match i {
            I::Nop => return Ok(None),
            I::Zero => Val::C(0),
            I::Expect => av[0].clone(),
            I::IsConst => Val::C(0),
            I::Tls => av[0].clone(),
            I::Assume => return Ok(None),
            I::Trap => return Err(Stop::Panic("abort/trap".into())),
            I::Memcpy => {
                let n = self.conc(st, &av[2], 64)?;
                if n == 0 {
                    return Ok(Some(av[0].clone()));
                }
                let d = self.conc(st, &av[0], 64)?;
                let s = self.conc(st, &av[1], 64)?;
                self.copy(st, d, s, n as u64)?;
                av[0].clone()
            }
            I::Memset => {
                let n = self.conc(st, &av[2], 64)?;
                if n == 0 {
                    return Ok(Some(av[0].clone()));
                }
                let d = self.conc(st, &av[0], 64)?;
                let v = match &av[1] {
                    Val::C(x) => Val::C(x & 0xff),
                    v => {
                        let w = args[1].0.bits();
                        self.c.trunc(w, 8, v)
                    }
                };
                let (o, off) = self.obj_mut(st, d, n as u64)?;
                if let Val::C(x) = v {
                    for k in 0..n as usize {
                        o.data[off + k] = x as u8;
                    }
                    if !o.sym.is_empty() {
                        for k in 0..n as usize {
                            o.sym.remove(&((off + k) as u32));
                        }
                    }
                } else {
                    for k in 0..n as usize {
                        Self::write_scalar(o, off + k, 1, &v, 8);
                    }
                }
                av[0].clone()
            }
            I::Umax | I::Umin => {
                let l = self.c.ult(w, &av[0], &av[1]);
                let l = self.simp(st, l);
                if i == I::Umax {
                    self.c.ite(w, l, &av[1], &av[0])
                } else {
                    self.c.ite(w, l, &av[0], &av[1])
                }
            }
            I::Smax | I::Smin => {
                let l = self.c.slt(w, &av[0], &av[1]);
                let l = self.simp(st, l);
                if i == I::Smax {
                    self.c.ite(w, l, &av[1], &av[0])
                } else {
                    self.c.ite(w, l, &av[0], &av[1])
                }
            }
            I::UsubSat => {
                let l = self.c.ult(w, &av[0], &av[1]);
                let d = self.c.sub(w, &av[0], &av[1]);
                self.c.ite(w, l, &Val::C(0), &d)
            }
            I::UaddSat => {
                let s = self.c.add(w, &av[0], &av[1]);
                let l = self.c.ult(w, &s, &av[0]);
                self.c.ite(w, l, &Val::C(mask(w)), &s)
            }
            I::SsubSat | I::SaddSat => {
                let a = self.c.sext(w, w + 1, &av[0]);
                let b = self.c.sext(w, w + 1, &av[1]);
                let s = if i == I::SsubSat { self.c.sub(w + 1, &a, &b) } else { self.c.add(w + 1, &a, &b) };
                let sb = self.c.bits(&s, w + 1);
                let ov = self.c.xor(sb[w as usize], sb[w as usize - 1]);
                let t = self.c.trunc(w + 1, w, &s);
                let lim = self.c.ite(w, sb[w as usize], &Val::C(1u128 << (w - 1)), &Val::C(mask(w) >> 1));
                self.c.ite(w, ov, &lim, &t)
            }
            I::Ctlz => {
                let v = self.simp_val(st, &av[0]);
                self.c.ctlz(w, &v)
            }
            I::Cttz => {
                let v = self.simp_val(st, &av[0]);
                self.c.cttz(w, &v)
            }
            I::Ctpop => self.c.ctpop(w, &av[0]),
            I::Fshl | I::Fshr => {
                let s = self.c.urem(w, &av[2], &Val::C(w as u128));
                match s {
                    Val::C(0) => {
                        if i == I::Fshl {
                            av[0].clone()
                        } else {
                            av[1].clone()
                        }
                    }
                    _ if w > 64 => return Err(Stop::Unsupported("fsh128".into())),
                    _ => {
                        let hi = self.c.zext(w, 2 * w, &av[0]);
                        let hi = self.c.shl(2 * w, &hi, &Val::C(w as u128));
                        let lo = self.c.zext(w, 2 * w, &av[1]);
                        let x = self.c.bitop(b'|', 2 * w, &hi, &lo);
                        let s2 = self.c.zext(w, 2 * w, &s);
                        if i == I::Fshl {
                            let y = self.c.shl(2 * w, &x, &s2);
                            let y = self.c.lshr(2 * w, &y, &Val::C(w as u128));
                            self.c.trunc(2 * w, w, &y)
                        } else {
                            let y = self.c.lshr(2 * w, &x, &s2);
                            self.c.trunc(2 * w, w, &y)
                        }
                    }
                }
            }
            I::Bswap => {
                let b = self.c.bits(&av[0], w);
                let n = w as usize / 8;
                let mut o = vec![];
                for k in (0..n).rev() {
                    o.extend_from_slice(&b[k * 8..k * 8 + 8]);
                }
                self.c.val(o)
            }
            I::Bitrev => {
                let mut b = self.c.bits(&av[0], w);
                b.reverse();
                self.c.val(b)
            }
            I::Abs => {
                let b = self.c.bits(&av[0], w);
                let n = self.c.sub(w, &Val::C(0), &av[0]);
                self.c.ite(w, b[w as usize - 1], &n, &av[0])
            }
            I::UaddO if w == 128 => {
                let r = self.c.add(w, &av[0], &av[1]);
                let l = self.c.ult(w, &r, &av[0]);
                Val::A(Rc::new(vec![r, self.c.bool_val(l)]))
            }
            // (no value is wider than 128 bits)
            I::SaddO | I::SsubO if w == 128 => {
                let r = if i == I::SaddO { self.c.add(w, &av[0], &av[1]) } else { self.c.sub(w, &av[0], &av[1]) };
                let top = |c: &mut crate::expr::Ctx, v: &Val| c.bits(v, w)[w as usize - 1];
                let (a, b, t) = (top(&mut self.c, &av[0]), top(&mut self.c, &av[1]), top(&mut self.c, &r));
                let mut d = self.c.xor(a, b);
                if i == I::SaddO {
                    d = self.c.xor(d, 1);
                }
                let f = self.c.xor(a, t);
                let ov = self.c.and(d, f);
                Val::A(Rc::new(vec![r, self.c.bool_val(ov)]))
            }
            I::UaddO => {
                let a = self.c.zext(w, w + 1, &av[0]);
                let b = self.c.zext(w, w + 1, &av[1]);
                let s = self.c.add(w + 1, &a, &b);
                let sb = self.c.bits(&s, w + 1);
                let r = self.c.add(w, &av[0], &av[1]);
                Val::A(Rc::new(vec![r, self.c.bool_val(sb[w as usize])]))
            }
            I::UsubO => {
                let l = self.c.ult(w, &av[0], &av[1]);
                let r = self.c.sub(w, &av[0], &av[1]);
                Val::A(Rc::new(vec![r, self.c.bool_val(l)]))
            }
            I::SaddO | I::SsubO => {
                let a = self.c.sext(w, w + 1, &av[0]);
                let b = self.c.sext(w, w + 1, &av[1]);
                let (s, r) = if i == I::SaddO {
                    (self.c.add(w + 1, &a, &b), self.c.add(w, &av[0], &av[1]))
                } else {
                    (self.c.sub(w + 1, &a, &b), self.c.sub(w, &av[0], &av[1]))
                };
                let sb = self.c.bits(&s, w + 1);
                let ov = self.c.xor(sb[w as usize], sb[w as usize - 1]);
                Val::A(Rc::new(vec![r, self.c.bool_val(ov)]))
            }
            I::UmulO => {
                if w > 64 {
                    return Err(Stop::Unsupported("umulo128".into()));
                }
                let a = self.c.zext(w, 2 * w, &av[0]);
                let b = self.c.zext(w, 2 * w, &av[1]);
                let p = self.c.mul(2 * w, &a, &b);
                let pb = self.c.bits(&p, 2 * w);
                let mut ov = F;
                for x in &pb[w as usize..] {
                    ov = self.c.or(ov, *x);
                }
                let r = self.c.mul(w, &av[0], &av[1]);
                Val::A(Rc::new(vec![r, self.c.bool_val(ov)]))
            }
            I::SmulO => {
                if w > 64 {
                    return Err(Stop::Unsupported("smulo128".into()));
                }
                let a = self.c.sext(w, 2 * w, &av[0]);
                let b = self.c.sext(w, 2 * w, &av[1]);
                let p = self.c.mul(2 * w, &a, &b);
                let pb = self.c.bits(&p, 2 * w);
                let mut ov = F;
                for x in &pb[w as usize..] {
                    let d = self.c.xor(*x, pb[w as usize - 1]);
                    ov = self.c.or(ov, d);
                }
                let r = self.c.mul(w, &av[0], &av[1]);
                Val::A(Rc::new(vec![r, self.c.bool_val(ov)]))
            }
            I::Ucmp | I::Scmp => {
                let (l, g) = if i == I::Ucmp {
                    (self.c.ult(w, &av[0], &av[1]), self.c.ult(w, &av[1], &av[0]))
                } else {
                    (self.c.slt(w, &av[0], &av[1]), self.c.slt(w, &av[1], &av[0]))
                };
                let rw = ret.bits();
                let t = self.c.ite(rw, g, &Val::C(1), &Val::C(0));
                self.c.ite(rw, l, &Val::C(mask(rw)), &t)
            }
            I::Bcmp => {
                let n = self.conc(st, &av[2], 64)? as usize;
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let a = self.conc(st, &av[0], 64)?;
                let b = self.conc(st, &av[1], 64)?;
                let (ao, aoff) = self.obj(st, a, n as u64)?;
                let (bo, boff) = self.obj(st, b, n as u64)?;
                let (ao, bo) = (ao.clone(), bo.clone());
                // sign of the first difference (memcmp), 0 when equal
                let mut r = Val::C(0);
                for k in (0..n).rev() {
                    let x = self.read_scalar(&ao, aoff + k, 1, 8);
                    let y = self.read_scalar(&bo, boff + k, 1, 8);
                    let e = self.c.eq(8, &x, &y);
                    if e == T {
                        continue;
                    }
                    let l = self.c.ult(8, &x, &y);
                    let s = self.c.ite(32, l, &Val::C(mask(32)), &Val::C(1));
                    r = self.c.ite(32, e, &r, &s);
                }
                r
            }
            I::Strlen => {
                let a = self.conc(st, &av[0], 64)?;
                let mut n = 0u128;
                loop {
                    let (o, off) = self.obj(st, a + n, 1)?;
                    if o.sym.contains_key(&(off as u32)) {
                        return Err(Stop::Unsupported("strlen symbolic".into()));
                    }
                    if o.data[off] == 0 {
                        break;
                    }
                    n += 1;
                }
                Val::C(n)
            }
            I::Malloc => self.alloc_sym(st, &av[0])?,
            I::Calloc => {
                let n = self.c.mul(64, &av[0], &av[1]);
                self.alloc_sym(st, &n)?
            }
            I::Memalign => {
                let p = self.alloc_sym(st, &av[2])?;
                let t = Ty::Ptr;
                self.store(st, &t, &av[0], &p)?;
                Val::C(0)
            }
            I::Realloc => {
                let old = self.conc(st, &av[0], 64)?;
                let p = self.alloc_sym(st, &av[1])?;
                if old != 0 {
                    let osz = self.obj(st, old, 0)?.0.size;
                    let nsz = self.obj(st, p.c().unwrap(), 0)?.0.size;
                    self.copy(st, p.c().unwrap(), old, osz.min(nsz))?;
                    self.dealloc(st, old)?;
                }
                p
            }
            I::Free => {
                let p = self.conc(st, &av[0], 64)?;
                self.dealloc(st, p)?;
                return Ok(None);
            }
            I::Errno => {
                return Err(Stop::Unsupported("errno".into()));
            }
            I::Format => {
                // String { cap: 0, ptr: 1, len: 0 }
                let t = Ty::Int(64);
                let a = self.conc(st, &av[0], 64)?;
                self.store(st, &t, &Val::C(a), &Val::C(0))?;
                self.store(st, &t, &Val::C(a + 8), &Val::C(1))?;
                self.store(st, &t, &Val::C(a + 16), &Val::C(0))?;
                return Ok(None);
            }
            I::FeatureDetect => Val::C(0),
            I::SymBits => {
                let n = self.conc(st, &av[0], args[0].0.bits())? as u32;
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let v = self.sym_var(st, n);
                let mut bits: Vec<Bit> = (0..n).map(|k| self.c.input(v, k)).collect();
                bits.resize(64, F);
                self.c.val(bits)
            }
            I::SymBytes => {
                let p = self.conc(st, &av[0], 64)?;
                let n = self.conc(st, &av[1], 64)? as u64;
                for k in 0..n {
                    let v = self.sym_var(st, 8);
                    let bits: Vec<Bit> = (0..8).map(|j| self.c.input(v, j)).collect();
                    let val = self.c.val(bits);
                    let (o, off) = self.obj_mut(st, p + k as u128, 1)?;
                    Self::write_scalar(o, off, 1, &val, 8);
                }
                return Ok(None);
            }
            I::SymAssume => {
                let b = self.c.to_bit(&av[0]);
                let b = self.simp(st, b);
                if b == F {
                    return Err(Stop::AssumeFalse);
                }
                if b != T {
                    let mut m = std::mem::take(&mut st.model);
                    let holds = self.c.eval_bit(b, &mut m);
                    st.model = m;
                    if !holds {
                        match self.query(st, b)? {
                            Some(m) => st.model = m,
                            None => return Err(Stop::AssumeFalse),
                        }
                    }
                    self.add_pc(st, b);
                }
                return Ok(None);
            }
            I::SymAssert => {
                let b0 = self.c.to_bit(&av[0]);
                let id = av[1].c().unwrap_or(0) as u64;
                let b = self.simp(st, b0);
                let e = self.asserts.entry(id).or_insert((0, 0));
                if b == T {
                    e.0 += 1;
                    return Ok(None);
                }
                e.1 += 1;
                if b == F {
                    let m = st.model.clone();
                    self.violation(st, "assert", format!("assertion {id}"), &m);
                    return Err(Stop::AssumeFalse);
                }
                if let Some(m) = self.query(st, b ^ 1)? {
                    self.violation(st, "assert", format!("assertion {id}"), &m);
                    // continue on the side where it holds
                    match self.query(st, b)? {
                        Some(m) => {
                            st.model = m;
                            self.add_pc(st, b);
                        }
                        None => return Err(Stop::AssumeFalse),
                    }
                } else {
                    self.learn(st, b);
                }
                return Ok(None);
            }
            I::SymCover => {
                let id = av[0].c().unwrap_or(0) as u64;
                *self.covers.entry(id).or_insert(0) += 1;
                return Ok(None);
            }
            I::SymLog => {
                st.log.push(av[0].clone());
                return Ok(None);
            }
            I::SymConc => {
                let v = self.conc(st, &av[0], 64)?;
                Val::C(v)
            }
            I::SymHeap => Val::C(st.heap_max_single as u128),
            I::SymOpt => {
                let i = self.conc(st, &av[0], 32)? as usize;
                st.text |= i == 1000;
                Val::C(self.lim.opts.get(i).copied().unwrap_or(0) as u128)
            }
        };
        Ok(Some(r))
    }
}

fn insert(v: &Val, t: &Ty, ix: &[usize], e: Val) -> Val {
    if ix.is_empty() {
        return e;
    }
    let mut x: Vec<Val> = match v {
        Val::A(x) => (**x).clone(),
        _ => (0..t.count()).map(|i| t.elem(i).zero()).collect(),
    };
    x[ix[0]] = insert(&x[ix[0]], t.elem(ix[0]), &ix[1..], e);
    Val::A(Rc::new(x))
}
fn flatten(c: &Ctx, t: &Ty, v: &Val, out: &mut Vec<Bit>) {
    match (t, v) {
        (Ty::Vector(_, e), Val::A(x)) => {
            for y in x.iter() {
                flatten(c, e, y, out);
            }
        }
        _ => out.extend(c.bits(v, t.bits())),
    }
}
fn unflatten(c: &Ctx, t: &Ty, b: &[Bit], i: &mut usize) -> Val {
    match t {
        Ty::Vector(n, e) => Val::A(Rc::new((0..*n).map(|_| unflatten(c, e, b, i)).collect())),
        _ => {
            let w = t.bits() as usize;
            let v = c.val(b[*i..*i + w].to_vec());
            *i += w;
            v
        }
    }
}

fn classify(name: &str, pretty: &str, defined: bool) -> Kind {
    use I::*;
    let p = pretty;
    if p.starts_with("core::panicking::")
        || p == "core::result::unwrap_failed"
        || p == "core::option::unwrap_failed"
        || p == "core::option::expect_failed"
        || p.starts_with("core::cell::panic_")
        || p.ends_with("handle_alloc_error")
        || p.starts_with("std::process::abort")
        || p.starts_with("std::panicking::")
        || p.starts_with("alloc::raw_vec::handle_error")
        || p.starts_with("alloc::raw_vec::capacity_overflow")
    {
        return Kind::Panic;
    }
    if p == "alloc::fmt::format::format_inner" {
        return Kind::Intr(Format);
    }
    if p.starts_with("std_detect::detect") {
        return Kind::Intr(FeatureDetect);
    }
    if let Some(r) = name.strip_prefix("llvm.") {
        let has = |s: &str| r.starts_with(s);
        let k = if has("lifetime") || has("experimental.noalias") || has("dbg") || has("x86.sse2.pause") || has("prefetch") {
            Nop
        } else if has("assume") {
            Assume
        } else if has("memcpy") || has("memmove") {
            Memcpy
        } else if has("memset") {
            Memset
        } else if has("umax") {
            Umax
        } else if has("umin") {
            Umin
        } else if has("smax") {
            Smax
        } else if has("smin") {
            Smin
        } else if has("usub.sat") {
            UsubSat
        } else if has("uadd.sat") {
            UaddSat
        } else if has("ssub.sat") {
            SsubSat
        } else if has("sadd.sat") {
            SaddSat
        } else if has("ctlz") {
            Ctlz
        } else if has("cttz") {
            Cttz
        } else if has("ctpop") {
            Ctpop
        } else if has("fshl") {
            Fshl
        } else if has("fshr") {
            Fshr
        } else if has("bswap") {
            Bswap
        } else if has("bitreverse") {
            Bitrev
        } else if has("abs") {
            Abs
        } else if has("uadd.with") {
            UaddO
        } else if has("usub.with") {
            UsubO
        } else if has("umul.with") {
            UmulO
        } else if has("sadd.with") {
            SaddO
        } else if has("ssub.with") {
            SsubO
        } else if has("smul.with") {
            SmulO
        } else if has("ucmp") {
            Ucmp
        } else if has("scmp") {
            Scmp
        } else if has("expect") {
            Expect
        } else if has("is.constant") {
            IsConst
        } else if has("trap") {
            Trap
        } else if has("threadlocal.address") {
            Tls
        } else {
            return Kind::Unknown;
        };
        return Kind::Intr(k);
    }
    if defined {
        return Kind::Defined;
    }
    Kind::Intr(match name {
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "bcmp" | "memcmp" => Bcmp,
        "strlen" => Strlen,
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "posix_memalign" => Memalign,
        "free" => Free,
        "abort" => Trap,
        "__errno_location" => Errno,
        "__cxa_thread_atexit_impl" => Zero,
        "zsym_bits" => SymBits,
        "zsym_bytes" => SymBytes,
        "zsym_assume" => SymAssume,
        "zsym_assert" => SymAssert,
        "zsym_cover" => SymCover,
        "zsym_log" => SymLog,
        "zsym_concretize" => SymConc,
        "zsym_heap_max" => SymHeap,
        "zsym_opt" => SymOpt,
        _ => return Kind::Unknown,
    })
}
pub const _R: &str = REDO;
