//! Z3 back end (C API).  Gates become Boolean terms, word-level sums/products
//! become bit-vector terms.  Each query is the conjunction of the literals it
//! is given, checked under assumptions in one incremental context.
use crate::expr::*;
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_iff(c: P, a: P, b: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvneg(c: P, a: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_ast_to_string(c: P, s: P) -> *const c_char;
}

pub enum Ans {
    Sat(Model),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    s: P,
    boolsort: P,
    bitsort: P,
    b1: P,
    b0: P,
    defs: HashMap<u32, P>,
    words: HashMap<u32, P>,
    atoms: HashMap<u32, P>,
    inputs: Vec<(u32, u32, P)>,
    ninputs: HashMap<(u32, u32), P>,
    fresh: i32,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cached: u64,
    pub ms: f64,
    pub max_ms: f64,
    cache: HashMap<Vec<Bit>, bool>,
    timeout_ms: u32,
    limit: usize,
    stamp: Vec<u32>,
    now: u32,
    pub dump: Option<(std::path::PathBuf, u32)>,
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        let mut s = Solver {
            ctx: std::ptr::null_mut(),
            s: std::ptr::null_mut(),
            boolsort: std::ptr::null_mut(),
            bitsort: std::ptr::null_mut(),
            b1: std::ptr::null_mut(),
            b0: std::ptr::null_mut(),
            defs: HashMap::new(),
            words: HashMap::new(),
            atoms: HashMap::new(),
            inputs: vec![],
            ninputs: HashMap::new(),
            fresh: 0,
            queries: 0,
            sat: 0,
            unsat: 0,
            cached: 0,
            ms: 0.0,
            max_ms: 0.0,
            cache: HashMap::new(),
            timeout_ms,
            limit: std::env::var("ZSYM_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(30),
            dump: None,
            stamp: vec![],
            now: 0,
        };
        s.reset();
        s
    }
    fn reset(&mut self) {
        unsafe {
            if !self.ctx.is_null() {
                Z3_del_context(self.ctx);
            }
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            let l = std::ffi::CString::new("QF_FD").unwrap();
            let sym = Z3_mk_string_symbol(self.ctx, l.as_ptr());
            self.s = Z3_mk_solver_for_logic(self.ctx, sym);
            Z3_solver_inc_ref(self.ctx, self.s);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = std::ffi::CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.s, p);
            self.boolsort = Z3_mk_bool_sort(self.ctx);
            self.bitsort = Z3_mk_bv_sort(self.ctx, 1);
            self.b1 = self.num(1, 1);
            self.b0 = self.num(0, 1);
        }
        self.defs.clear();
        self.words.clear();
        self.atoms.clear();
        self.inputs.clear();
        self.ninputs.clear();
        self.fresh = 0;
    }
    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            let s = std::ffi::CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.ctx, s.as_ptr(), Z3_mk_bv_sort(self.ctx, w))
        }
    }
    fn fresh_bool(&mut self) -> P {
        self.fresh += 1;
        unsafe {
            let sym = Z3_mk_int_symbol(self.ctx, self.fresh);
            Z3_mk_const(self.ctx, sym, self.boolsort)
        }
    }
    fn lit(&mut self, c: &Ctx, b: Bit) -> P {
        unsafe {
            if b == T {
                return Z3_mk_true(self.ctx);
            }
            if b == F {
                return Z3_mk_false(self.ctx);
            }
            let p = self.node(c, b >> 1);
            if b & 1 == 1 {
                Z3_mk_not(self.ctx, p)
            } else {
                p
            }
        }
    }
    fn node(&mut self, c: &Ctx, n: u32) -> P {
        if let Some(p) = self.defs.get(&n) {
            return *p;
        }
        unsafe {
            let r = match c.nodes[n as usize] {
                Node::Const => Z3_mk_false(self.ctx),
                Node::In(v, i) => {
                    let p = self.fresh_bool();
                    self.inputs.push((v, i, p));
                    self.ninputs.insert((v, i), p);
                    p
                }
                Node::And(a, b) => {
                    let x = [self.lit(c, a), self.lit(c, b)];
                    let d = Z3_mk_and(self.ctx, 2, x.as_ptr());
                    self.named(d)
                }
                Node::Xor(a, b) => {
                    let x = self.lit(c, a);
                    let y = self.lit(c, b);
                    let d = Z3_mk_xor(self.ctx, x, y);
                    self.named(d)
                }
                Node::Mux(s, t, e) => {
                    let s = self.lit(c, s);
                    let t = self.lit(c, t);
                    let e = self.lit(c, e);
                    let d = Z3_mk_ite(self.ctx, s, t, e);
                    self.named(d)
                }
                Node::W(w, i) => {
                    let p = self.word(c, w);
                    let e = Z3_mk_extract(self.ctx, i, i, p);
                    let d = Z3_mk_eq(self.ctx, e, self.b1);
                    self.named(d)
                }
            };
            self.defs.insert(n, r);
            r
        }
    }
    fn named(&mut self, d: P) -> P {
        unsafe {
            let p = self.fresh_bool();
            let q = Z3_mk_iff(self.ctx, p, d);
            Z3_solver_assert(self.ctx, self.s, q);
            p
        }
    }
    fn atom(&mut self, c: &Ctx, a: u32) -> P {
        if let Some(p) = self.atoms.get(&a) {
            return *p;
        }
        let bits = c.atoms[a as usize].clone();
        unsafe {
            let mut acc: P = std::ptr::null_mut();
            for b in bits.iter().rev() {
                let t = if *b == T {
                    self.b1
                } else if *b == F {
                    self.b0
                } else {
                    let l = self.lit(c, *b);
                    Z3_mk_ite(self.ctx, l, self.b1, self.b0)
                };
                acc = if acc.is_null() { t } else { Z3_mk_concat(self.ctx, acc, t) };
            }
            let _ = self.bitsort;
            self.atoms.insert(a, acc);
            acc
        }
    }
    fn word(&mut self, c: &Ctx, w: u32) -> P {
        if let Some(p) = self.words.get(&w) {
            return *p;
        }
        let wd = c.words[w as usize].clone();
        unsafe {
            let (d, width) = match wd {
                Word::Lin { w, k, terms } => {
                    let mut acc = if k == 0 { std::ptr::null_mut() } else { self.num(k, w) };
                    for (co, a) in terms {
                        let x = self.atom(c, a);
                        let t = if co == 1 {
                            x
                        } else if co == mask(w) {
                            Z3_mk_bvneg(self.ctx, x)
                        } else {
                            let n = self.num(co, w);
                            Z3_mk_bvmul(self.ctx, x, n)
                        };
                        acc = if acc.is_null() { t } else { Z3_mk_bvadd(self.ctx, acc, t) };
                    }
                    (acc, w)
                }
                Word::Bin { op, w, a, b } => {
                    let x = self.atom(c, a);
                    let y = self.atom(c, b);
                    (
                        match op {
                            WOp::Mul => Z3_mk_bvmul(self.ctx, x, y),
                            WOp::UDiv => Z3_mk_bvudiv(self.ctx, x, y),
                            WOp::URem => Z3_mk_bvurem(self.ctx, x, y),
                            WOp::SDiv => Z3_mk_bvsdiv(self.ctx, x, y),
                            WOp::SRem => Z3_mk_bvsrem(self.ctx, x, y),
                        },
                        w,
                    )
                }
            };
            self.fresh += 1;
            let sym = Z3_mk_int_symbol(self.ctx, self.fresh);
            let v = Z3_mk_const(self.ctx, sym, Z3_mk_bv_sort(self.ctx, width));
            let q = Z3_mk_eq(self.ctx, v, d);
            Z3_solver_assert(self.ctx, self.s, q);
            self.words.insert(w, v);
            v
        }
    }
    /// Number of gates the query depends on.
    fn cone(&mut self, c: &Ctx, lits: &[Bit]) -> usize {
        self.stamp.resize(c.nodes.len(), 0);
        self.now += 1;
        let mut n = 0;
        let mut st: Vec<u32> = lits.iter().map(|b| b >> 1).collect();
        let mut words = std::collections::HashSet::new();
        while let Some(x) = st.pop() {
            if self.stamp[x as usize] == self.now {
                continue;
            }
            self.stamp[x as usize] = self.now;
            n += 1;
            match c.nodes[x as usize] {
                Node::Const | Node::In(..) => {}
                Node::And(a, b) | Node::Xor(a, b) => st.extend([a >> 1, b >> 1]),
                Node::Mux(a, b, d) => st.extend([a >> 1, b >> 1, d >> 1]),
                Node::W(w, _) => {
                    if words.insert(w) {
                        for a in c.word_atoms(w) {
                            st.extend(c.atoms[a as usize].iter().map(|b| b >> 1));
                        }
                    }
                }
            }
        }
        n
    }
    /// Is the conjunction of `lits` satisfiable?  On SAT the returned model
    /// starts from `base` (values of inputs the query does not mention).
    pub fn check(&mut self, c: &Ctx, lits: &[Bit], base: &Model) -> Ans {
        let mut key: Vec<Bit> = lits.to_vec();
        key.sort();
        key.dedup();
        if key.contains(&F) {
            return Ans::Unsat;
        }
        if let Some(false) = self.cache.get(&key) {
            self.cached += 1;
            return Ans::Unsat;
        }
        if self.defs.len() > 200 && self.defs.len() > self.limit * self.cone(c, &key) / 10 {
            self.reset();
        }
        let t0 = Instant::now();
        let ps: Vec<P> = key.iter().filter(|b| **b != T).map(|b| self.lit(c, *b)).collect();
        let r = unsafe { Z3_solver_check_assumptions(self.ctx, self.s, ps.len() as c_uint, ps.as_ptr()) };
        let ans = match r {
            1 => unsafe {
                let m = Z3_solver_get_model(self.ctx, self.s);
                Z3_model_inc_ref(self.ctx, m);
                // inputs in the cone of the query take the solver's value
                let mut sup = 0u128;
                for b in &key {
                    sup |= c.supp[(*b >> 1) as usize];
                }
                let mut model = Model { vals: base.vals.clone(), cache: vec![], words: HashMap::new() };
                for (v, i, p) in &self.inputs {
                    if sup >> (v % 128) & 1 == 0 {
                        continue;
                    }
                    let mut o: P = std::ptr::null_mut();
                    if Z3_model_eval(self.ctx, m, *p, true, &mut o) {
                        let bv = Z3_get_bool_value(self.ctx, o) == 1;
                        if model.vals.len() <= *v as usize {
                            model.vals.resize(*v as usize + 1, 0);
                        }
                        let x = &mut model.vals[*v as usize];
                        if bv {
                            *x |= 1u128 << i;
                        } else {
                            *x &= !(1u128 << i);
                        }
                    }
                }
                Z3_model_dec_ref(self.ctx, m);
                self.sat += 1;
                Ans::Sat(model)
            },
            -1 => {
                self.unsat += 1;
                self.cache.insert(key.clone(), false);
                Ans::Unsat
            }
            _ => Ans::Unknown,
        };
        self.queries += 1;
        let ms = t0.elapsed().as_secs_f64() * 1e3;
        self.ms += ms;
        if ms > self.max_ms {
            self.max_ms = ms;
        }
        if let Ans::Unsat = ans {
            self.maybe_dump(&ps);
        }
        ans
    }
    /// Writes UNSAT queries as SMT-LIB2 so that a second solver can confirm them.
    fn maybe_dump(&mut self, ps: &[P]) {
        if let Some((dir, left)) = &mut self.dump {
            if *left == 0 {
                return;
            }
            *left -= 1;
            let id = *left;
            unsafe {
                let mut s = String::from("(set-logic QF_BV)\n");
                s.push_str(&std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.s)).to_string_lossy());
                for p in ps {
                    s.push_str(&format!(
                        "(assert {})\n",
                        std::ffi::CStr::from_ptr(Z3_ast_to_string(self.ctx, *p)).to_string_lossy()
                    ));
                }
                s.push_str("(check-sat)\n");
                let _ = std::fs::write(dir.join(format!("q{id}.smt2")), s);
            }
        }
    }
}
