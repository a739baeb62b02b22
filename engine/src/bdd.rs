//! Reduced ordered BDDs, used to merge the paths of a pure function into one
//! compact summary (path conditions -> return value).
use crate::expr::*;
use std::collections::HashMap;

pub type B = u32;
pub struct Bdd {
    /// (level, low, high); 0 = false, 1 = true
    pub n: Vec<(u32, B, B)>,
    uniq: HashMap<(u32, B, B), B>,
    cache: HashMap<(B, B, B), B>,
    pub limit: usize,
}
pub struct Full;
type Q = Result<B, Full>;

impl Bdd {
    pub fn new(limit: usize) -> Bdd {
        Bdd { n: vec![(u32::MAX, 0, 0), (u32::MAX, 1, 1)], uniq: HashMap::new(), cache: HashMap::new(), limit }
    }
    pub fn var(&mut self, l: u32) -> Q {
        self.mk(l, 0, 1)
    }
    fn mk(&mut self, l: u32, lo: B, hi: B) -> Q {
        if lo == hi {
            return Ok(lo);
        }
        if let Some(x) = self.uniq.get(&(l, lo, hi)) {
            return Ok(*x);
        }
        if self.n.len() >= self.limit {
            return Err(Full);
        }
        self.n.push((l, lo, hi));
        let i = (self.n.len() - 1) as B;
        self.uniq.insert((l, lo, hi), i);
        Ok(i)
    }
    pub fn ite(&mut self, f: B, g: B, h: B) -> Q {
        if f == 1 || g == h {
            return Ok(g);
        }
        if f == 0 {
            return Ok(h);
        }
        if g == 1 && h == 0 {
            return Ok(f);
        }
        if let Some(x) = self.cache.get(&(f, g, h)) {
            return Ok(*x);
        }
        let l = self.n[f as usize].0.min(self.n[g as usize].0).min(self.n[h as usize].0);
        let co = |s: &Self, x: B, hi: bool| {
            let (xl, a, b) = s.n[x as usize];
            if xl == l {
                if hi { b } else { a }
            } else {
                x
            }
        };
        let (f0, g0, h0) = (co(self, f, false), co(self, g, false), co(self, h, false));
        let (f1, g1, h1) = (co(self, f, true), co(self, g, true), co(self, h, true));
        let lo = self.ite(f0, g0, h0)?;
        let hi = self.ite(f1, g1, h1)?;
        let r = self.mk(l, lo, hi)?;
        self.cache.insert((f, g, h), r);
        Ok(r)
    }
    pub fn and(&mut self, a: B, b: B) -> Q {
        self.ite(a, b, 0)
    }
    pub fn or(&mut self, a: B, b: B) -> Q {
        self.ite(a, 1, b)
    }
    pub fn not(&mut self, a: B) -> Q {
        self.ite(a, 0, 1)
    }
    pub fn xor(&mut self, a: B, b: B) -> Q {
        let nb = self.not(b)?;
        self.ite(a, nb, b)
    }
    /// BDD of a gate-graph bit; `level` maps input bits to levels.
    pub fn of(&mut self, c: &Ctx, b: Bit, level: &dyn Fn(u32, u32) -> Option<u32>, memo: &mut Memo) -> Q {
        let n = b >> 1;
        let v = match memo.bits.get(&n) {
            Some(v) => *v,
            None => {
                let v = match c.nodes[n as usize] {
                    Node::Const => 0,
                    Node::In(v, i) => match level(v, i) {
                        Some(l) => self.var(l)?,
                        None => return Err(Full),
                    },
                    Node::And(x, y) => {
                        let x = self.of(c, x, level, memo)?;
                        let y = self.of(c, y, level, memo)?;
                        self.and(x, y)?
                    }
                    Node::Xor(x, y) => {
                        let x = self.of(c, x, level, memo)?;
                        let y = self.of(c, y, level, memo)?;
                        self.xor(x, y)?
                    }
                    Node::Mux(s, x, y) => {
                        let s = self.of(c, s, level, memo)?;
                        let x = self.of(c, x, level, memo)?;
                        let y = self.of(c, y, level, memo)?;
                        self.ite(s, x, y)?
                    }
                    Node::W(w, i) => self.word(c, w, level, memo)?[i as usize],
                };
                memo.bits.insert(n, v);
                v
            }
        };
        if b & 1 == 1 {
            self.not(v)
        } else {
            Ok(v)
        }
    }
    fn word(&mut self, c: &Ctx, w: u32, level: &dyn Fn(u32, u32) -> Option<u32>, memo: &mut Memo) -> Result<Vec<B>, Full> {
        if let Some(v) = memo.words.get(&w) {
            return Ok(v.clone());
        }
        let r = match &c.words[w as usize] {
            Word::Lin { w: wd, k, terms } => {
                let mut acc: Vec<B> = (0..*wd).map(|i| (k >> i & 1) as B).collect();
                for (co, a) in terms {
                    let mut x = vec![];
                    for b in c.atoms[*a as usize].iter() {
                        x.push(self.of(c, *b, level, memo)?);
                    }
                    let neg = co.wrapping_neg() & mask(*wd);
                    let (m, sub) = if neg.count_ones() < co.count_ones() { (neg, true) } else { (*co, false) };
                    for s in 0..*wd {
                        if m >> s & 1 == 1 {
                            let mut y: Vec<B> = vec![0; s as usize];
                            y.extend_from_slice(&x[..(*wd - s) as usize]);
                            acc = self.add(&acc, &y, sub)?;
                        }
                    }
                }
                acc
            }
            Word::Bin { .. } => return Err(Full),
        };
        memo.words.insert(w, r.clone());
        Ok(r)
    }
    fn add(&mut self, a: &[B], b: &[B], sub: bool) -> Result<Vec<B>, Full> {
        let mut carry: B = sub as B;
        let mut out = vec![];
        for i in 0..a.len() {
            let y = if sub { self.not(b[i])? } else { b[i] };
            let t = self.xor(a[i], y)?;
            out.push(self.xor(t, carry)?);
            let g = self.and(a[i], y)?;
            let p = self.and(t, carry)?;
            carry = self.or(g, p)?;
        }
        Ok(out)
    }
    /// Gate-graph form of a BDD, with `inp[level]` substituted for the variables.
    pub fn gates(&self, c: &mut Ctx, b: B, inp: &[Bit], memo: &mut HashMap<B, Bit>) -> Bit {
        if b <= 1 {
            return b;
        }
        if let Some(x) = memo.get(&b) {
            return *x;
        }
        let (l, lo, hi) = self.n[b as usize];
        let s = inp[l as usize];
        let r = if s == F {
            self.gates(c, lo, inp, memo)
        } else if s == T {
            self.gates(c, hi, inp, memo)
        } else {
            let x = self.gates(c, hi, inp, memo);
            let y = self.gates(c, lo, inp, memo);
            c.mux(s, x, y)
        };
        memo.insert(b, r);
        r
    }
}
#[derive(Default)]
pub struct Memo {
    pub bits: HashMap<u32, B>,
    pub words: HashMap<u32, Vec<B>>,
}
