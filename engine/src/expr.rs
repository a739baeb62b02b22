//! Symbolic values.  A value is either concrete or a vector of *bits*; a bit is
//! a literal over a hash-consed graph of gates (AND / XOR / MUX), input bits
//! and bits of word-level terms (linear sums, products, quotients).  Shifts and
//! masks by constants, (zero/sign) extension, byte-wise loads and stores are
//! therefore pure re-wiring; additive arithmetic is kept in linear normal form.
use std::collections::HashMap;
use std::rc::Rc;

pub type Bit = u32;
pub const F: Bit = 0;
pub const T: Bit = 1;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const,
    In(u32, u32),
    And(Bit, Bit),
    Xor(Bit, Bit),
    Mux(Bit, Bit, Bit),
    W(u32, u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Word {
    Lin { w: u32, k: u128, terms: Vec<(u128, u32)> },
    Bin { op: WOp, w: u32, a: u32, b: u32 },
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum WOp {
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(Rc<[Bit]>),
    A(Rc<Vec<Val>>),
}

impl Val {
    pub fn c(&self) -> Option<u128> {
        if let Val::C(x) = self {
            Some(*x)
        } else {
            None
        }
    }
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

#[derive(Clone, Debug)]
pub struct Var {
    pub w: u32,
    pub name: String,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub supp: Vec<u128>,
    cons: HashMap<Node, u32>,
    pub words: Vec<Word>,
    wcons: HashMap<Word, u32>,
    pub atoms: Vec<Rc<[Bit]>>,
    acons: HashMap<Rc<[Bit]>, u32>,
    lin_res: HashMap<Rc<[Bit]>, u32>,
    /// lowest (non-constant) bits of a sum -> the whole sums that start so
    lin_low: HashMap<(Bit, Bit), Vec<Rc<[Bit]>>>,
    pub vars: Vec<Var>,
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            nodes: vec![Node::Const],
            supp: vec![0],
            cons: HashMap::new(),
            words: vec![],
            wcons: HashMap::new(),
            atoms: vec![],
            acons: HashMap::new(),
            lin_res: HashMap::new(),
            lin_low: HashMap::new(),
            vars: vec![],
        }
    }
    fn mk(&mut self, n: Node) -> Bit {
        if let Some(&i) = self.cons.get(&n) {
            return i << 1;
        }
        let s = match n {
            Node::Const => 0,
            Node::In(v, _) => 1u128 << (v % 128),
            Node::And(a, b) | Node::Xor(a, b) => {
                self.supp[(a >> 1) as usize] | self.supp[(b >> 1) as usize]
            }
            Node::Mux(a, b, c) => {
                self.supp[(a >> 1) as usize]
                    | self.supp[(b >> 1) as usize]
                    | self.supp[(c >> 1) as usize]
            }
            Node::W(w, _) => {
                let mut s = 0;
                for a in self.word_atoms(w) {
                    for b in self.atoms[a as usize].iter() {
                        s |= self.supp[(*b >> 1) as usize];
                    }
                }
                s
            }
        };
        let i = self.nodes.len() as u32;
        self.nodes.push(n);
        self.supp.push(s);
        self.cons.insert(n, i);
        i << 1
    }
    pub fn word_atoms(&self, w: u32) -> Vec<u32> {
        match &self.words[w as usize] {
            Word::Lin { terms, .. } => terms.iter().map(|t| t.1).collect(),
            Word::Bin { a, b, .. } => vec![*a, *b],
        }
    }
    pub fn new_var(&mut self, w: u32, name: String) -> u32 {
        self.vars.push(Var { w, name });
        (self.vars.len() - 1) as u32
    }
    pub fn input(&mut self, var: u32, i: u32) -> Bit {
        self.mk(Node::In(var, i))
    }
    pub fn and(&mut self, a: Bit, b: Bit) -> Bit {
        if a == F || b == F || a == (b ^ 1) {
            return F;
        }
        if a == T || a == b {
            return b;
        }
        if b == T {
            return a;
        }
        for (x, y) in [(a, b), (b, a)] {
            // x & (y1 & y2)
            if let Node::And(p, q) = self.nodes[(y >> 1) as usize] {
                if y & 1 == 0 {
                    if p == x || q == x {
                        return y;
                    }
                    if p == x ^ 1 || q == x ^ 1 {
                        return F;
                    }
                } else {
                    if p == x {
                        return self.and(x, q ^ 1);
                    }
                    if q == x {
                        return self.and(x, p ^ 1);
                    }
                    if p == x ^ 1 || q == x ^ 1 {
                        return x;
                    }
                }
            }
            if let Node::Mux(s, t, e) = self.nodes[(y >> 1) as usize] {
                if s == x {
                    return self.and(x, t ^ (y & 1));
                }
                if s == x ^ 1 {
                    return self.and(x, e ^ (y & 1));
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Node::And(a, b))
    }
    pub fn or(&mut self, a: Bit, b: Bit) -> Bit {
        self.and(a ^ 1, b ^ 1) ^ 1
    }
    pub fn xor(&mut self, a: Bit, b: Bit) -> Bit {
        if a >> 1 == 0 {
            return b ^ (a & 1);
        }
        if b >> 1 == 0 {
            return a ^ (b & 1);
        }
        let n = (a ^ b) & 1;
        let (a, b) = (a & !1, b & !1);
        if a == b {
            return n;
        }
        // xor(x, xor(x,y)) = y
        for (x, y) in [(a, b), (b, a)] {
            if let Node::Xor(p, q) = self.nodes[(y >> 1) as usize] {
                if p == x {
                    return q ^ n;
                }
                if q == x {
                    return p ^ n;
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Node::Xor(a, b)) ^ n
    }
    pub fn mux(&mut self, s: Bit, t: Bit, e: Bit) -> Bit {
        if s == T || t == e {
            return t;
        }
        if s == F {
            return e;
        }
        if s & 1 == 1 {
            return self.mux(s ^ 1, e, t);
        }
        if t == s {
            return self.or(s, e);
        }
        if t == s ^ 1 {
            return self.and(s ^ 1, e);
        }
        if e == s {
            return self.and(s, t);
        }
        if e == s ^ 1 {
            return self.or(s ^ 1, t);
        }
        if t == T {
            return self.or(s, e);
        }
        if t == F {
            return self.and(s ^ 1, e);
        }
        if e == T {
            return self.or(s ^ 1, t);
        }
        if e == F {
            return self.and(s, t);
        }
        if t == e ^ 1 {
            return self.xor(s, e);
        }
        // nested mux on the same selector
        let t = if let Node::Mux(s2, t2, _) = self.nodes[(t >> 1) as usize] {
            if s2 == s {
                t2 ^ (t & 1)
            } else {
                t
            }
        } else {
            t
        };
        let e = if let Node::Mux(s2, _, e2) = self.nodes[(e >> 1) as usize] {
            if s2 == s {
                e2 ^ (e & 1)
            } else {
                e
            }
        } else {
            e
        };
        if t == e {
            return t;
        }
        let n = t & 1;
        let (t, e) = (t ^ n, e ^ n);
        if t <= 1 || e <= 1 {
            return self.mux(s, t, e) ^ n;
        }
        self.mk(Node::Mux(s, t, e)) ^ n
    }

    // ---- vectors -------------------------------------------------------
    pub fn val(&self, bits: Vec<Bit>) -> Val {
        if bits.len() <= 128 && bits.iter().all(|b| *b <= 1) {
            let mut x = 0u128;
            for (i, b) in bits.iter().enumerate() {
                x |= (*b as u128) << i;
            }
            Val::C(x)
        } else {
            Val::S(bits.into())
        }
    }
    pub fn bits(&self, v: &Val, w: u32) -> Vec<Bit> {
        match v {
            Val::C(x) => (0..w)
                .map(|i| if i < 128 { ((x >> i) & 1) as Bit } else { F })
                .collect(),
            Val::S(b) => {
                debug_assert_eq!(b.len(), w as usize);
                b.to_vec()
            }
            Val::A(_) => panic!("bits of aggregate"),
        }
    }
    pub fn bool_val(&self, b: Bit) -> Val {
        if b <= 1 {
            Val::C(b as u128)
        } else {
            Val::S(vec![b].into())
        }
    }
    pub fn to_bit(&self, v: &Val) -> Bit {
        match v {
            Val::C(x) => (*x & 1) as Bit,
            Val::S(b) => b[0],
            _ => panic!(),
        }
    }
    pub fn atom(&mut self, bits: &[Bit]) -> u32 {
        if let Some(&a) = self.acons.get(bits) {
            return a;
        }
        let rc: Rc<[Bit]> = bits.into();
        let i = self.atoms.len() as u32;
        self.atoms.push(rc.clone());
        self.acons.insert(rc, i);
        i
    }
    fn word(&mut self, w: Word) -> u32 {
        if let Some(&i) = self.wcons.get(&w) {
            return i;
        }
        let i = self.words.len() as u32;
        self.words.push(w.clone());
        self.wcons.insert(w, i);
        i
    }
    fn trunc_lin(&mut self, w: u32, k: u128, terms: Vec<(u128, u32)>) -> (u128, Vec<(u128, u32)>) {
        let mut kk = k & mask(w);
        let mut out: Vec<(u128, u32)> = vec![];
        for (c, a) in terms {
            let tb: Vec<Bit> = self.atoms[a as usize][..w as usize].to_vec();
            let (k2, t2) = self.lin_of(&tb);
            kk = kk.wrapping_add(c.wrapping_mul(k2)) & mask(w);
            for (c2, a2) in t2 {
                out.push((c.wrapping_mul(c2) & mask(w), a2));
            }
        }
        (kk, norm_terms(out, w))
    }
    fn lin_of(&mut self, bits: &[Bit]) -> (u128, Vec<(u128, u32)>) {
        let w = bits.len() as u32;
        if let Some(&wd) = self.lin_res.get(bits) {
            if let Word::Lin { k, terms, .. } = &self.words[wd as usize] {
                return (*k, terms.clone());
            }
        }
        // truncation of a wider sum
        if bits.len() > 1 {
            if let Some(cs) = self.lin_low.get(&(bits[0], bits[1])) {
                if let Some(c) = cs.iter().find(|c| c.len() > bits.len() && c[..bits.len()] == *bits).cloned() {
                    let wd = self.lin_res[&c];
                    if let Word::Lin { k, terms, .. } = self.words[wd as usize].clone() {
                        // (low bits may be those of one of the terms itself)
                        if terms.iter().all(|t| self.atoms[t.1 as usize][..bits.len()] != *bits) {
                            return self.trunc_lin(w, k, terms);
                        }
                    }
                }
            }
        }
        // truncation of a linear word
        if bits[0] > 1 && bits[0] & 1 == 0 {
            if let Node::W(wd, 0) = self.nodes[(bits[0] >> 1) as usize] {
                let ok = bits.iter().enumerate().all(|(i, b)| {
                    b & 1 == 0 && self.nodes[(*b >> 1) as usize] == Node::W(wd, i as u32)
                });
                if ok {
                    if let Word::Lin { k, terms, w: ww } = self.words[wd as usize].clone() {
                        if ww == w {
                            return (k, terms);
                        }
                        if ww > w {
                            return self.trunc_lin(w, k, terms);
                        }
                    }
                }
            }
        }
        let mut k = 0u128;
        let mut ab = bits.to_vec();
        for (i, b) in ab.iter_mut().enumerate() {
            if *b == T {
                k |= 1u128 << i;
                *b = F;
            }
        }
        if ab.iter().all(|b| *b == F) {
            return (k, vec![]);
        }
        let a = self.atom(&ab);
        (k, vec![(1, a)])
    }
    fn lin_val(&mut self, w: u32, k: u128, terms: Vec<(u128, u32)>) -> Val {
        let k = k & mask(w);
        if terms.is_empty() {
            return Val::C(k);
        }
        // disjoint supports -> OR
        let all_one = terms.iter().all(|t| t.0 == 1);
        if all_one {
            let mut used: Vec<Bit> = (0..w).map(|i| ((k >> i) & 1) as Bit).collect();
            let mut ok = true;
            'o: for (_, a) in &terms {
                let at = self.atoms[*a as usize].clone();
                for i in 0..w as usize {
                    if at[i] != F {
                        if used[i] != F {
                            ok = false;
                            break 'o;
                        }
                        used[i] = at[i];
                    }
                }
            }
            if ok {
                let v = self.val(used.clone());
                if terms.len() > 1 {
                    let wd = self.word(Word::Lin { w, k, terms });
                    self.lin_res.insert(used.into(), wd);
                }
                return v;
            }
        }
        if w > 1 && terms[0].0 >> (w - 1) & 1 == 1 && terms[0].0 != 1u128 << (w - 1) {
            // -p as gates over the bits of p: ~p + 1
            let pt: Vec<(u128, u32)> = terms.iter().map(|t| (t.0.wrapping_neg() & mask(w), t.1)).collect();
            let p = self.lin_val(w, k.wrapping_neg() & mask(w), pt);
            let pb = self.bits(&p, w);
            let mut carry = T;
            let mut out = vec![];
            for b in pb {
                out.push(self.xor(b ^ 1, carry));
                carry = self.and(b ^ 1, carry);
            }
            let wd = self.word(Word::Lin { w, k, terms });
            let rc: Rc<[Bit]> = out.into();
            self.note_lin(&rc, wd);
            return Val::S(rc);
        }
        let wd = self.word(Word::Lin { w, k, terms: terms.clone() });
        let mut out: Vec<Bit> = Vec::with_capacity(w as usize);
        let mut low = all_one;
        for i in 0..w {
            if low {
                let kb = ((k >> i) & 1) as Bit;
                let mut cur = kb;
                let mut n = if kb == F { 0 } else { 1 };
                for (_, a) in &terms {
                    let b = self.atoms[*a as usize][i as usize];
                    if b != F {
                        n += 1;
                        cur = b;
                    }
                }
                if n <= 1 {
                    out.push(cur);
                    continue;
                }
                low = false;
            }
            let b = self.mk(Node::W(wd, i));
            out.push(b);
        }
        if w == 1 {
            // 1-bit sums are xors
            let mut b = (k & 1) as Bit;
            for (c, a) in &terms {
                if c & 1 == 1 {
                    let x = self.atoms[*a as usize][0];
                    b = self.xor(b, x);
                }
            }
            return self.bool_val(b);
        }
        let rc: Rc<[Bit]> = out.into();
        self.note_lin(&rc, wd);
        Val::S(rc)
    }
    fn note_lin(&mut self, rc: &Rc<[Bit]>, wd: u32) {
        if self.lin_res.insert(rc.clone(), wd).is_none() && rc.len() > 4 {
            self.lin_low.entry((rc[0], rc[1])).or_default().push(rc.clone());
        }
    }
    /// A sum of the same width whose low bits are the low bits of `v`, while
    /// its high bits differ (an extension of a truncation of the sum).
    pub fn lin_cand(&self, v: &Val, w: u32) -> Option<Val> {
        let Val::S(b) = v else { return None };
        if w < 5 || self.lin_res.contains_key(&b[..]) {
            return None;
        }
        for c in self.lin_low.get(&(b[0], b[1]))? {
            if c.len() == w as usize && c[..] != b[..] {
                return Some(Val::S(c.clone()));
            }
        }
        None
    }
    fn lin_comb(&mut self, w: u32, a: &Val, ca: u128, b: &Val, cb: u128) -> Val {
        let ab = self.bits(a, w);
        let bb = self.bits(b, w);
        let (ka, ta) = self.lin_of(&ab);
        let (kb, tb) = self.lin_of(&bb);
        let k = ka.wrapping_mul(ca).wrapping_add(kb.wrapping_mul(cb)) & mask(w);
        let mut t: Vec<(u128, u32)> = vec![];
        for (c, x) in ta {
            t.push((c.wrapping_mul(ca) & mask(w), x));
        }
        for (c, x) in tb {
            t.push((c.wrapping_mul(cb) & mask(w), x));
        }
        let t = norm_terms(t, w);
        self.lin_val(w, k, t)
    }
    pub fn add(&mut self, w: u32, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::C(x), Val::C(y)) => Val::C(x.wrapping_add(*y) & mask(w)),
            (Val::C(0), _) => b.clone(),
            (_, Val::C(0)) => a.clone(),
            _ => self.lin_comb(w, a, 1, b, 1),
        }
    }
    pub fn sub(&mut self, w: u32, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::C(x), Val::C(y)) => Val::C(x.wrapping_sub(*y) & mask(w)),
            (_, Val::C(0)) => a.clone(),
            _ => self.lin_comb(w, a, 1, b, mask(w)),
        }
    }
    pub fn mul(&mut self, w: u32, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::C(x), Val::C(y)) => Val::C(x.wrapping_mul(*y) & mask(w)),
            (Val::C(x), o) | (o, Val::C(x)) => {
                let x = *x & mask(w);
                if x == 0 {
                    return Val::C(0);
                }
                if x == 1 {
                    return o.clone();
                }
                if x.is_power_of_two() {
                    let s = x.trailing_zeros();
                    return self.shl(w, &o.clone(), &Val::C(s as u128));
                }
                let z = Val::C(0);
                self.lin_comb(w, &o.clone(), x, &z, 0)
            }
            _ => {
                // i1-like (0/1) operand -> masking
                for (p, q) in [(a, b), (b, a)] {
                    let pb = self.bits(p, w);
                    if pb[1..].iter().all(|x| *x == F) {
                        let qb = self.bits(q, w);
                        let r: Vec<Bit> = qb.iter().map(|x| self.and(pb[0], *x)).collect();
                        return self.val(r);
                    }
                }
                self.wbin(WOp::Mul, w, a, b)
            }
        }
    }
    /// Long division by a constant, as gates (quotient, remainder).
    fn divc(&mut self, w: u32, a: &Val, d: u128) -> (Val, Val) {
        let ab = self.bits(a, w);
        let n = (128 - d.leading_zeros() + 1) as usize;
        let mut r = vec![F; n];
        let mut q = vec![F; w as usize];
        for i in (0..w as usize).rev() {
            r.pop();
            r.insert(0, ab[i]);
            // r - d, borrow out
            let mut borrow = F;
            let mut s = vec![F; n];
            for k in 0..n {
                let dk = (d >> k & 1) as Bit;
                let x = self.xor(r[k], dk);
                s[k] = self.xor(x, borrow);
                borrow = self.mux(x, dk, borrow);
            }
            q[i] = borrow ^ 1;
            for k in 0..n {
                r[k] = self.mux(q[i], s[k], r[k]);
            }
        }
        r.resize(w.max(n as u32) as usize, F);
        r.truncate(w as usize);
        (self.val(q), self.val(r))
    }
    fn wbin(&mut self, op: WOp, w: u32, a: &Val, b: &Val) -> Val {
        if matches!(op, WOp::UDiv | WOp::URem) {
            let ab = self.bits(a, w);
            let bb = self.bits(b, w);
            let mut n = w as usize;
            while n > 1 && ab[n - 1] == F && bb[n - 1] == F {
                n -= 1;
            }
            // division by zero panics before it gets here
            if n < w as usize {
                let (a, b) = (self.val(ab[..n].to_vec()), self.val(bb[..n].to_vec()));
                let v = self.wbin(op, n as u32, &a, &b);
                return self.zext(n as u32, w, &v);
            }
        }
        let ab = self.bits(a, w);
        let bb = self.bits(b, w);
        let mut x = self.atom(&ab);
        let mut y = self.atom(&bb);
        if op == WOp::Mul && x > y {
            std::mem::swap(&mut x, &mut y);
        }
        let wd = self.word(Word::Bin { op, w, a: x, b: y });
        let bits: Vec<Bit> = (0..w).map(|i| self.mk(Node::W(wd, i))).collect();
        self.val(bits)
    }
    pub fn udiv(&mut self, w: u32, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::C(x), Val::C(y)) => Val::C(if *y == 0 { mask(w) } else { x / y }),
            (_, Val::C(y)) if y.is_power_of_two() => {
                self.lshr(w, a, &Val::C(y.trailing_zeros() as u128))
            }
            (_, Val::C(y)) if *y != 0 => self.divc(w, a, *y).0,
            _ => self.wbin(WOp::UDiv, w, a, b),
        }
    }
    pub fn urem(&mut self, w: u32, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::C(x), Val::C(y)) => Val::C(if *y == 0 { *x } else { x % y }),
            (_, Val::C(y)) if y.is_power_of_two() => {
                let ab = self.bits(a, w);
                let n = y.trailing_zeros() as usize;
                let r = (0..w as usize).map(|i| if i < n { ab[i] } else { F }).collect();
                self.val(r)
            }
            (_, Val::C(y)) if *y != 0 => self.divc(w, a, *y).1,
            _ => self.wbin(WOp::URem, w, a, b),
        }
    }
    fn sdivc(&mut self, w: u32, a: &Val, d: u128) -> (Val, Val) {
        let ab = self.bits(a, w);
        let sa = ab[w as usize - 1];
        let sd = d >> (w - 1) & 1 == 1;
        let dm = if sd { d.wrapping_neg() & mask(w) } else { d };
        let z = Val::C(0);
        let m = if sa == F {
            a.clone()
        } else {
            let n = self.sub(w, &z, a);
            self.ite(w, sa, &n, a)
        };
        let (q, r) = (self.udiv(w, &m, &Val::C(dm)), self.urem(w, &m, &Val::C(dm)));
        let (nq, nr) = (self.sub(w, &z, &q), self.sub(w, &z, &r));
        let qs = sa ^ sd as Bit;
        (self.ite(w, qs, &nq, &q), self.ite(w, sa, &nr, &r))
    }
    pub fn sdiv(&mut self, w: u32, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::C(x), Val::C(y)) if *y != 0 => {
                Val::C((sext(*x, w).wrapping_div(sext(*y, w)) as u128) & mask(w))
            }
            (_, Val::C(y)) if *y != 0 => self.sdivc(w, a, *y).0,
            _ => self.wbin(WOp::SDiv, w, a, b),
        }
    }
    pub fn srem(&mut self, w: u32, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::C(x), Val::C(y)) if *y != 0 => {
                Val::C((sext(*x, w).wrapping_rem(sext(*y, w)) as u128) & mask(w))
            }
            (_, Val::C(y)) if *y != 0 => self.sdivc(w, a, *y).1,
            _ => self.wbin(WOp::SRem, w, a, b),
        }
    }
    pub fn bitop(&mut self, op: u8, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C(match op {
                b'&' => x & y,
                b'|' => x | y,
                _ => x ^ y,
            });
        }
        // all-ones xor on a linear value keeps linearity: ~x = -x - 1
        let ab = self.bits(a, w);
        let bb = self.bits(b, w);
        let r = (0..w as usize)
            .map(|i| match op {
                b'&' => self.and(ab[i], bb[i]),
                b'|' => self.or(ab[i], bb[i]),
                _ => self.xor(ab[i], bb[i]),
            })
            .collect();
        self.val(r)
    }
    pub fn shl(&mut self, w: u32, a: &Val, s: &Val) -> Val {
        match (a, s) {
            (Val::C(x), Val::C(y)) => Val::C(if *y >= w as u128 { 0 } else { (x << y) & mask(w) }),
            (_, Val::C(y)) => {
                let n = *y as usize;
                if n >= w as usize {
                    return Val::C(0);
                }
                let ab = self.bits(a, w);
                if self.lin_res.contains_key(&ab[..]) {
                    let z = Val::C(0);
                    return self.lin_comb(w, a, 1u128 << n, &z, 0);
                }
                let r = (0..w as usize).map(|i| if i < n { F } else { ab[i - n] }).collect();
                self.val(r)
            }
            _ => self.barrel(w, a, s, 0),
        }
    }
    pub fn lshr(&mut self, w: u32, a: &Val, s: &Val) -> Val {
        match (a, s) {
            (Val::C(x), Val::C(y)) => Val::C(if *y >= w as u128 { 0 } else { x >> y }),
            (_, Val::C(y)) => {
                let n = (*y).min(w as u128) as usize;
                let ab = self.bits(a, w);
                let r = (0..w as usize)
                    .map(|i| if i + n < w as usize { ab[i + n] } else { F })
                    .collect();
                self.val(r)
            }
            _ => self.barrel(w, a, s, 1),
        }
    }
    pub fn ashr(&mut self, w: u32, a: &Val, s: &Val) -> Val {
        match (a, s) {
            (Val::C(x), Val::C(y)) => {
                Val::C(((sext(*x, w) >> (*y).min(w as u128 - 1).min(127)) as u128) & mask(w))
            }
            (_, Val::C(y)) => {
                let n = (*y).min(w as u128) as usize;
                let ab = self.bits(a, w);
                let r = (0..w as usize)
                    .map(|i| if i + n < w as usize { ab[i + n] } else { ab[w as usize - 1] })
                    .collect();
                self.val(r)
            }
            _ => self.barrel(w, a, s, 2),
        }
    }
    fn barrel(&mut self, w: u32, a: &Val, s: &Val, kind: u8) -> Val {
        let mut cur = self.bits(a, w);
        let sb = self.bits(s, w);
        let fill = if kind == 2 { cur[w as usize - 1] } else { F };
        let mut stage = 0;
        while (1u32 << stage) < w {
            let n = 1usize << stage;
            let sel = sb[stage];
            if sel != F {
                let nxt: Vec<Bit> = (0..w as usize)
                    .map(|i| {
                        let sh = if kind == 0 {
                            if i < n { F } else { cur[i - n] }
                        } else if i + n < w as usize {
                            cur[i + n]
                        } else {
                            fill
                        };
                        self.mux(sel, sh, cur[i])
                    })
                    .collect();
                cur = nxt;
            }
            stage += 1;
        }
        self.val(cur)
    }
    pub fn not_bits(&mut self, w: u32, a: &Val) -> Val {
        self.bitop(b'^', w, a, &Val::C(mask(w)))
    }
    pub fn eq(&mut self, w: u32, a: &Val, b: &Val) -> Bit {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return (x == y) as Bit;
        }
        let ab = self.bits(a, w);
        let bb = self.bits(b, w);
        if ab == bb {
            return T;
        }
        for i in 0..w as usize {
            if ab[i] == bb[i] ^ 1 {
                return F;
            }
        }
        // linear difference constant?
        if w <= 128 {
            let d = self.lin_diff(w, &ab, &bb);
            if let Some(k) = d {
                return (k == 0) as Bit;
            }
        }
        let mut r = T;
        for i in 0..w as usize {
            let x = self.xor(ab[i], bb[i]) ^ 1;
            r = self.and(r, x);
            if r == F {
                return F;
            }
        }
        r
    }
    pub fn offset_of(&mut self, v: &Val, w: u32) -> Option<(u128, Val)> {
        let Val::S(b) = v else { return None };
        if !self.lin_res.contains_key(&b[..]) {
            return None;
        }
        let b = b.clone();
        let (k, t) = self.lin_of(&b);
        if k != 0 && t.len() == 1 && t[0].0 == 1 && t[0].1 < self.atoms.len() as u32 {
            let a = self.atoms[t[0].1 as usize].clone();
            if a.len() == w as usize && a[..] != b[..] {
                return Some((k, Val::S(a)));
            }
        }
        None
    }
    pub fn bits_eq(&mut self, a: &Val, b: &Val, w: u32) -> Bit {
        let (ab, bb) = (self.bits(a, w), self.bits(b, w));
        let mut r = T;
        for i in 0..w as usize {
            let x = self.xor(ab[i], bb[i]) ^ 1;
            r = self.and(r, x);
        }
        r
    }
    fn lin_diff(&mut self, w: u32, ab: &[Bit], bb: &[Bit]) -> Option<u128> {
        let (ka, ta) = self.lin_of(ab);
        let (kb, tb) = self.lin_of(bb);
        if ta == tb {
            Some(ka.wrapping_sub(kb) & mask(w))
        } else {
            None
        }
    }
    pub fn ult(&mut self, w: u32, a: &Val, b: &Val) -> Bit {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return (x < y) as Bit;
        }
        let ab = self.bits(a, w);
        let bb = self.bits(b, w);
        self.ult_bits(&ab, &bb)
    }
    fn ult_bits(&mut self, ab: &[Bit], bb: &[Bit]) -> Bit {
        let mut lt = F;
        for i in 0..ab.len() {
            // lt = (a!=b) ? b : lt  (from LSB up)
            let x = self.xor(ab[i], bb[i]);
            lt = self.mux(x, bb[i], lt);
        }
        lt
    }
    pub fn slt(&mut self, w: u32, a: &Val, b: &Val) -> Bit {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return (sext(*x, w) < sext(*y, w)) as Bit;
        }
        let mut ab = self.bits(a, w);
        let mut bb = self.bits(b, w);
        let n = w as usize - 1;
        ab[n] ^= 1;
        bb[n] ^= 1;
        self.ult_bits(&ab, &bb)
    }
    pub fn ite(&mut self, w: u32, c: Bit, a: &Val, b: &Val) -> Val {
        if c == T {
            return a.clone();
        }
        if c == F {
            return b.clone();
        }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if x == y {
                return a.clone();
            }
        }
        let ab = self.bits(a, w);
        let bb = self.bits(b, w);
        let r = (0..w as usize).map(|i| self.mux(c, ab[i], bb[i])).collect();
        self.val(r)
    }
    pub fn zext(&mut self, from: u32, to: u32, a: &Val) -> Val {
        match a {
            Val::C(_) => a.clone(),
            _ => {
                let mut b = self.bits(a, from);
                b.resize(to as usize, F);
                self.val(b)
            }
        }
    }
    pub fn sext(&mut self, from: u32, to: u32, a: &Val) -> Val {
        match a {
            Val::C(x) => Val::C((sext(*x, from) as u128) & mask(to)),
            _ => {
                let mut b = self.bits(a, from);
                let top = b[from as usize - 1];
                b.resize(to as usize, top);
                self.val(b)
            }
        }
    }
    pub fn trunc(&mut self, from: u32, to: u32, a: &Val) -> Val {
        match a {
            Val::C(x) => Val::C(x & mask(to)),
            _ => {
                let mut b = self.bits(a, from);
                b.truncate(to as usize);
                self.val(b)
            }
        }
    }
    pub fn ctlz(&mut self, w: u32, a: &Val) -> Val {
        if let Val::C(x) = a {
            return Val::C((x.leading_zeros() - (128 - w)) as u128);
        }
        let ab = self.bits(a, w);
        let mut r = Val::C(w as u128);
        for i in 0..w {
            r = self.ite(w, ab[i as usize], &Val::C((w - 1 - i) as u128), &r);
        }
        r
    }
    pub fn cttz(&mut self, w: u32, a: &Val) -> Val {
        if let Val::C(x) = a {
            return Val::C(if *x == 0 { w as u128 } else { x.trailing_zeros() as u128 });
        }
        let ab = self.bits(a, w);
        let mut r = Val::C(w as u128);
        for i in (0..w).rev() {
            r = self.ite(w, ab[i as usize], &Val::C(i as u128), &r);
        }
        r
    }
    pub fn ctpop(&mut self, w: u32, a: &Val) -> Val {
        if let Val::C(x) = a {
            return Val::C(x.count_ones() as u128);
        }
        let ab = self.bits(a, w);
        let mut r = Val::C(0);
        for b in ab {
            let bv = self.bool_val(b);
            let z = self.zext(1, w, &bv);
            r = self.add(w, &r, &z);
        }
        r
    }

    // ---- substitution of known literals --------------------------------
    pub fn simp_bit(
        &mut self,
        b: Bit,
        known: &HashMap<u32, bool>,
        memo: &mut HashMap<u32, Bit>,
    ) -> Bit {
        let n = b >> 1;
        if n == 0 {
            return b;
        }
        if let Some(v) = known.get(&n) {
            return (*v as Bit) ^ (b & 1);
        }
        if let Some(r) = memo.get(&n) {
            return r ^ (b & 1);
        }
        let r = match self.nodes[n as usize] {
            Node::Const => F,
            Node::In(..) => n << 1,
            Node::And(x, y) => {
                let x2 = self.simp_bit(x, known, memo);
                if x2 == F {
                    F
                } else {
                    let y2 = self.simp_bit(y, known, memo);
                    self.and(x2, y2)
                }
            }
            Node::Xor(x, y) => {
                let x2 = self.simp_bit(x, known, memo);
                let y2 = self.simp_bit(y, known, memo);
                self.xor(x2, y2)
            }
            Node::Mux(s, t, e) => {
                let s2 = self.simp_bit(s, known, memo);
                if s2 == T {
                    self.simp_bit(t, known, memo)
                } else if s2 == F {
                    self.simp_bit(e, known, memo)
                } else {
                    let t2 = self.simp_bit(t, known, memo);
                    let e2 = self.simp_bit(e, known, memo);
                    self.mux(s2, t2, e2)
                }
            }
            Node::W(wd, i) => {
                let word = self.words[wd as usize].clone();
                let atoms = self.word_atoms(wd);
                let mut changed = false;
                let mut nv: Vec<Val> = vec![];
                for a in &atoms {
                    let bits = self.atoms[*a as usize].clone();
                    let nb: Vec<Bit> =
                        bits.iter().map(|x| self.simp_bit(*x, known, memo)).collect();
                    if nb[..] != bits[..] {
                        changed = true;
                    }
                    nv.push(self.val(nb));
                }
                if !changed {
                    n << 1
                } else {
                    let v = match word {
                        Word::Lin { w, k, terms } => {
                            let mut acc = Val::C(k);
                            for (j, (c, _)) in terms.iter().enumerate() {
                                let cv = Val::C(*c);
                                let t = if *c == mask(w) {
                                    acc = self.sub(w, &acc, &nv[j]);
                                    continue;
                                } else {
                                    self.mul(w, &nv[j], &cv)
                                };
                                acc = self.add(w, &acc, &t);
                            }
                            (acc, w)
                        }
                        Word::Bin { op, w, .. } => (
                            match op {
                                WOp::Mul => self.mul(w, &nv[0], &nv[1]),
                                WOp::UDiv => self.udiv(w, &nv[0], &nv[1]),
                                WOp::URem => self.urem(w, &nv[0], &nv[1]),
                                WOp::SDiv => self.sdiv(w, &nv[0], &nv[1]),
                                WOp::SRem => self.srem(w, &nv[0], &nv[1]),
                            },
                            w,
                        ),
                    };
                    let bits = self.bits(&v.0, v.1);
                    // memo all sibling bits
                    for (j, bb) in bits.iter().enumerate() {
                        if let Some(&id) = self.cons.get(&Node::W(wd, j as u32)) {
                            memo.insert(id, *bb);
                        }
                    }
                    bits[i as usize]
                }
            }
        };
        let r = match known.get(&(r >> 1)) {
            Some(v) if r > 1 => (*v as Bit) ^ (r & 1),
            _ => r,
        };
        memo.insert(n, r);
        r ^ (b & 1)
    }

    // ---- evaluation under a model --------------------------------------
    pub fn eval_bit(&self, b: Bit, m: &mut Model) -> bool {
        let n = (b >> 1) as usize;
        let v = self.eval_node(n, m);
        v ^ (b & 1 == 1)
    }
    fn eval_node(&self, n: usize, m: &mut Model) -> bool {
        if n == 0 {
            return false;
        }
        if m.cache.len() < self.nodes.len() {
            m.cache.resize(self.nodes.len(), 2);
        }
        if m.cache[n] != 2 {
            return m.cache[n] == 1;
        }
        let r = match self.nodes[n] {
            Node::Const => false,
            Node::In(v, i) => m.get(v) >> i & 1 == 1,
            Node::And(a, b) => self.eval_bit(a, m) && self.eval_bit(b, m),
            Node::Xor(a, b) => self.eval_bit(a, m) ^ self.eval_bit(b, m),
            Node::Mux(s, t, e) => {
                if self.eval_bit(s, m) {
                    self.eval_bit(t, m)
                } else {
                    self.eval_bit(e, m)
                }
            }
            Node::W(wd, i) => {
                let v = self.eval_word(wd, m);
                (v >> i) & 1 == 1
            }
        };
        m.cache[n] = r as u8;
        r
    }
    pub fn eval_bits(&self, bits: &[Bit], m: &mut Model) -> u128 {
        let mut x = 0;
        for (i, b) in bits.iter().enumerate() {
            if self.eval_bit(*b, m) {
                x |= 1u128 << i;
            }
        }
        x
    }
    pub fn eval_val(&self, v: &Val, m: &mut Model) -> u128 {
        match v {
            Val::C(x) => *x,
            Val::S(b) => self.eval_bits(b, m),
            Val::A(_) => 0,
        }
    }
    fn eval_word(&self, wd: u32, m: &mut Model) -> u128 {
        if let Some(v) = m.words.get(&wd) {
            return *v;
        }
        let r = match &self.words[wd as usize] {
            Word::Lin { w, k, terms } => {
                let mut acc = *k;
                for (c, a) in terms {
                    let bits = self.atoms[*a as usize].clone();
                    let x = self.eval_bits(&bits, m);
                    acc = acc.wrapping_add(c.wrapping_mul(x));
                }
                acc & mask(*w)
            }
            Word::Bin { op, w, a, b } => {
                let ab = self.atoms[*a as usize].clone();
                let bb = self.atoms[*b as usize].clone();
                let x = self.eval_bits(&ab, m);
                let y = self.eval_bits(&bb, m);
                let r = match op {
                    WOp::Mul => x.wrapping_mul(y),
                    WOp::UDiv => if y == 0 { mask(*w) } else { x / y },
                    WOp::URem => if y == 0 { x } else { x % y },
                    WOp::SDiv => {
                        let (p, q) = (sext(x, *w), sext(y, *w));
                        if q == 0 { if p < 0 { 1 } else { mask(*w) } } else { p.wrapping_div(q) as u128 }
                    }
                    WOp::SRem => {
                        let (p, q) = (sext(x, *w), sext(y, *w));
                        if q == 0 { x } else { p.wrapping_rem(q) as u128 }
                    }
                };
                r & mask(*w)
            }
        };
        m.words.insert(wd, r);
        r
    }
}

fn norm_terms(mut t: Vec<(u128, u32)>, w: u32) -> Vec<(u128, u32)> {
    t.sort_by_key(|x| x.1);
    let mut out: Vec<(u128, u32)> = vec![];
    for (c, a) in t {
        if let Some(l) = out.last_mut() {
            if l.1 == a {
                l.0 = l.0.wrapping_add(c) & mask(w);
                continue;
            }
        }
        out.push((c & mask(w), a));
    }
    out.retain(|x| x.0 != 0);
    out
}

#[derive(Clone, Default, Debug)]
pub struct Model {
    pub vals: Vec<u128>,
    pub cache: Vec<u8>,
    pub words: HashMap<u32, u128>,
}
impl Model {
    pub fn get(&self, v: u32) -> u128 {
        self.vals.get(v as usize).copied().unwrap_or(0)
    }
}
