//! Textual LLVM IR (as emitted by `rustc --emit=llvm-ir`): types, constants,
//! globals and lazily parsed functions.
use crate::expr::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Half,
    Float,
    Double,
    Array(u64, Rc<Ty>),
    Struct(Vec<Ty>, bool),
    Vector(u64, Rc<Ty>),
    Other,
}
impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Half => 16,
            Ty::Float => 32,
            Ty::Double => 64,
            _ => panic!("bits of {self:?}"),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Half | Ty::Float | Ty::Double)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Half => 2,
            Ty::Float => 4,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vector(n, t) => (n * t.bits() as u64 / 8).max(1).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Vector(n, t) => (n * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(_) | Ty::Half | Ty::Float | Ty::Double | Ty::Ptr => {
                let s = ((self.bits() as u64) + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(..) => {
                let mut o = 0;
                if let Ty::Struct(f, p) = self {
                    for t in f {
                        let a = if *p { 1 } else { t.align() };
                        o = (o + a - 1) / a * a + t.size();
                    }
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Vector(..) => self.store_size().next_power_of_two(),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    let a = if *p { 1 } else { t.align() };
                    o = (o + a - 1) / a * a;
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Array(_, t) => t.size() * i as u64,
            Ty::Vector(_, t) => t.size() * i as u64,
            _ => panic!("field_off {self:?}"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Array(_, t) | Ty::Vector(_, t) => t,
            _ => panic!("elem {self:?}"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn zero(&self) -> Val {
        match self {
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|t| t.zero()).collect())),
            Ty::Array(n, t) | Ty::Vector(n, t) => {
                Val::A(Rc::new((0..*n).map(|_| t.zero()).collect()))
            }
            _ => Val::C(0),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Str(Vec<u8>),
    Meta(String),
    P(char),
}

pub fn tokenize(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let isw = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' || c == b'+';
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' || c == b'\n' {
            i += 1;
        } else if c == b';' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c == b'%' || c == b'@' || c == b'!' || c == b'#' || c == b'$' {
            let st = i + 1;
            let name;
            if st < b.len() && b[st] == b'"' {
                let mut j = st + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                name = s[st + 1..j].to_string();
                i = j + 1;
            } else {
                let mut j = st;
                while j < b.len() && isw(b[j]) {
                    j += 1;
                }
                name = s[st..j].to_string();
                i = j;
            }
            out.push(match c {
                b'%' => Tok::Local(name),
                b'@' => Tok::Global(name),
                _ => Tok::Meta(name),
            });
        } else if c == b'"' || (c == b'c' && i + 1 < b.len() && b[i + 1] == b'"') {
            let mut j = if c == b'c' { i + 2 } else { i + 1 };
            let mut v = vec![];
            while b[j] != b'"' {
                if b[j] == b'\\' {
                    if b[j + 1] == b'\\' {
                        v.push(b'\\');
                        j += 2;
                    } else {
                        v.push(u8::from_str_radix(&s[j + 1..j + 3], 16).unwrap());
                        j += 3;
                    }
                } else {
                    v.push(b[j]);
                    j += 1;
                }
            }
            i = j + 1;
            out.push(Tok::Str(v));
        } else if isw(c) {
            let st = i;
            while i < b.len() && isw(b[i]) {
                i += 1;
            }
            out.push(Tok::Word(s[st..i].to_string()));
        } else {
            out.push(Tok::P(c as char));
            i += 1;
        }
    }
    out
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinK {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FOp(u8),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit,
    /// fptrunc, fpext, fptoui, fptosi, uitofp, sitofp
    Fp(u8),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Op),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinK, Ty, u32, Op, Op),
    ICmp(Pred, Ty, u32, Op, Op),
    FCmp(String, Ty, u32, Op, Op),
    Cast(CastK, Ty, Ty, u32, Op),
    Select(Ty, Ty, u32, Op, Op, Op),
    Load(Ty, u32, Op),
    Store(Ty, Op, Op),
    Gep(u32, Op, i128, Vec<(Op, u32, i128)>),
    Alloca(u32, u64, u64),
    Call { dst: u32, ret: Ty, callee: Callee, args: Vec<(Ty, Op)>, normal: Option<u32>, line: u32 },
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<Op>),
    Unreachable,
    Extract(u32, Op, Vec<usize>),
    Insert(u32, Ty, Op, Op, Vec<usize>),
    ExtractElem(u32, Op, Op),
    InsertElem(u32, Ty, Op, Op, Op),
    Shuffle(u32, Op, Op, Vec<usize>, Ty),
    Rmw(String, Ty, u32, Op, Op),
    CmpXchg(Ty, u32, Op, Op, Op),
    Copy(u32, Op),
    Nop,
    Bad(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(Op, u32)>)>,
    pub insts: Vec<Inst>,
    /// `!dbg` id of each instruction (0 = none)
    pub dbg: Vec<u32>,
}
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub pretty: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct GlobalDef {
    pub name: String,
    pub size: u64,
    pub constant: bool,
    pub data: Vec<u8>,
}

pub struct Module {
    pub text: String,
    pub line_off: Vec<usize>,
    /// object id -> what
    pub ids: HashMap<String, u32>,
    pub names: Vec<String>,
    pub globals: HashMap<u32, GlobalDef>,
    /// function id -> line of its `define`
    pub fdefs: HashMap<u32, usize>,
    pub pretty: HashMap<u32, String>,
    pub funcs: RefCell<HashMap<u32, Rc<Func>>>,
    pub types: HashMap<String, Ty>,
    pub meta_lines: HashMap<u32, usize>,
    pub nids: u32,
}

struct Cur<'a> {
    t: &'a [Tok],
    i: usize,
    m: &'a Module,
}

const VALWORDS: &[&str] = &[
    "true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr", "inttoptr", "ptrtoint",
    "ptrtoaddr", "bitcast", "add", "sub", "trunc", "xor", "blockaddress", "splat", "asm",
];

impl<'a> Cur<'a> {
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> &'a Tok {
        let t = &self.t[self.i];
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected '{c}' at {:?} in {:?}", self.peek(), &self.t[..self.t.len().min(60)]);
        }
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> String {
        match self.next() {
            Tok::Word(w) => w.clone(),
            t => panic!("expected word, got {t:?} in {:?}", &self.t[..self.t.len().min(60)]),
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => {
                let b = w.as_bytes();
                (b[0] == b'i' && b.len() > 1 && b[1..].iter().all(|c| c.is_ascii_digit()))
                    || matches!(
                        w.as_str(),
                        "ptr" | "void" | "float" | "double" | "half" | "metadata" | "label" | "fp128" | "x86_fp80"
                    )
            }
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::Word(w) => {
                let t = match w.as_str() {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "half" => Ty::Half,
                    "metadata" | "label" | "fp128" | "x86_fp80" => Ty::Other,
                    _ => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {w} in {:?}", self.t))),
                };
                t
            }
            Tok::Local(n) => self.m.types.get(n).cloned().unwrap_or(Ty::Other),
            Tok::P('{') => {
                let mut v = vec![];
                while !self.eat('}') {
                    v.push(self.ty());
                    self.eat(',');
                }
                Ty::Struct(v, false)
            }
            Tok::P('[') => {
                let n: u64 = self.word().parse().unwrap();
                self.word();
                let t = self.ty();
                self.expect(']');
                Ty::Array(n, Rc::new(t))
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let mut v = vec![];
                    while !self.eat('}') {
                        v.push(self.ty());
                        self.eat(',');
                    }
                    self.expect('>');
                    Ty::Struct(v, true)
                } else {
                    let n: u64 = self.word().parse().unwrap();
                    self.word();
                    let t = self.ty();
                    self.expect('>');
                    Ty::Vector(n, Rc::new(t))
                }
            }
            t => panic!("type? {t:?} in {:?}", self.t),
        }
    }
    fn skip_parens(&mut self) {
        if self.eat('(') {
            let mut d = 1;
            while d > 0 {
                match self.next() {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => d -= 1,
                    _ => {}
                }
            }
        }
    }
    /// Skips attribute words until a value (or `,`/`)`) begins.
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    if VALWORDS.contains(&w.as_str()) {
                        return;
                    }
                    let b = w.as_bytes();
                    if b[0].is_ascii_digit() || b[0] == b'-' {
                        return;
                    }
                    if w == "align" {
                        self.i += 1;
                        if self.is_p('(') {
                            self.skip_parens();
                        } else {
                            self.i += 1;
                        }
                        continue;
                    }
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens();
                    }
                }
                Some(Tok::Meta(_)) => {
                    self.i += 1;
                }
                _ => return,
            }
        }
    }
    fn skip_to_type(&mut self) {
        while !self.is_type_start() {
            match self.peek() {
                Some(Tok::Word(w)) if w == "align" => {
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens();
                    } else {
                        self.i += 1;
                    }
                }
                Some(Tok::Word(_)) | Some(Tok::Meta(_)) => {
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens();
                    }
                }
                Some(Tok::Local(_)) => return,
                _ => panic!("skip_to_type {:?} in {:?}", self.peek(), self.t),
            }
        }
    }
    /// Constant or register of type `t`.
    fn val(&mut self, t: &Ty, regs: &mut dyn FnMut(&str) -> u32) -> Op {
        match self.next() {
            Tok::Local(n) => Op::R(regs(n)),
            Tok::Global(n) => Op::K(Val::C(self.m.addr(n))),
            Tok::Str(b) => Op::K(Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u128)).collect()))),
            Tok::Word(w) => match w.as_str() {
                "true" => Op::K(Val::C(1)),
                "false" | "null" | "none" => Op::K(Val::C(0)),
                "undef" | "poison" | "zeroinitializer" => Op::K(t.zero()),
                "splat" => {
                    self.expect('(');
                    let et = self.ty();
                    let v = self.kval(&et, regs);
                    self.expect(')');
                    Op::K(Val::A(Rc::new((0..t.count()).map(|_| v.clone()).collect())))
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        self.i += 1;
                        if self.is_w("inrange") {
                            self.i += 1;
                            self.skip_parens();
                        }
                    }
                    self.expect('(');
                    let mut cur = self.ty();
                    self.expect(',');
                    let bt = self.ty();
                    let base = self.kval(&bt, regs).c().unwrap();
                    let mut off: i128 = 0;
                    let mut first = true;
                    while self.eat(',') {
                        let it = self.ty();
                        let idx = sext(self.kval(&it, regs).c().unwrap(), it.bits());
                        if first {
                            off += idx * cur.size() as i128;
                            first = false;
                        } else {
                            off += match &cur {
                                Ty::Struct(..) => cur.field_off(idx as usize) as i128,
                                _ => idx * cur.elem(0).size() as i128,
                            };
                            cur = cur.elem(idx as usize).clone();
                        }
                    }
                    self.expect(')');
                    Op::K(Val::C((base as i128 + off) as u128 & mask(64)))
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" => {
                    self.expect('(');
                    let st = self.ty();
                    let v = self.kval(&st, regs);
                    self.eat_w("to");
                    let tt = self.ty();
                    self.expect(')');
                    match v {
                        Val::C(x) => Op::K(Val::C(x & mask(tt.bits()))),
                        v => Op::K(v),
                    }
                }
                "add" | "sub" | "xor" => {
                    let op = w.clone();
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.expect('(');
                    let at = self.ty();
                    let a = self.kval(&at, regs).c().unwrap();
                    self.expect(',');
                    let bt = self.ty();
                    let b = self.kval(&bt, regs).c().unwrap();
                    self.expect(')');
                    let r = match op.as_str() {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        _ => a ^ b,
                    };
                    Op::K(Val::C(r & mask(at.bits())))
                }
                _ => {
                    if let Some(h) = w.strip_prefix("0x") {
                        // floating-point constants are printed as doubles
                        let v = u64::from_str_radix(h.trim_start_matches('H'), 16).unwrap_or(0);
                        return Op::K(Val::C(match t {
                            Ty::Float => (f64::from_bits(v) as f32).to_bits() as u128,
                            _ => v as u128,
                        }));
                    }
                    if matches!(t, Ty::Float | Ty::Double) {
                        let f: f64 = w.parse().unwrap_or(0.0);
                        return Op::K(Val::C(if *t == Ty::Float {
                            (f as f32).to_bits() as u128
                        } else {
                            f.to_bits() as u128
                        }));
                    }
                    let neg = w.starts_with('-');
                    let d: u128 = w.trim_start_matches('-').parse().unwrap_or_else(|_| panic!("const {w} in {:?}", self.t));
                    let v = if neg { (d as i128).wrapping_neg() as u128 } else { d };
                    Op::K(Val::C(v & mask(t.bits())))
                }
            },
            Tok::P('{') | Tok::P('[') | Tok::P('<') => {
                // aggregate constant: typed elements
                if self.is_p('{') {
                    self.i += 1;
                }
                let mut v = vec![];
                loop {
                    match self.peek() {
                        Some(Tok::P('}')) | Some(Tok::P(']')) | Some(Tok::P('>')) => {
                            let c = self.is_p('}');
                            self.i += 1;
                            if c && self.is_p('>') && matches!(t, Ty::Struct(_, true)) {
                                self.i += 1;
                            }
                            break;
                        }
                        _ => {}
                    }
                    let et = self.ty();
                    v.push(self.kval(&et, regs));
                    self.eat(',');
                }
                Op::K(Val::A(Rc::new(v)))
            }
            x => panic!("value? {x:?} of {t:?} in {:?}", self.t),
        }
    }
    fn kval(&mut self, t: &Ty, regs: &mut dyn FnMut(&str) -> u32) -> Val {
        match self.val(t, regs) {
            Op::K(v) => v,
            Op::R(_) => panic!("register in constant"),
        }
    }
}

impl Module {
    pub fn addr(&self, n: &str) -> u128 {
        match self.ids.get(n) {
            Some(i) => (*i as u128) << 32,
            None => panic!("unknown global @{n}"),
        }
    }
    pub fn line(&self, i: usize) -> &str {
        let e = if i + 1 < self.line_off.len() { self.line_off[i + 1] - 1 } else { self.text.len() };
        &self.text[self.line_off[i]..e]
    }
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("read ll");
        let mut line_off = vec![0usize];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                line_off.push(i + 1);
            }
        }
        let mut m = Module {
            text,
            line_off,
            ids: HashMap::new(),
            names: vec!["<null>".into()],
            globals: HashMap::new(),
            fdefs: HashMap::new(),
            pretty: HashMap::new(),
            funcs: RefCell::new(HashMap::new()),
            types: HashMap::new(),
            meta_lines: HashMap::new(),
            nids: 1,
        };
        let n = m.line_off.len();
        let mut glines = vec![];
        let mut last_comment = String::new();
        let mut aliases: Vec<(String, String)> = vec![];
        let mut tylines = vec![];
        for i in 0..n {
            let l = m.line(i).to_string();
            if l.is_empty() {
                last_comment.clear();
                continue;
            }
            let b = l.as_bytes()[0];
            match b {
                b';' => {
                    if !l.starts_with("; Function Attrs") {
                        last_comment = l[1..].trim().to_string();
                    }
                }
                b'%' => tylines.push(i),
                b'@' => {
                    let name = global_name(&l);
                    if l.contains(" alias ") {
                        if let Some(p) = l.rfind('@') {
                            let t = tokenize(&l[p..]);
                            if let Some(Tok::Global(x)) = t.first() {
                                aliases.push((name, x.clone()));
                            }
                        }
                        continue;
                    }
                    let id = m.nids;
                    m.nids += 1;
                    m.ids.insert(name.clone(), id);
                    m.names.push(name);
                    glines.push((id, i));
                }
                b'd' if l.starts_with("define") || l.starts_with("declare") => {
                    let p = l.find('@').unwrap();
                    let name = global_name(&l[p..]);
                    if m.ids.contains_key(&name) {
                        continue;
                    }
                    let id = m.nids;
                    m.nids += 1;
                    m.ids.insert(name.clone(), id);
                    m.names.push(name.clone());
                    if l.starts_with("define") {
                        m.fdefs.insert(id, i);
                    }
                    if !last_comment.is_empty() {
                        m.pretty.insert(id, last_comment.clone());
                    } else {
                        m.pretty.insert(id, name);
                    }
                    last_comment.clear();
                }
                b'!' => {
                    if let Some(e) = l.find(' ') {
                        if let Ok(k) = l[1..e].parse::<u32>() {
                            m.meta_lines.insert(k, i);
                        }
                    }
                }
                _ => {}
            }
        }
        for (a, t) in aliases {
            if let Some(&id) = m.ids.get(&t) {
                m.ids.insert(a, id);
            }
        }
        for i in tylines {
            let t = tokenize(m.line(i));
            if let (Tok::Local(n), true) = (&t[0], t.len() > 3) {
                let mut c = Cur { t: &t, i: 3, m: &m };
                if c.is_type_start() {
                    let ty = c.ty();
                    let n = n.clone();
                    m.types.insert(n, ty);
                }
            }
        }
        let mut defs = vec![];
        for (id, i) in glines {
            let toks = tokenize(m.line(i));
            let mut c = Cur { t: &toks, i: 2, m: &m };
            let mut constant = false;
            let mut external = false;
            loop {
                match c.next() {
                    Tok::Word(w) if w == "constant" => {
                        constant = true;
                        break;
                    }
                    Tok::Word(w) if w == "global" => break,
                    Tok::Word(w) if w == "external" || w == "extern_weak" => external = true,
                    Tok::P('(') => {
                        c.i -= 1;
                        c.skip_parens();
                    }
                    _ => {}
                }
            }
            let ty = c.ty();
            let size = ty.size();
            let mut data = vec![0u8; size as usize];
            if !external {
                let v = c.kval(&ty, &mut |_| panic!());
                store_const(&ty, &v, &mut data, 0);
            }
            defs.push((id, GlobalDef { name: m.names[id as usize].clone(), size, constant, data }));
        }
        for (id, d) in defs {
            m.globals.insert(id, d);
        }
        m
    }

    pub fn func(&self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = self.funcs.borrow().get(&id) {
            return Some(f.clone());
        }
        let ln = *self.fdefs.get(&id)?;
        let f = Rc::new(self.parse_func(id, ln));
        self.funcs.borrow_mut().insert(id, f.clone());
        Some(f)
    }

    fn parse_func(&self, id: u32, ln: usize) -> Func {
        let head = tokenize(self.line(ln));
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut params = vec![];
        // parameters
        {
            let mut c = Cur { t: &head, i: 1, m: self };
            while !matches!(c.peek(), Some(Tok::Global(_))) {
                c.i += 1;
            }
            c.i += 1;
            c.expect('(');
            let mut k = 0;
            while !c.eat(')') {
                if c.is_p('.') || c.is_w("...") {
                    c.i += 1;
                    continue;
                }
                let _ = c.ty();
                c.skip_attrs();
                let name = if let Some(Tok::Local(n)) = c.peek() {
                    let n = n.clone();
                    c.i += 1;
                    n
                } else {
                    k.to_string()
                };
                k += 1;
                let r = regs.len() as u32;
                regs.insert(name, r);
                params.push(r);
                c.eat(',');
            }
        }
        // gather logical lines
        let mut lines: Vec<(usize, String)> = vec![];
        let mut i = ln + 1;
        loop {
            let l = self.line(i);
            if l.starts_with('}') {
                break;
            }
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") {
                i += 1;
                continue;
            }
            if l.starts_with(' ') {
                let mut s = l.to_string();
                let st = i;
                if t.starts_with("switch") && !l.contains(']') {
                    while !self.line(i).contains(']') {
                        i += 1;
                        s.push(' ');
                        s.push_str(self.line(i));
                    }
                } else if (t.starts_with("invoke") || t.contains("= invoke")) && !l.contains("unwind label") {
                    i += 1;
                    s.push(' ');
                    s.push_str(self.line(i));
                } else if t.contains("= landingpad") {
                    while {
                        let n = self.line(i + 1).trim_start();
                        n.starts_with("cleanup") || n.starts_with("catch ") || n.starts_with("filter ")
                    } {
                        i += 1;
                    }
                }
                lines.push((st, s));
            } else {
                lines.push((i, l.to_string()));
            }
            i += 1;
        }
        // label numbering
        let mut nblocks = 0;
        if lines.first().map(|l| l.1.starts_with(' ')).unwrap_or(true) {
            // implicit entry label: number = count of unnamed params
            labels.insert(params.len().to_string(), 0);
            nblocks = 1;
        }
        for (_, l) in &lines {
            if !l.starts_with(' ') {
                let name = label_name(l);
                labels.insert(name, nblocks);
                nblocks += 1;
            }
        }
        let mut blocks: Vec<Block> = vec![];
        let mut cur = Block { phis: vec![], insts: vec![], dbg: vec![] };
        let mut started = lines.first().map(|l| l.1.starts_with(' ')).unwrap_or(false);
        for (n, l) in &lines {
            if !l.starts_with(' ') {
                if started {
                    blocks.push(std::mem::replace(&mut cur, Block { phis: vec![], insts: vec![], dbg: vec![] }));
                }
                started = true;
                continue;
            }
            let toks = tokenize(l);
            let inst = self.parse_inst(&toks, &mut regs, &labels, &mut cur.phis, *n);
            if let Some(inst) = inst {
                let mut d = 0;
                for k in 0..toks.len().saturating_sub(1) {
                    if let (Tok::Meta(a), Tok::Meta(b)) = (&toks[k], &toks[k + 1]) {
                        if a == "dbg" {
                            d = b.parse().unwrap_or(0);
                        }
                    }
                }
                cur.insts.push(inst);
                cur.dbg.push(d);
            }
        }
        blocks.push(cur);
        Func {
            id,
            name: self.names[id as usize].clone(),
            pretty: self.pretty.get(&id).cloned().unwrap_or_default(),
            nregs: regs.len() as u32 + 1,
            params,
            blocks,
        }
    }

    fn parse_inst(
        &self,
        toks: &[Tok],
        regs: &mut HashMap<String, u32>,
        labels: &HashMap<String, u32>,
        phis: &mut Vec<(u32, Ty, Vec<(Op, u32)>)>,
        line: usize,
    ) -> Option<Inst> {
        let mut rg = |n: &str| -> u32 {
            if let Some(r) = regs.get(n) {
                return *r;
            }
            let r = regs.len() as u32;
            regs.insert(n.to_string(), r);
            r
        };
        let mut c = Cur { t: toks, i: 0, m: self };
        let mut dst = u32::MAX;
        if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (toks.first(), toks.get(1)) {
            dst = rg(n);
            c.i = 2;
        }
        let lab = |n: &str| -> u32 { *labels.get(n).unwrap_or_else(|| panic!("label {n}")) };
        let mut op = c.word();
        if matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = c.word();
        }
        let inst = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or"
            | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let k = match op.as_str() {
                    "add" => BinK::Add,
                    "sub" => BinK::Sub,
                    "mul" => BinK::Mul,
                    "udiv" => BinK::UDiv,
                    "sdiv" => BinK::SDiv,
                    "urem" => BinK::URem,
                    "srem" => BinK::SRem,
                    "shl" => BinK::Shl,
                    "lshr" => BinK::LShr,
                    "ashr" => BinK::AShr,
                    "and" => BinK::And,
                    "or" => BinK::Or,
                    "xor" => BinK::Xor,
                    "fadd" => BinK::FOp(0),
                    "fsub" => BinK::FOp(1),
                    "fmul" => BinK::FOp(2),
                    "fdiv" => BinK::FOp(3),
                    _ => BinK::FOp(4),
                };
                c.skip_to_type();
                let t = c.ty();
                let a = c.val(&t, &mut rg);
                c.expect(',');
                let b = c.val(&t, &mut rg);
                Inst::Bin(k, t, dst, a, b)
            }
            "icmp" => {
                let mut p = c.word();
                while p == "samesign" {
                    p = c.word();
                }
                let p = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => panic!("icmp {x}"),
                };
                let t = c.ty();
                let a = c.val(&t, &mut rg);
                c.expect(',');
                let b = c.val(&t, &mut rg);
                Inst::ICmp(p, t, dst, a, b)
            }
            "fcmp" => {
                let mut p = c.word();
                while !c.is_type_start() {
                    p = c.word();
                }
                let t = c.ty();
                let a = c.val(&t, &mut rg);
                c.expect(',');
                let b = c.val(&t, &mut rg);
                Inst::FCmp(p, t, dst, a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "fptrunc" | "fpext" | "fptoui"
            | "fptosi" | "uitofp" | "sitofp" | "addrspacecast" => {
                c.skip_to_type();
                let ft = c.ty();
                let a = c.val(&ft, &mut rg);
                c.eat_w("to");
                let tt = c.ty();
                let k = match op.as_str() {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" => CastK::Bit,
                    x => CastK::Fp(["fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp"].iter().position(|y| *y == x).unwrap_or(99) as u8),
                };
                Inst::Cast(k, ft, tt, dst, a)
            }
            "select" => {
                c.skip_to_type();
                let ct = c.ty();
                let cv = c.val(&ct, &mut rg);
                c.expect(',');
                let t = c.ty();
                let a = c.val(&t, &mut rg);
                c.expect(',');
                let _ = c.ty();
                let b = c.val(&t, &mut rg);
                Inst::Select(ct, t, dst, cv, a, b)
            }
            "freeze" => {
                let t = c.ty();
                let a = c.val(&t, &mut rg);
                Inst::Copy(dst, a)
            }
            "load" => {
                c.skip_to_type();
                let t = c.ty();
                c.expect(',');
                let pt = c.ty();
                let p = c.val(&pt, &mut rg);
                Inst::Load(t, dst, p)
            }
            "store" => {
                c.skip_to_type();
                let t = c.ty();
                let v = c.val(&t, &mut rg);
                c.expect(',');
                let pt = c.ty();
                let p = c.val(&pt, &mut rg);
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                c.skip_to_type();
                let mut cur = c.ty();
                c.expect(',');
                let bt = c.ty();
                let base = c.val(&bt, &mut rg);
                let mut off: i128 = 0;
                let mut dynv = vec![];
                let mut first = true;
                while c.is_p(',') {
                    if let Some(Tok::Meta(_)) = c.t.get(c.i + 1) {
                        break;
                    }
                    c.expect(',');
                    let it = c.ty();
                    let idx = c.val(&it, &mut rg);
                    let scale = if first {
                        cur.size() as i128
                    } else {
                        match &cur {
                            Ty::Struct(..) => 0,
                            _ => cur.elem(0).size() as i128,
                        }
                    };
                    match (&idx, first, &cur) {
                        (Op::K(Val::C(x)), false, Ty::Struct(..)) => {
                            off += cur.field_off(*x as usize) as i128;
                            cur = cur.elem(*x as usize).clone();
                        }
                        (Op::K(Val::C(x)), _, _) => {
                            off += sext(*x, it.bits()) * scale;
                            if !first {
                                cur = cur.elem(0).clone();
                            }
                        }
                        _ => {
                            dynv.push((idx, it.bits(), scale));
                            if !first {
                                cur = cur.elem(0).clone();
                            }
                        }
                    }
                    first = false;
                }
                Inst::Gep(dst, base, off, dynv)
            }
            "alloca" => {
                let t = c.ty();
                let mut al = t.align();
                let mut n = 1;
                while c.eat(',') {
                    if c.eat_w("align") {
                        al = c.word().parse().unwrap();
                    } else if c.is_type_start() {
                        let it = c.ty();
                        if let Op::K(Val::C(x)) = c.val(&it, &mut rg) {
                            n = x as u64;
                        }
                    } else {
                        break;
                    }
                }
                Inst::Alloca(dst, t.size() * n, al)
            }
            "call" | "invoke" => {
                c.skip_to_type();
                let ret = c.ty();
                if c.is_p('(') {
                    c.skip_parens(); // explicit function type
                }
                let callee = match c.next() {
                    Tok::Global(n) => Callee::Direct((self.addr(n) >> 32) as u32),
                    Tok::Local(n) => Callee::Indirect(Op::R(rg(n))),
                    Tok::Word(w) if w == "asm" => {
                        return Some(Inst::Bad("inline asm".into()));
                    }
                    t => {
                        return Some(Inst::Bad(format!("callee {t:?}")));
                    }
                };
                c.expect('(');
                let mut args = vec![];
                while !c.eat(')') {
                    let t = c.ty();
                    if t == Ty::Other {
                        // metadata argument
                        let mut d = 0;
                        loop {
                            match c.peek() {
                                Some(Tok::P('(')) => d += 1,
                                Some(Tok::P(')')) if d == 0 => break,
                                Some(Tok::P(')')) => d -= 1,
                                Some(Tok::P(',')) if d == 0 => break,
                                _ => {}
                            }
                            c.i += 1;
                        }
                        args.push((Ty::Other, Op::K(Val::C(0))));
                    } else {
                        c.skip_attrs();
                        let v = c.val(&t, &mut rg);
                        args.push((t, v));
                    }
                    c.eat(',');
                }
                let mut normal = None;
                if op == "invoke" {
                    while !c.eat_w("to") {
                        c.i += 1;
                    }
                    c.word();
                    if let Tok::Local(n) = c.next() {
                        normal = Some(lab(n));
                    }
                }
                Inst::Call { dst, ret, callee, args, normal, line: line as u32 }
            }
            "br" => {
                if c.eat_w("label") {
                    match c.next() {
                        Tok::Local(n) => Inst::Br(lab(n)),
                        _ => panic!(),
                    }
                } else {
                    let t = c.ty();
                    let v = c.val(&t, &mut rg);
                    c.expect(',');
                    c.word();
                    let a = match c.next() {
                        Tok::Local(n) => lab(n),
                        _ => panic!(),
                    };
                    c.expect(',');
                    c.word();
                    let b = match c.next() {
                        Tok::Local(n) => lab(n),
                        _ => panic!(),
                    };
                    Inst::CondBr(v, a, b)
                }
            }
            "switch" => {
                let t = c.ty();
                let v = c.val(&t, &mut rg);
                c.expect(',');
                c.word();
                let d = match c.next() {
                    Tok::Local(n) => lab(n),
                    _ => panic!(),
                };
                c.expect('[');
                let mut cs = vec![];
                while !c.eat(']') {
                    let ct = c.ty();
                    let k = c.kval(&ct, &mut rg).c().unwrap();
                    c.expect(',');
                    c.word();
                    match c.next() {
                        Tok::Local(n) => cs.push((k, lab(n))),
                        _ => panic!(),
                    }
                }
                Inst::Switch(t.bits(), v, d, cs)
            }
            "ret" => {
                let t = c.ty();
                if t == Ty::Void {
                    Inst::Ret(t, None)
                } else {
                    let v = c.val(&t, &mut rg);
                    Inst::Ret(t, Some(v))
                }
            }
            "unreachable" => Inst::Unreachable,
            "phi" => {
                c.skip_to_type();
                let t = c.ty();
                let mut v = vec![];
                loop {
                    c.expect('[');
                    let x = c.val(&t, &mut rg);
                    c.expect(',');
                    let l = match c.next() {
                        Tok::Local(n) => lab(n),
                        _ => panic!(),
                    };
                    c.expect(']');
                    v.push((x, l));
                    if !(c.is_p(',') && matches!(c.t.get(c.i + 1), Some(Tok::P('[')))) {
                        break;
                    }
                    c.i += 1;
                }
                phis.push((dst, t, v));
                return None;
            }
            "extractvalue" => {
                let t = c.ty();
                let a = c.val(&t, &mut rg);
                let mut ix = vec![];
                while c.eat(',') {
                    if let Some(Tok::Word(w)) = c.peek() {
                        if let Ok(k) = w.parse() {
                            ix.push(k);
                            c.i += 1;
                            continue;
                        }
                    }
                    break;
                }
                Inst::Extract(dst, a, ix)
            }
            "insertvalue" => {
                let t = c.ty();
                let a = c.val(&t, &mut rg);
                c.expect(',');
                let et = c.ty();
                let e = c.val(&et, &mut rg);
                let mut ix = vec![];
                while c.eat(',') {
                    if let Some(Tok::Word(w)) = c.peek() {
                        if let Ok(k) = w.parse() {
                            ix.push(k);
                            c.i += 1;
                            continue;
                        }
                    }
                    break;
                }
                Inst::Insert(dst, t, a, e, ix)
            }
            "extractelement" => {
                let t = c.ty();
                let a = c.val(&t, &mut rg);
                c.expect(',');
                let it = c.ty();
                let i = c.val(&it, &mut rg);
                Inst::ExtractElem(dst, a, i)
            }
            "insertelement" => {
                let t = c.ty();
                let a = c.val(&t, &mut rg);
                c.expect(',');
                let et = c.ty();
                let e = c.val(&et, &mut rg);
                c.expect(',');
                let it = c.ty();
                let i = c.val(&it, &mut rg);
                Inst::InsertElem(dst, t, a, e, i)
            }
            "shufflevector" => {
                let t = c.ty();
                let a = c.val(&t, &mut rg);
                c.expect(',');
                let t2 = c.ty();
                let b = c.val(&t2, &mut rg);
                c.expect(',');
                let mt = c.ty();
                let mv = c.kval(&mt, &mut rg);
                let ix = match mv {
                    Val::A(v) => v.iter().map(|x| x.c().unwrap() as usize).collect(),
                    _ => vec![0; mt.count()],
                };
                Inst::Shuffle(dst, a, b, ix, t)
            }
            "atomicrmw" => {
                let mut k = c.word();
                if k == "volatile" {
                    k = c.word();
                }
                let pt = c.ty();
                let p = c.val(&pt, &mut rg);
                c.expect(',');
                let t = c.ty();
                let v = c.val(&t, &mut rg);
                Inst::Rmw(k, t, dst, p, v)
            }
            "cmpxchg" => {
                c.skip_to_type();
                let pt = c.ty();
                let p = c.val(&pt, &mut rg);
                c.expect(',');
                let t = c.ty();
                let a = c.val(&t, &mut rg);
                c.expect(',');
                let t2 = c.ty();
                let b = c.val(&t2, &mut rg);
                Inst::CmpXchg(t, dst, p, a, b)
            }
            "fence" => Inst::Nop,
            "landingpad" | "resume" => Inst::Bad("unwinding".into()),
            x => Inst::Bad(x.to_string()),
        };
        Some(inst)
    }

    /// file:line of a `!DILocation`.
    pub fn dbg_loc(&self, d: u32) -> Option<(String, u32)> {
        let l = self.line(*self.meta_lines.get(&d)?);
        if !l.contains("!DILocation(") {
            return None;
        }
        let line: u32 = field(l, "line: ")?.parse().ok()?;
        let mut sc: u32 = field(l, "scope: !")?.parse().ok()?;
        for _ in 0..40 {
            let s = self.line(*self.meta_lines.get(&sc)?);
            if let Some(f) = field(s, "file: !") {
                let f: u32 = f.parse().ok()?;
                let fl = self.line(*self.meta_lines.get(&f)?);
                let p = fl.find("filename: \"")? + 11;
                let e = fl[p..].find('"')?;
                return Some((fl[p..p + e].to_string(), line));
            }
            sc = field(s, "scope: !")?.parse().ok()?;
        }
        None
    }
}

fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    let p = l.find(k)? + k.len();
    let e = l[p..].find(|c: char| c == ',' || c == ')')?;
    Some(&l[p..p + e])
}

pub fn store_const(t: &Ty, v: &Val, d: &mut [u8], off: usize) {
    match t {
        Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
            if let Val::A(vs) = v {
                for (i, x) in vs.iter().enumerate() {
                    store_const(t.elem(i), x, d, off + t.field_off(i) as usize);
                }
            }
        }
        _ => {
            if let Val::C(x) = v {
                for i in 0..t.store_size() as usize {
                    d[off + i] = (x >> (8 * i)) as u8;
                }
            }
        }
    }
}

fn global_name(l: &str) -> String {
    let r = &l[1..];
    if let Some(q) = r.strip_prefix('"') {
        q[..q.find('"').unwrap()].to_string()
    } else {
        let e = r
            .find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-'))
            .unwrap_or(r.len());
        r[..e].to_string()
    }
}
fn label_name(l: &str) -> String {
    if let Some(q) = l.strip_prefix('"') {
        q[..q.find('"').unwrap()].to_string()
    } else {
        l[..l.find(':').unwrap()].to_string()
    }
}
