//! Parser for textual LLVM IR (as printed by rustc 1.99 / LLVM 23) into a pre-decoded form.
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Vec(usize, Box<Ty>),
    Arr(usize, Box<Ty>),
    Struct(bool, Vec<Ty>),
    Label,
    Meta,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                if *w <= 128 { b.next_power_of_two() } else { (b + 7) / 8 * 8 }
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Vec(n, t) => ((*n as u64) * (t.bits() as u64) + 7) / 8,
            Ty::Arr(n, t) => *n as u64 * t.size(),
            Ty::Struct(packed, fs) => {
                let mut o = 0u64;
                let mut al = 1;
                for f in fs {
                    if !*packed {
                        let a = f.align();
                        al = al.max(a);
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 1,
            Ty::Int(_) => self.size().min(16),
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(p, fs) => {
                if *p { 1 } else { fs.iter().map(|f| f.align()).max().unwrap_or(1) }
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(packed, fs) => {
                let mut o = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i { return o; }
                    o += f.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(_, fs) => &fs[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem {:?}", self),
        }
    }
}

/// Constants, before addresses are known.
#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    Undef(Ty),
    Zero(Ty),
    Global(Arc<str>),
    Agg(Vec<(Ty, K)>),
    Bytes(Vec<u8>),
    /// offset from constant
    Add(Box<K>, i64),
    SubTrunc(Box<K>, Box<K>, u32),
    Bad(String),
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    C(K),
    V(V),
}

/// A run-time value: concrete bits, a term, or an aggregate (struct, array, vector).
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    C(u128),
    S(u32),
    A(Vec<V>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, Same }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FOp { Add, Sub, Mul, Div, Rem, Neg, Abs, Ceil, Floor, Trunc, Cmp(u8), FromU, FromS, ToU, ToS, Conv }

/// The value of a floating-point operation on concrete bits (`iw`: operand width, `ow`: result width).
pub fn fp_eval(op: FOp, iw: u32, ow: u32, a: u128, b: u128) -> u128 {
    let ld = |x: u128, w: u32| -> f64 { if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) } };
    let stw = |x: f64, w: u32| -> u128 { if w == 32 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 } };
    let (x, y) = (ld(a, iw), ld(b, iw));
    match op {
        // a single operation on two f32 rounded through f64 is exact for + - * / (53 >= 2*24+2)
        FOp::Add => stw(x + y, ow), FOp::Sub => stw(x - y, ow), FOp::Mul => stw(x * y, ow), FOp::Div => stw(x / y, ow), FOp::Rem => stw(x % y, ow),
        FOp::Neg => a ^ (1u128 << (iw - 1)), FOp::Abs => a & !(1u128 << (iw - 1)),
        FOp::Ceil => stw(x.ceil(), ow), FOp::Floor => stw(x.floor(), ow), FOp::Trunc => stw(x.trunc(), ow),
        FOp::Cmp(m) => {
            // LLVM's encoding: bit 0 equal, bit 1 greater, bit 2 less, bit 3 unordered
            let k = if x.is_nan() || y.is_nan() { 8 } else if x == y { 1 } else if x > y { 2 } else { 4 };
            (m & k != 0) as u128
        }
        FOp::FromU => if ow == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        FOp::FromS => { let v = ((a << (128 - iw)) as i128) >> (128 - iw); if ow == 32 { (v as f32).to_bits() as u128 } else { (v as f64).to_bits() as u128 } }
        FOp::ToU => (x as u128).min(mask(ow)),
        FOp::ToS => { let hi = (mask(ow) >> 1) as i128; let v = (x as i128).clamp(-hi - 1, hi); v as u128 & mask(ow) }
        FOp::Conv => stw(x, ow),
    }
}

fn float_bits(s: &str, w: u32) -> Option<u128> {
    let h = s.strip_prefix("f0x").or_else(|| s.strip_prefix("0x"));
    if let Some(h) = h {
        let k = u128::from_str_radix(h, 16).ok()?;
        // the old hexadecimal form writes a float as the double of the same value
        return Some(if w == 32 && h.len() > 8 { (f64::from_bits(k as u64) as f32).to_bits() as u128 } else { k });
    }
    let d: f64 = s.parse().ok()?;
    match w { 32 => Some((d as f32).to_bits() as u128), 64 => Some(d.to_bits() as u128), _ => None }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw { Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin, USubSat, UIncWrap, UDecWrap, USubCond }

#[derive(Clone, Debug)]
pub enum Op {
    Bin(Bin, Ty, O, O),
    ICmp(Pred, Ty, O, O),
    Select(Ty, O, Ty, O, O),
    Cast(CastOp, Ty, O, Ty),
    BitCast(Ty, O, Ty),
    Load(Ty, O, bool),
    Store(Ty, O, O, bool),
    Alloca(u64, u64, Option<(Ty, O)>),
    Gep(O, i64, Vec<(Ty, O, i64)>),
    Extract(O, Vec<usize>),
    Insert(Ty, O, O, Vec<usize>),
    ExtractEl(O, O),
    InsertEl(Ty, O, O, O),
    Shuffle(O, O, Vec<i64>, usize),
    Call { callee: O, args: Vec<(Ty, O)>, ret: Ty, normal: Option<u32> },
    Br(u32),
    CondBr(O, u32, u32),
    Switch(Ty, O, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, O)>),
    Unreachable,
    Resume,
    Rmw(Rmw, Ty, O, O),
    CmpXchg(Ty, O, O, O),
    Fence,
    Freeze(O),
    WideDiv(O, O, O),
    /// floating point: operation, operand width, operands, result width
    Fp(FOp, u32, O, Option<O>, u32),
    LandingPad,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: u32, // u32::MAX: none
    pub dbg: u32,
    pub op: Op,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: Arc<str>,
    pub params: Vec<(u32, Ty)>,
    pub param_byval: Vec<Option<u64>>,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub name: Arc<str>,
    pub ty: Ty,
    pub init: Option<K>,
    pub constant: bool,
    pub tls: bool,
    pub align: u64,
}

#[derive(Default)]
pub struct Module {
    pub globals: Vec<Global>,
    pub aliases: Vec<(Arc<str>, K)>,
    pub funcs: Vec<Func>,
    pub decls: Vec<Arc<str>>,
    pub named: HashMap<String, Ty>,
    /// metadata id -> (line, scope)
    pub dilocs: HashMap<u32, (u32, u32, u32)>, // line, scope, inlinedAt (0 none)
    pub discopes: HashMap<u32, (u32, u32, String, bool)>, // parent scope, file, name, is_subprogram
    pub difiles: HashMap<u32, String>,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Local(String),
    Global(String),
    Word(String),
    Int(String),
    Str(Vec<u8>),
    Md(String),
    Attr,
    P(char),
    Nl,
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
}

fn unhex(c: u8) -> u8 {
    match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => 0,
    }
}

impl<'a> Lex<'a> {
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut out = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    out.push(b'\\');
                    self.i += 2;
                } else {
                    out.push(unhex(self.s[self.i + 1]) * 16 + unhex(self.s[self.i + 2]));
                    self.i += 3;
                }
            } else {
                out.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        out
    }
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            String::from_utf8_lossy(&self.quoted()).into_owned()
        } else {
            let st = self.i;
            while self.i < self.s.len()
                && (self.s[self.i].is_ascii_alphanumeric() || b"._$-".contains(&self.s[self.i]))
            {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn next(&mut self) -> Option<T> {
        loop {
            if self.i >= self.s.len() { return None; }
            let c = self.s[self.i];
            match c {
                b'\n' => { self.i += 1; return Some(T::Nl); }
                b' ' | b'\t' | b'\r' => { self.i += 1; }
                b';' => { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } }
                b'%' => { self.i += 1; return Some(T::Local(self.name())); }
                b'@' => { self.i += 1; return Some(T::Global(self.name())); }
                b'#' => {
                    self.i += 1;
                    let _ = self.name();
                    return Some(T::Attr);
                }
                b'!' => {
                    self.i += 1;
                    if self.i < self.s.len() && self.s[self.i] == b'{' { return Some(T::Md(String::new())); }
                    if self.i < self.s.len() && self.s[self.i] == b'"' { let _ = self.quoted(); return Some(T::Md(String::new())); }
                    return Some(T::Md(self.name()));
                }
                b'"' => return Some(T::Str(self.quoted())),
                b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                    self.i += 1;
                    return Some(T::Str(self.quoted()));
                }
                b'-' | b'0'..=b'9' => {
                    let st = self.i;
                    self.i += 1;
                    while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b".+-_".contains(&self.s[self.i])) {
                        self.i += 1;
                    }
                    return Some(T::Int(String::from_utf8_lossy(&self.s[st..self.i]).into_owned()));
                }
                b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'.' | b'$' => {
                    let st = self.i;
                    while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b"._$".contains(&self.s[self.i])) {
                        self.i += 1;
                    }
                    return Some(T::Word(String::from_utf8_lossy(&self.s[st..self.i]).into_owned()));
                }
                _ => { self.i += 1; return Some(T::P(c as char)); }
            }
        }
    }
}

type R<X> = Result<X, String>;

struct P<'a> {
    t: &'a [T],
    i: usize,
    named: &'a HashMap<String, Ty>,
}

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) { return *r; }
        let k = self.regs.len() as u32;
        self.regs.insert(n.to_string(), k);
        k
    }
    fn bb(&mut self, n: &str) -> u32 {
        if let Some(r) = self.blocks.get(n) { return *r; }
        let k = self.blocks.len() as u32;
        self.blocks.insert(n.to_string(), k);
        k
    }
}

fn parse_int(s: &str) -> R<u128> {
    if let Some(h) = s.strip_prefix("0x") {
        let h = h.trim_start_matches(|c: char| !c.is_ascii_hexdigit());
        return u128::from_str_radix(h, 16).map_err(|e| format!("{e} {s}"));
    }
    if let Some(n) = s.strip_prefix('-') {
        return n.parse::<u128>().map(|x| x.wrapping_neg()).map_err(|e| format!("{e} {s}"));
    }
    s.parse::<u128>().map_err(|e| format!("{e} {s}"))
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

impl<'a> P<'a> {
    fn peek(&self) -> &T { self.t.get(self.i).unwrap_or(&T::Nl) }
    fn peek_at(&self, k: usize) -> &T { self.t.get(self.i + k).unwrap_or(&T::Nl) }
    fn adv(&mut self) -> T { let t = self.peek().clone(); self.i += 1; t }
    fn is_p(&self, c: char) -> bool { *self.peek() == T::P(c) }
    fn eat_p(&mut self, c: char) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn want_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) { Ok(()) } else { Err(format!("expected {c} got {:?}", self.peek())) }
    }
    fn is_w(&self, w: &str) -> bool { matches!(self.peek(), T::Word(x) if x == w) }
    fn eat_w(&mut self, w: &str) -> bool { if self.is_w(w) { self.i += 1; true } else { false } }
    fn skip_group(&mut self) {
        // at '(' ; skip to the matching ')'
        let mut d = 0;
        loop {
            match self.adv() {
                T::P('(') => d += 1,
                T::P(')') => { d -= 1; if d == 0 { return; } }
                T::Nl if self.i >= self.t.len() => return,
                _ => {}
            }
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            T::Word(w) => is_type_word(w),
            T::P('[') | T::P('<') | T::P('{') => true,
            T::Local(_) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.adv() {
            T::Word(w) => {
                if w == "ptr" {
                    if self.is_w("addrspace") { self.adv(); self.skip_group(); }
                    Ty::Ptr
                } else if w == "void" { Ty::Void }
                else if w == "label" { Ty::Label }
                else if w == "metadata" || w == "token" { Ty::Meta }
                else if w == "float" { Ty::Float(32) }
                else if w == "double" { Ty::Float(64) }
                else if w == "half" || w == "bfloat" { Ty::Float(16) }
                else if w == "fp128" || w == "x86_fp80" { Ty::Float(128) }
                else if w.starts_with('i') && w[1..].parse::<u32>().is_ok() { Ty::Int(w[1..].parse().unwrap()) }
                else { return Err(format!("type {w}")); }
            }
            T::P('[') => {
                let n = match self.adv() { T::Int(s) => s.parse::<usize>().map_err(|e| e.to_string())?, x => return Err(format!("arr {x:?}")) };
                if !self.eat_w("x") { return Err("x".into()); }
                let t = self.ty()?;
                self.want_p(']')?;
                Ty::Arr(n, Box::new(t))
            }
            T::P('<') => {
                if self.is_p('{') {
                    self.adv();
                    let mut fs = vec![];
                    while !self.eat_p('}') { fs.push(self.ty()?); self.eat_p(','); }
                    self.want_p('>')?;
                    Ty::Struct(true, fs)
                } else {
                    let n = match self.adv() { T::Int(s) => s.parse::<usize>().map_err(|e| e.to_string())?, x => return Err(format!("vec {x:?}")) };
                    if !self.eat_w("x") { return Err("x".into()); }
                    let t = self.ty()?;
                    self.want_p('>')?;
                    Ty::Vec(n, Box::new(t))
                }
            }
            T::P('{') => {
                let mut fs = vec![];
                while !self.eat_p('}') { fs.push(self.ty()?); self.eat_p(','); }
                Ty::Struct(false, fs)
            }
            T::Local(n) => self.named.get(&n).cloned().ok_or(format!("named type {n}"))?,
            x => return Err(format!("type? {x:?}")),
        };
        Ok(t)
    }
    fn skip_attrs(&mut self) {
        // parameter/return attributes; stops at an operand / type / punctuation
        loop {
            match self.peek().clone() {
                T::Word(w) => {
                    if is_type_word(&w) || is_const_word(&w) { return; }
                    self.adv();
                    if w == "align" || w == "alignstack" {
                        if let T::Int(_) = self.peek() { self.adv(); }
                    }
                    if self.is_p('(') { self.skip_group(); }
                }
                T::Str(_) => {
                    self.adv();
                    if self.eat_p('=') { self.adv(); }
                }
                T::Attr => { self.adv(); }
                _ => return,
            }
        }
    }
    fn konst(&mut self, ty: &Ty) -> R<K> {
        match self.adv() {
            T::Int(s) => {
                if let Ty::Float(w) = ty { return Ok(match float_bits(&s, *w) { Some(k) => K::Int(k), None => K::Bad(format!("float {s}")) }); }
                Ok(K::Int(parse_int(&s)? & mask(ty.bits())))
            }
            T::Global(n) => Ok(K::Global(n.into())),
            T::Str(b) => Ok(K::Bytes(b)),
            T::P('<') if self.is_p('{') => {
                self.adv();
                let v = self.agg_items('}')?;
                self.want_p('>')?;
                Ok(K::Agg(v))
            }
            T::P('<') => { let v = self.agg_items('>')?; Ok(K::Agg(v)) }
            T::P('{') => { let v = self.agg_items('}')?; Ok(K::Agg(v)) }
            T::P('[') => { let v = self.agg_items(']')?; Ok(K::Agg(v)) }
            T::Word(w) if w.starts_with("f0x") => Ok(match float_bits(&w, ty.bits()) { Some(k) => K::Int(k), None => K::Bad(format!("float {w}")) }),
            T::Word(w) => match w.as_str() {
                "true" => Ok(K::Int(1)),
                "false" => Ok(K::Int(0)),
                "null" | "none" => Ok(K::Int(0)),
                "undef" | "poison" => Ok(K::Undef(ty.clone())),
                "zeroinitializer" => Ok(K::Zero(ty.clone())),
                "splat" => {
                    self.want_p('(')?;
                    let t = self.ty()?;
                    let k = self.konst(&t)?;
                    self.want_p(')')?;
                    let n = match ty { Ty::Vec(n, _) => *n, Ty::Arr(n, _) => *n, _ => return Err("splat".into()) };
                    Ok(K::Agg(vec![(t, k); n]))
                }
                "getelementptr" => {
                    while matches!(self.peek(), T::Word(_)) && !self.is_p('(') {
                        self.adv();
                        if self.is_p('(') && matches!(self.t.get(self.i - 1), Some(T::Word(w)) if w == "inrange") { self.skip_group(); }
                    }
                    self.want_p('(')?;
                    let bt = self.ty()?;
                    self.want_p(',')?;
                    let pt = self.ty()?;
                    let base = self.konst(&pt)?;
                    let mut off = 0i64;
                    let mut cur = bt;
                    let mut first = true;
                    while self.eat_p(',') {
                        let it = self.ty()?;
                        let idx = match self.konst(&it)? { K::Int(x) => sext(x, it.bits()) as i64, K::Undef(_) => 0, k => return Err(format!("gep idx {k:?}")) };
                        if first { off += idx * cur.size() as i64; first = false; }
                        else {
                            off += match &cur { Ty::Struct(..) => cur.field_off(idx as usize) as i64, _ => idx * cur.elem(0).size() as i64 };
                            cur = cur.elem(if let Ty::Struct(..) = cur { idx as usize } else { 0 }).clone();
                        }
                    }
                    self.want_p(')')?;
                    Ok(K::Add(Box::new(base), off))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" | "addrspacecast" => {
                    self.want_p('(')?;
                    let t = self.ty()?;
                    let k = self.konst(&t)?;
                    if !self.eat_w("to") { return Err("to".into()); }
                    let t2 = self.ty()?;
                    self.want_p(')')?;
                    if w == "trunc" { Ok(K::SubTrunc(Box::new(k), Box::new(K::Int(0)), t2.bits())) } else { Ok(k) }
                }
                "sub" | "add" => {
                    while matches!(self.peek(), T::Word(_)) { self.adv(); }
                    self.want_p('(')?;
                    let t = self.ty()?;
                    let a = self.konst(&t)?;
                    self.want_p(',')?;
                    let t = self.ty()?;
                    let b = self.konst(&t)?;
                    self.want_p(')')?;
                    if w == "sub" { Ok(K::SubTrunc(Box::new(a), Box::new(b), t.bits())) }
                    else if let K::Int(x) = b { Ok(K::Add(Box::new(a), x as i64)) }
                    else { Err("const add".into()) }
                }
                _ => Err(format!("const {w}")),
            },
            x => Err(format!("const? {x:?}")),
        }
    }
    fn agg_items(&mut self, end: char) -> R<Vec<(Ty, K)>> {
        let mut v = vec![];
        while !self.eat_p(end) {
            let t = self.ty()?;
            let k = self.konst(&t)?;
            v.push((t, k));
            self.eat_p(',');
        }
        Ok(v)
    }
    fn val(&mut self, ty: &Ty, f: &mut FnCtx) -> R<O> {
        match self.peek().clone() {
            T::Local(n) => { self.adv(); Ok(O::R(f.reg(&n))) }
            _ => Ok(O::C(self.konst(ty)?)),
        }
    }
    fn tval(&mut self, f: &mut FnCtx) -> R<(Ty, O)> {
        let t = self.ty()?;
        self.skip_attrs();
        if t == Ty::Meta {
            // metadata operand: skip to , or )
            let mut d = 0;
            loop {
                match self.peek() {
                    T::P('(') | T::P('{') => d += 1,
                    T::P(')') | T::P('}') => { if d == 0 { break; } d -= 1; }
                    T::P(',') if d == 0 => break,
                    T::Nl => break,
                    _ => {}
                }
                self.adv();
            }
            return Ok((t, O::C(K::Int(0))));
        }
        let v = self.val(&t, f)?;
        Ok((t, v))
    }
    fn label(&mut self, f: &mut FnCtx) -> R<u32> {
        if !self.eat_w("label") { return Err("label".into()); }
        match self.adv() { T::Local(n) => Ok(f.bb(&n)), x => Err(format!("label {x:?}")) }
    }
    fn flags(&mut self, fl: &[&str]) {
        while let T::Word(w) = self.peek() {
            if fl.contains(&w.as_str()) { self.adv(); if self.is_p('(') && w_is_grouped(self.t, self.i) { self.skip_group(); } } else { break; }
        }
    }
}

fn w_is_grouped(_t: &[T], _i: usize) -> bool { false }

pub fn sext(x: u128, w: u32) -> i128 {
    if w >= 128 { return x as i128; }
    let s = 128 - w;
    ((x << s) as i128) >> s
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "ptr" | "void" | "label" | "metadata" | "token" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80")
        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()))
}
fn is_const_word(w: &str) -> bool {
    matches!(w, "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "sub" | "add" | "asm" | "blockaddress" | "addrspacecast")
}

fn lex_all(s: &str) -> Vec<T> {
    let mut l = Lex { s: s.as_bytes(), i: 0 };
    let mut v = vec![];
    while let Some(t) = l.next() { v.push(t); }
    v
}

fn binop(w: &str) -> Option<Bin> {
    Some(match w {
        "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv,
        "urem" => Bin::URem, "srem" => Bin::SRem, "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr,
        "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor,
        _ => return None,
    })
}

const CALL_SKIP_STOP: &[&str] = &["asm"];

fn parse_call(p: &mut P, f: &mut FnCtx) -> R<Op> {
    // after 'call'/'invoke'
    // skip cc, flags, ret attrs until a type
    loop {
        match p.peek().clone() {
            T::Word(w) if is_type_word(&w) => break,
            T::P('[') | T::P('<') | T::P('{') => break,
            T::Local(_) => break,
            T::Word(w) => {
                if CALL_SKIP_STOP.contains(&w.as_str()) { return Err("asm".into()); }
                p.adv();
                if w == "align" || w == "cc" { if let T::Int(_) = p.peek() { p.adv(); } }
                if p.is_p('(') { p.skip_group(); }
            }
            T::Str(_) => { p.adv(); if p.eat_p('=') { p.adv(); } }
            T::Attr => { p.adv(); }
            x => return Err(format!("call prefix {x:?}")),
        }
    }
    let ret = p.ty()?;
    if p.is_p('(') { p.skip_group(); } // explicit function type
    if p.is_w("asm") {
        // the x86 wide division of num-bigint: {remainder, quotient} = hi:lo / d
        while !p.is_p('(') {
            let t = p.adv();
            if let T::Str(b) = &t {
                if b.starts_with(b"div ${2:q}") { break; }
                // a processor without optional features
                if b.windows(5).any(|w| w == b"cpuid") { return Ok(Op::Freeze(O::C(K::Zero(ret)))); }
                // an empty statement that only constrains the optimizer
                if b.is_empty() && ret == Ty::Void { return Ok(Op::Fence); }
                if !b.is_empty() { return Err("asm".into()); }
            }
        }
        match p.adv() { T::P(',') => {} _ => return Err("asm".into()) }
        match p.adv() { T::Str(b) if b.starts_with(b"=&{dx},=&{ax},r,0,1") => {} _ => return Err("asm".into()) }
        p.want_p('(')?;
        let d = p.tval(f)?.1; p.want_p(',')?;
        let hi = p.tval(f)?.1; p.want_p(',')?;
        let lo = p.tval(f)?.1;
        return Ok(Op::WideDiv(d, hi, lo));
    }
    let callee = p.val(&Ty::Ptr, f)?;
    p.want_p('(')?;
    let mut args = vec![];
    while !p.eat_p(')') {
        if p.is_p('.') || matches!(p.peek(), T::Word(w) if w == "...") { p.adv(); continue; }
        args.push(p.tval(f)?);
        p.eat_p(',');
    }
    Ok(Op::Call { callee, args, ret, normal: None })
}

const FF: &[&str] = &["nnan", "ninf", "nsz", "fast", "contract", "reassoc", "arcp", "afn"];

fn fp_op(op: FOp, t: &Ty, a: O, b: Option<O>, r: &Ty) -> R<Op> {
    match (t, r) {
        (Ty::Vec(..), _) | (_, Ty::Vec(..)) => Ok(Op::Unsupported("vector floating point".into())),
        _ if t.bits() > 64 && matches!(t, Ty::Float(_)) || t.bits() == 16 && matches!(t, Ty::Float(_)) => Ok(Op::Unsupported("floating point of this width".into())),
        _ => Ok(Op::Fp(op, t.bits(), a, b, r.bits())),
    }
}

fn parse_inst(p: &mut P, f: &mut FnCtx, phi: &mut Option<Vec<(u32, O)>>) -> R<Op> {
    let w = match p.adv() { T::Word(w) => w, x => return Err(format!("inst {x:?}")) };
    if let Some(b) = binop(&w) {
        p.flags(&["nuw", "nsw", "exact", "disjoint"]);
        let t = p.ty()?;
        let a = p.val(&t, f)?;
        p.want_p(',')?;
        let c = p.val(&t, f)?;
        return Ok(Op::Bin(b, t, a, c));
    }
    match w.as_str() {
        "icmp" => {
            p.flags(&["samesign"]);
            let pr = match p.adv() {
                T::Word(w) => match w.as_str() {
                    "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle,
                    x => return Err(format!("pred {x}")),
                },
                x => return Err(format!("pred {x:?}")),
            };
            let t = p.ty()?;
            let a = p.val(&t, f)?;
            p.want_p(',')?;
            let b = p.val(&t, f)?;
            Ok(Op::ICmp(pr, t, a, b))
        }
        "fcmp" => {
            p.flags(FF);
            let m = match p.adv() {
                T::Word(w) => match w.as_str() {
                    "false" => 0, "oeq" => 1, "ogt" => 2, "oge" => 3, "olt" => 4, "ole" => 5, "one" => 6, "ord" => 7,
                    "uno" => 8, "ueq" => 9, "ugt" => 10, "uge" => 11, "ult" => 12, "ule" => 13, "une" => 14, "true" => 15,
                    x => return Err(format!("fpred {x}")),
                },
                x => return Err(format!("fpred {x:?}")),
            };
            let t = p.ty()?;
            let a = p.val(&t, f)?;
            p.want_p(',')?;
            let b = p.val(&t, f)?;
            fp_op(FOp::Cmp(m), &t, a, Some(b), &Ty::Int(1))
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            p.flags(FF);
            let t = p.ty()?;
            let a = p.val(&t, f)?;
            p.want_p(',')?;
            let b = p.val(&t, f)?;
            let o = match w.as_str() { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, _ => FOp::Rem };
            fp_op(o, &t, a, Some(b), &t)
        }
        "fneg" => {
            p.flags(FF);
            let (t, a) = p.tval(f)?;
            fp_op(FOp::Neg, &t, a, None, &t)
        }
        "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
            p.flags(&["nneg", "nnan", "ninf", "nsz", "fast", "contract", "reassoc", "arcp", "afn"]);
            let (t, a) = p.tval(f)?;
            if !p.eat_w("to") { return Err("to".into()); }
            let t2 = p.ty()?;
            let o = match w.as_str() { "uitofp" => FOp::FromU, "sitofp" => FOp::FromS, "fptoui" => FOp::ToU, "fptosi" => FOp::ToS, _ => FOp::Conv };
            fp_op(o, &t, a, None, &t2)
        }
        "select" => {
            p.flags(&["nnan", "ninf", "nsz", "fast", "contract", "reassoc", "arcp", "afn"]);
            let (ct, c) = p.tval(f)?;
            p.want_p(',')?;
            let (t, a) = p.tval(f)?;
            p.want_p(',')?;
            let (_, b) = p.tval(f)?;
            Ok(Op::Select(ct, c, t, a, b))
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
            p.flags(&["nuw", "nsw", "nneg"]);
            let (t, a) = p.tval(f)?;
            if !p.eat_w("to") { return Err("to".into()); }
            let t2 = p.ty()?;
            let k = match w.as_str() {
                "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt,
                _ => if t.bits() > t2.bits() { CastOp::Trunc } else if t.bits() < t2.bits() { CastOp::ZExt } else { CastOp::Same },
            };
            Ok(Op::Cast(k, t, a, t2))
        }
        "bitcast" => {
            let (t, a) = p.tval(f)?;
            if !p.eat_w("to") { return Err("to".into()); }
            let t2 = p.ty()?;
            Ok(Op::BitCast(t, a, t2))
        }
        "load" => {
            let at = p.eat_w("atomic");
            p.eat_w("volatile");
            let t = p.ty()?;
            p.want_p(',')?;
            let (_, a) = p.tval(f)?;
            Ok(Op::Load(t, a, at))
        }
        "store" => {
            let at = p.eat_w("atomic");
            p.eat_w("volatile");
            let (t, v) = p.tval(f)?;
            p.want_p(',')?;
            let (_, a) = p.tval(f)?;
            Ok(Op::Store(t, v, a, at))
        }
        "alloca" => {
            p.flags(&["inalloca"]);
            let t = p.ty()?;
            let mut al = t.align().max(8);
            let mut dy = None;
            while p.eat_p(',') {
                if p.eat_w("align") {
                    if let T::Int(s) = p.adv() { al = s.parse().unwrap_or(16); }
                } else if p.is_type_start() {
                    dy = Some(p.tval(f)?);
                } else { break; }
            }
            Ok(Op::Alloca(t.size(), al, dy))
        }
        "getelementptr" => {
            p.flags(&["inbounds", "nuw", "nusw"]);
            if p.eat_w("inrange") { p.skip_group(); }
            let bt = p.ty()?;
            p.want_p(',')?;
            let (bty, base) = p.tval(f)?;
            if let Ty::Vec(..) = bty { return Err("vector gep".into()); }
            let mut off = 0i64;
            let mut dynm = vec![];
            let mut cur = bt;
            let mut first = true;
            while p.eat_p(',') {
                if !p.is_type_start() { break; }
                let (it, iv) = p.tval(f)?;
                let scale = if first { cur.size() as i64 } else if let Ty::Struct(..) = cur { 0 } else { cur.elem(0).size() as i64 };
                match iv {
                    O::C(K::Int(x)) => {
                        let idx = sext(x, it.bits()) as i64;
                        if !first && matches!(cur, Ty::Struct(..)) { off += cur.field_off(idx as usize) as i64; } else { off = off.wrapping_add(idx.wrapping_mul(scale)); }
                        if !first { cur = cur.elem(if let Ty::Struct(..) = cur { idx as usize } else { 0 }).clone(); }
                    }
                    o => {
                        dynm.push((it, o, scale));
                        if !first { cur = cur.elem(0).clone(); }
                    }
                }
                first = false;
            }
            Ok(Op::Gep(base, off, dynm))
        }
        "extractvalue" => {
            let (_, a) = p.tval(f)?;
            let mut ix = vec![];
            while p.eat_p(',') { if let T::Int(s) = p.peek().clone() { p.adv(); ix.push(s.parse().map_err(|_| "ix")?); } else { break; } }
            Ok(Op::Extract(a, ix))
        }
        "insertvalue" => {
            let (t, a) = p.tval(f)?;
            p.want_p(',')?;
            let (_, b) = p.tval(f)?;
            let mut ix = vec![];
            while p.eat_p(',') { if let T::Int(s) = p.peek().clone() { p.adv(); ix.push(s.parse().map_err(|_| "ix")?); } else { break; } }
            Ok(Op::Insert(t, a, b, ix))
        }
        "extractelement" => {
            let (_, a) = p.tval(f)?;
            p.want_p(',')?;
            let (_, b) = p.tval(f)?;
            Ok(Op::ExtractEl(a, b))
        }
        "insertelement" => {
            let (t, a) = p.tval(f)?;
            p.want_p(',')?;
            let (_, b) = p.tval(f)?;
            p.want_p(',')?;
            let (_, c) = p.tval(f)?;
            Ok(Op::InsertEl(t, a, b, c))
        }
        "shufflevector" => {
            let (t, a) = p.tval(f)?;
            p.want_p(',')?;
            let (_, b) = p.tval(f)?;
            p.want_p(',')?;
            let (mt, m) = p.tval(f)?;
            let n = match mt { Ty::Vec(n, _) => n, _ => return Err("mask".into()) };
            let srcn = match t { Ty::Vec(n, _) => n, _ => return Err("mask".into()) };
            let mv = match m {
                O::C(K::Zero(_)) => vec![0; n],
                O::C(K::Undef(_)) => vec![0; n],
                O::C(K::Agg(v)) => v.iter().map(|(_, k)| match k { K::Int(x) => *x as i64, _ => 0 }).collect(),
                _ => return Err("mask".into()),
            };
            Ok(Op::Shuffle(a, b, mv, srcn))
        }
        "call" | "tail" | "musttail" | "notail" => {
            if w != "call" { p.adv(); }
            parse_call(p, f)
        }
        "invoke" => {
            let mut c = parse_call(p, f)?;
            // attrs up to 'to'
            while !p.is_w("to") { if p.i >= p.t.len() { return Err("invoke to".into()); } p.adv(); }
            p.adv();
            let n = p.label(f)?;
            while *p.peek() == T::Nl { p.adv(); }
            if !p.eat_w("unwind") { return Err("unwind".into()); }
            let _ = p.label(f)?;
            if let Op::Call { normal, .. } = &mut c { *normal = Some(n); }
            Ok(c)
        }
        "br" => {
            if p.is_w("label") { return Ok(Op::Br(p.label(f)?)); }
            let (_, c) = p.tval(f)?;
            p.want_p(',')?;
            let a = p.label(f)?;
            p.want_p(',')?;
            let b = p.label(f)?;
            Ok(Op::CondBr(c, a, b))
        }
        "switch" => {
            let (t, v) = p.tval(f)?;
            p.want_p(',')?;
            let d = p.label(f)?;
            p.want_p('[')?;
            let mut cases = vec![];
            loop {
                while *p.peek() == T::Nl { if p.i >= p.t.len() { return Err("switch".into()); } p.adv(); }
                if p.eat_p(']') { break; }
                let (ct, c) = p.tval(f)?;
                p.want_p(',')?;
                let l = p.label(f)?;
                if let O::C(K::Int(x)) = c { cases.push((x & mask(ct.bits()), l)); } else { return Err("case".into()); }
            }
            Ok(Op::Switch(t, v, d, cases))
        }
        "ret" => {
            if p.is_w("void") { return Ok(Op::Ret(None)); }
            let (t, v) = p.tval(f)?;
            Ok(Op::Ret(Some((t, v))))
        }
        "unreachable" => Ok(Op::Unreachable),
        "resume" => { let _ = p.tval(f); Ok(Op::Resume) }
        "freeze" => { let (_, a) = p.tval(f)?; Ok(Op::Freeze(a)) }
        "fence" => Ok(Op::Fence),
        "landingpad" => Ok(Op::LandingPad),
        "atomicrmw" => {
            p.eat_w("volatile");
            let op = match p.adv() {
                T::Word(w) => match w.as_str() {
                    "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "nand" => Rmw::Nand, "or" => Rmw::Or, "xor" => Rmw::Xor,
                    "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, "usub_sat" => Rmw::USubSat,
                    "uinc_wrap" => Rmw::UIncWrap, "udec_wrap" => Rmw::UDecWrap, "usub_cond" => Rmw::USubCond,
                    x => return Err(format!("rmw {x}")),
                },
                x => return Err(format!("rmw {x:?}")),
            };
            let (_, a) = p.tval(f)?;
            p.want_p(',')?;
            let (t, v) = p.tval(f)?;
            Ok(Op::Rmw(op, t, a, v))
        }
        "cmpxchg" => {
            p.flags(&["weak", "volatile"]);
            let (_, a) = p.tval(f)?;
            p.want_p(',')?;
            let (t, c) = p.tval(f)?;
            p.want_p(',')?;
            let (_, n) = p.tval(f)?;
            Ok(Op::CmpXchg(t, a, c, n))
        }
        "phi" => {
            p.flags(&["nnan", "ninf", "nsz", "fast", "contract", "reassoc"]);
            let t = p.ty()?;
            let mut v = vec![];
            loop {
                p.want_p('[')?;
                let o = p.val(&t, f)?;
                p.want_p(',')?;
                let b = match p.adv() { T::Local(n) => f.bb(&n), x => return Err(format!("phi {x:?}")) };
                p.want_p(']')?;
                v.push((b, o));
                if !(p.is_p(',') && *p.peek_at(1) == T::P('[')) { break; }
                p.adv();
            }
            *phi = Some(v);
            Ok(Op::Fence)
        }
        _ => Err(format!("unknown inst {w}")),
    }
}

fn dbg_of(line: &str) -> u32 {
    if let Some(k) = line.rfind("!dbg !") {
        let s = &line[k + 6..];
        let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
        return s[..e].parse().unwrap_or(0);
    }
    0
}

fn parse_func(header: &str, body: &[&str], m: &Module) -> R<Func> {
    let toks = lex_all(header);
    let mut p = P { t: &toks, i: 1, named: &m.named };
    // linkage etc up to type
    loop {
        match p.peek().clone() {
            T::Word(w) if is_type_word(&w) => break,
            T::P('[') | T::P('<') | T::P('{') => break,
            T::Word(w) => {
                p.adv();
                if w == "align" || w == "cc" { if let T::Int(_) = p.peek() { p.adv(); } }
                if p.is_p('(') { p.skip_group(); }
            }
            T::Str(_) => { p.adv(); if p.eat_p('=') { p.adv(); } }
            T::Local(_) => break,
            x => return Err(format!("define {x:?}")),
        }
    }
    let ret = p.ty()?;
    let name: Arc<str> = match p.adv() { T::Global(n) => n.into(), x => return Err(format!("fname {x:?}")) };
    let mut f = FnCtx { regs: HashMap::new(), blocks: HashMap::new() };
    p.want_p('(')?;
    let mut params = vec![];
    let mut byval = vec![];
    let mut unnamed = 0u32;
    while !p.eat_p(')') {
        if p.is_p('.') || matches!(p.peek(), T::Word(w) if w == "...") { p.adv(); continue; }
        let t = p.ty()?;
        let st = p.i;
        p.skip_attrs();
        let mut bv = None;
        for k in st..p.i {
            if matches!(&p.t[k], T::Word(w) if w == "byval") {
                let mut q = P { t: p.t, i: k + 2, named: p.named };
                bv = Some(q.ty()?.size());
            }
        }
        byval.push(bv);
        match p.adv() { T::Local(n) => { if n.parse::<u32>().is_ok() { unnamed += 1; } let r = f.reg(&n); params.push((r, t)); } x => return Err(format!("param {x:?}")) }
        p.eat_p(',');
    }
    // pre-scan blocks in order
    let mut blocks: Vec<Block> = vec![];
    let mut order: Vec<(String, Vec<(usize, usize)>)> = vec![]; // name, (start,end) line ranges
    let mut li = 0;
    while li < body.len() {
        let l = body[li];
        let tl = l.trim_end();
        if tl.is_empty() || l.starts_with(';') || tl.trim_start().starts_with(';') || tl.trim_start().starts_with("#dbg_") { li += 1; continue; }
        if !l.starts_with(' ') && !l.starts_with('\t') {
            // label
            let nm = if l.starts_with('"') {
                let mut lx = Lex { s: l.as_bytes(), i: 0 };
                String::from_utf8_lossy(&lx.quoted()).into_owned()
            } else {
                l[..l.find(':').ok_or("label")?].to_string()
            };
            order.push((nm, vec![]));
            li += 1;
            continue;
        }
        let st = li;
        let tt = tl.trim_start();
        let body_part = match tt.find(" = ") { Some(k) if tt.starts_with('%') => &tt[k + 3..], _ => tt };
        if body_part.starts_with("switch ") {
            while !body[li].trim_start().starts_with(']') && !body[li].trim_end().ends_with(']') && !body[li].contains("],") && !(body[li].contains("[ ]") || body[li].contains("[]")) { li += 1; }
        } else if body_part.starts_with("invoke ") {
            while !body[li].contains(" unwind label ") { li += 1; }
        } else if body_part.starts_with("landingpad ") {
            while li + 1 < body.len() { let n = body[li + 1].trim_start(); if n.starts_with("cleanup") || n.starts_with("catch ") || n.starts_with("filter ") { li += 1; } else { break; } }
        }
        if order.is_empty() { order.push((unnamed.to_string(), vec![])); }
        order.last_mut().unwrap().1.push((st, li));
        li += 1;
    }
    for (n, _) in &order { f.bb(n); }
    for (n, insts) in &order {
        let mut b = Block { name: n.clone(), ..Default::default() };
        for (s, e) in insts {
            let text = body[*s..=*e].join("\n");
            let toks = lex_all(&text);
            let mut p = P { t: &toks, i: 0, named: &m.named };
            let mut dst = u32::MAX;
            if let T::Local(nm) = p.peek().clone() {
                if *p.peek_at(1) == T::P('=') {
                    dst = f.reg(&nm);
                    p.i += 2;
                }
            }
            let mut phi = None;
            let op = match parse_inst(&mut p, &mut f, &mut phi) {
                Ok(o) => o,
                Err(e) => Op::Unsupported(format!("{e}: {}", text.chars().take(200).collect::<String>())),
            };
            if let Some(v) = phi { b.phis.push((dst, v)); continue; }
            b.insts.push(Inst { dst, dbg: dbg_of(&text), op });
        }
        blocks.push(b);
    }
    Ok(Func { name, params, param_byval: byval, ret, nregs: f.regs.len() as u32, blocks })
}

fn md_num(s: &str, key: &str) -> Option<u32> {
    let k = s.find(key)?;
    let s = &s[k + key.len()..];
    let s = s.strip_prefix('!').unwrap_or(s);
    let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    s[..e].parse().ok()
}
fn md_str<'a>(s: &'a str, key: &str) -> Option<&'a str> {
    let k = s.find(key)?;
    let s = &s[k + key.len()..];
    let e = s.find('"')?;
    Some(&s[..e])
}

pub fn parse_module(src: &str) -> R<Module> {
    let mut m = Module::default();
    let lines: Vec<&str> = src.lines().collect();
    // named types first
    let mut pending: Vec<(String, String)> = vec![];
    for l in &lines {
        if l.starts_with('%') {
            if let Some(k) = l.find(" = type ") {
                let n = l[1..k].trim_matches('"').to_string();
                pending.push((n, l[k + 8..].to_string()));
            }
        }
    }
    for _ in 0..pending.len() + 1 {
        let mut done = true;
        for (n, t) in &pending {
            if m.named.contains_key(n) { continue; }
            let toks = lex_all(t);
            let r = { let mut p = P { t: &toks, i: 0, named: &m.named }; p.ty() };
            match r { Ok(t) => { m.named.insert(n.clone(), t); } Err(_) => done = false }
        }
        if done { break; }
    }
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("define ") {
            let mut j = i + 1;
            while lines[j] != "}" { j += 1; }
            let f = parse_func(l, &lines[i + 1..j], &m).map_err(|e| format!("{e} in {}", l.chars().take(200).collect::<String>()))?;
            m.funcs.push(f);
            i = j + 1;
            continue;
        }
        if l.starts_with("declare ") {
            if let Some(k) = l.find('@') {
                let mut lx = Lex { s: l.as_bytes(), i: k + 1 };
                m.decls.push(lx.name().into());
            }
        } else if l.starts_with('@') {
            parse_global(l, &mut m).map_err(|e| format!("{e} in {}", l.chars().take(200).collect::<String>()))?;
        } else if l.starts_with('!') {
            parse_md(l, &mut m);
        }
        i += 1;
    }
    Ok(m)
}

fn parse_md(l: &str, m: &mut Module) {
    let e = match l[1..].find(|c: char| !c.is_ascii_digit()) { Some(e) => e + 1, None => return };
    let id: u32 = match l[1..e].parse() { Ok(x) => x, Err(_) => return };
    if l.contains("!DILocation(") {
        let line = md_num(l, "line: ").unwrap_or(0);
        let sc = md_num(l, "scope: ").unwrap_or(0);
        let ia = md_num(l, "inlinedAt: ").unwrap_or(0);
        m.dilocs.insert(id, (line, sc, ia));
    } else if l.contains("!DISubprogram(") {
        let nm = md_str(l, "linkageName: \"").or(md_str(l, "name: \"")).unwrap_or("").to_string();
        m.discopes.insert(id, (0, md_num(l, " file: ").unwrap_or(0), nm, true));
    } else if l.contains("!DILexicalBlock") {
        m.discopes.insert(id, (md_num(l, "scope: ").unwrap_or(0), md_num(l, " file: ").unwrap_or(0), String::new(), false));
    } else if l.contains("!DIFile(") {
        let f = md_str(l, "filename: \"").unwrap_or("");
        let d = md_str(l, "directory: \"").unwrap_or("");
        let full = if f.starts_with('/') { f.to_string() } else { format!("{d}/{f}") };
        m.difiles.insert(id, full);
    }
}

fn parse_global(l: &str, m: &mut Module) -> R<()> {
    let toks = lex_all(l);
    let mut p = P { t: &toks, i: 0, named: &m.named };
    let name: Arc<str> = match p.adv() { T::Global(n) => n.into(), x => return Err(format!("{x:?}")) };
    p.want_p('=')?;
    let mut tls = false;
    let mut external = false;
    let constant;
    loop {
        match p.adv() {
            T::Word(w) => match w.as_str() {
                "global" => { constant = false; break; }
                "constant" => { constant = true; break; }
                "alias" => {
                    let _ = p.ty()?;
                    if p.is_p('(') { p.skip_group(); }
                    p.want_p(',')?;
                    let t = p.ty()?;
                    let k = p.konst(&t)?;
                    m.aliases.push((name, k));
                    return Ok(());
                }
                "thread_local" => { tls = true; if p.is_p('(') { p.skip_group(); } }
                "external" | "extern_weak" => external = true,
                "ifunc" => return Ok(()),
                _ => { if p.is_p('(') { p.skip_group(); } }
            },
            T::Str(_) => {}
            x => return Err(format!("global {x:?}")),
        }
    }
    let ty = p.ty()?;
    let init = if external && (p.i >= p.t.len() || p.is_p(',') || *p.peek() == T::Nl) { None } else { Some(p.konst(&ty)?) };
    let mut align = 16;
    while p.i < p.t.len() {
        if p.eat_w("align") { if let T::Int(s) = p.peek() { align = s.parse().unwrap_or(16); } }
        p.i += 1;
    }
    m.globals.push(Global { name, ty, init, constant, tls, align });
    Ok(())
}
