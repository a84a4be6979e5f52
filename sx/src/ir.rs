//! LLVM textual IR: types, constants, instructions and a lazy parser.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Arr(Rc<Ty>, u64),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(Rc<Ty>, u32),
    Label,
    Meta,
}

fn align_up(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                if *w <= 8 { 1 } else if *w <= 16 { 2 } else if *w <= 32 { 4 }
                else if *w <= 64 { 8 } else { 16 }
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(t, _) => t.align(),
            Ty::Struct(fs, p) => {
                if *p { 1 } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(t, n) => {
                let s = (t.bits() as u64 * *n as u64 + 7) / 8;
                s.next_power_of_two()
            }
            _ => 1,
        }
    }

    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of {:?}", self),
        }
    }

    /// Bytes written by a store.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(t, n) => (t.bits() as u64 * *n as u64 + 7) / 8,
            _ => self.size(),
        }
    }

    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => align_up((*w as u64 + 7) / 8, self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(t, n) => t.size() * n,
            Ty::Struct(fs, p) => {
                let mut o = 0;
                for f in fs.iter() {
                    if !*p { o = align_up(o, f.align()); }
                    o += f.size();
                }
                align_up(o, self.align())
            }
            Ty::Vec(t, n) => {
                align_up((t.bits() as u64 * *n as u64 + 7) / 8, self.align())
            }
            Ty::Void => 0,
            _ => panic!("size of {:?}", self),
        }
    }

    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, p) => {
                let mut o = 0;
                for (j, f) in fs.iter().enumerate() {
                    if !*p { o = align_up(o, f.align()); }
                    if j == i { return o; }
                    o += f.size();
                }
                panic!("field index")
            }
            Ty::Arr(t, _) => t.size() * i as u64,
            Ty::Vec(t, _) => (t.bits() as u64 / 8) * i as u64,
            _ => panic!("field_offset of {:?}", self),
        }
    }

    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(fs, _) => fs[i].clone(),
            Ty::Arr(t, _) | Ty::Vec(t, _) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }

    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
}

/// Runtime value: concrete, symbolic, or aggregate.
#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(crate::expr::E),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    C(u128),
    K(Rc<V>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast { Trunc, ZExt, SExt, Bit, FpMisc(u8) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FOp { Add, Sub, Mul, Div, Rem }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Max, Min, UMax, UMin, Nand }

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Reg(O),
    Asm(String),
}

#[derive(Clone, Debug)]
pub struct Call {
    pub dst: u32,
    pub rty: Ty,
    pub callee: Callee,
    pub args: Vec<(Ty, O)>,
    /// normal destination when an invoke
    pub to: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(u32, crate::expr::Op, Ty, O, O),
    FBin(u32, FOp, Ty, O, O),
    FNeg(u32, Ty, O),
    ICmp(u32, Pred, Ty, O, O),
    FCmp(u32, String, Ty, O, O),
    Cast(u32, Cast, Ty, O, Ty),
    Select(u32, Ty, O, Ty, O, O),
    Alloca(u32, Ty, O),
    Load(u32, Ty, O),
    Store(Ty, O, O),
    /// dst, base, constant offset, scaled indices (operand, width, scale)
    Gep(u32, O, u64, Vec<(O, u16, u64)>),
    ExtractValue(u32, O, Vec<u32>),
    InsertValue(u32, Ty, O, O, Vec<u32>),
    ExtractElem(u32, Ty, O, O),
    InsertElem(u32, Ty, O, O, O),
    Shuffle(u32, Ty, O, O, Vec<i64>),
    Freeze(u32, O),
    Rmw(u32, Rmw, Ty, O, O),
    CmpXchg(u32, Ty, O, O, O),
    Fence,
    Call(Box<Call>),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(u16, O, u32, Rc<Vec<(u128, u32)>>),
    Ret(Option<O>),
    Unreachable,
    Unsupported(String),
}

pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, O)>,
}

pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub name: String,
    pub id: u32,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ninsts: usize,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub constant: bool,
    pub addr: u64,
    init: Option<String>,
}

pub struct FnDecl {
    pub name: String,
    pub addr: u64,
    /// byte range of body lines in the source (header line first)
    pub span: Option<(usize, usize)>,
    pub weak: bool,
}

pub const OFF: u64 = 0x10000;
pub fn slot_addr(slot: u64) -> u64 { (slot << 32) | OFF }

pub struct Module {
    pub src: String,
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u64>,
    pub fns: Vec<FnDecl>,
    pub fmap: HashMap<String, u32>,
    /// byte offsets of numbered metadata lines
    meta: HashMap<u32, (usize, usize)>,
}

#[derive(Clone, PartialEq, Debug)]
enum T {
    Id(String),
    L(String),
    G(String),
    S(Vec<u8>),
    CS(Vec<u8>),
    P(char),
    M,
    Dots,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if i + 1 < s.len() && s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

fn is_idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$'
        || c == b'-'
}

fn tokenize(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    fn quoted(b: &[u8], i: usize) -> (Vec<u8>, usize) {
        // i at opening quote
        let mut j = i + 1;
        while b[j] != b'"' { j += 1; }
        (unescape(&b[i + 1..j]), j + 1)
    }
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' { i += 1; }
            }
            b'@' | b'%' => {
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let (n, j) = quoted(b, i + 1);
                    name = String::from_utf8_lossy(&n).into_owned();
                    i = j;
                } else {
                    let mut j = i + 1;
                    while j < b.len() && is_idc(b[j]) { j += 1; }
                    name = s[i + 1..j].to_string();
                    i = j;
                }
                out.push(if c == b'@' { T::G(name) } else { T::L(name) });
            }
            b'"' => {
                let (n, j) = quoted(b, i);
                out.push(T::S(n));
                i = j;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let (n, j) = quoted(b, i + 1);
                out.push(T::CS(n));
                i = j;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && is_idc(b[j]) { j += 1; }
                out.push(T::M);
                i = j;
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(T::Dots);
                i += 3;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && is_idc(b[j]) { j += 1; }
                out.push(T::Id("#".into()));
                i = j;
            }
            _ if is_idc(c) => {
                let mut j = i + 1;
                while j < b.len() && (is_idc(b[j])
                    || (b[j] == b'+' && (b[j-1] == b'e')
                        && (b[i].is_ascii_digit() || b[i] == b'-')))
                { j += 1; }
                out.push(T::Id(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
    out
}

struct P<'a> {
    t: Vec<T>,
    i: usize,
    m: &'a Module,
}

type R<X> = Result<X, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&T> { self.t.get(self.i) }
    fn next(&mut self) -> R<T> {
        let t = self.t.get(self.i).cloned().ok_or("eol")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(T::P(d)) if *d == c)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) { self.i += 1; true } else { false }
    }
    fn exp_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) { Ok(()) }
        else { Err(format!("expected {:?} got {:?}", c, self.peek())) }
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(T::Id(d)) if d == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) { self.i += 1; true } else { false }
    }
    fn skip_parens(&mut self) -> R<()> {
        // at '('
        let mut d = 0;
        loop {
            match self.next()? {
                T::P('(') => d += 1,
                T::P(')') => { d -= 1; if d == 0 { return Ok(()); } }
                _ => {}
            }
        }
    }

    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(T::P('{')) | Some(T::P('<')) | Some(T::P('[')) => true,
            Some(T::L(_)) => true,
            Some(T::Id(s)) => match s.as_str() {
                "void" | "ptr" | "float" | "double" | "label" | "metadata"
                | "half" | "fp128" | "x86_fp80" | "token" | "opaque" => true,
                s => s.starts_with('i')
                    && s.len() > 1
                    && s[1..].bytes().all(|c| c.is_ascii_digit()),
            },
            _ => false,
        }
    }

    fn ty(&mut self) -> R<Ty> {
        let t = self.next()?;
        let t = match t {
            T::Id(s) => match s.as_str() {
                "void" | "opaque" => Ty::Void,
                "ptr" => {
                    if self.is_id("addrspace") {
                        self.i += 1;
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" => Ty::Label,
                "metadata" | "token" => Ty::Meta,
                "half" => Ty::Int(16),
                "fp128" => Ty::Int(128),
                "x86_fp80" => Ty::Int(80),
                s if s.starts_with('i') => {
                    Ty::Int(s[1..].parse().map_err(|_| s.to_string())?)
                }
                s => return Err(format!("type {}", s)),
            },
            T::L(n) => self.m.types.get(&n).cloned()
                .ok_or(format!("named type {}", n))?,
            T::P('{') => self.struct_ty(false)?,
            T::P('<') => {
                if self.eat_p('{') {
                    let s = self.struct_ty(true)?;
                    self.exp_p('>')?;
                    s
                } else {
                    let n = self.num()? as u32;
                    if !self.eat_id("x") { return Err("vec x".into()); }
                    let e = self.ty()?;
                    self.exp_p('>')?;
                    Ty::Vec(Rc::new(e), n)
                }
            }
            T::P('[') => {
                let n = self.num()? as u64;
                if !self.eat_id("x") { return Err("arr x".into()); }
                let e = self.ty()?;
                self.exp_p(']')?;
                Ty::Arr(Rc::new(e), n)
            }
            t => return Err(format!("type token {:?}", t)),
        };
        Ok(t)
    }

    fn struct_ty(&mut self, packed: bool) -> R<Ty> {
        let mut fs = Vec::new();
        if !self.eat_p('}') {
            loop {
                fs.push(self.ty()?);
                if self.eat_p('}') { break; }
                self.exp_p(',')?;
            }
        }
        Ok(Ty::Struct(Rc::new(fs), packed))
    }

    fn num(&mut self) -> R<i128> {
        match self.next()? {
            T::Id(s) => parse_int(&s).ok_or(format!("num {}", s)),
            t => Err(format!("num {:?}", t)),
        }
    }

    /// Skip attributes up to the next type or value.
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(T::S(_)) => {
                    self.i += 1;
                    if self.eat_p('=') { self.i += 1; }
                }
                Some(T::Id(s)) => {
                    if self.is_type_start() { return Ok(()); }
                    match s.as_str() {
                        "true" | "false" | "null" | "undef" | "poison"
                        | "zeroinitializer" | "none" | "getelementptr"
                        | "inttoptr" | "ptrtoint" | "splat" | "bitcast"
                        | "sub" | "add" | "trunc" | "asm" | "xor"
                        | "addrspacecast" | "blockaddress"
                        | "ptrtoaddr" => return Ok(()),
                        _ => {}
                    }
                    if s.starts_with(|c: char| c.is_ascii_digit()
                                     || c == '-' || c == '+') {
                        return Ok(());
                    }
                    if s == "align" || s == "cc" {
                        self.i += 1;
                        if self.is_p('(') { self.skip_parens()?; }
                        else { self.i += 1; }
                        continue;
                    }
                    self.i += 1;
                    if self.is_p('(') { self.skip_parens()?; }
                }
                _ => return Ok(()),
            }
        }
    }

    fn konst(&mut self, ty: &Ty) -> R<V> {
        // integer or float or aggregate
        let t = self.next()?;
        Ok(match t {
            T::Id(s) => match s.as_str() {
                "true" => V::C(1),
                "false" | "null" | "none" => V::C(0),
                "undef" | "poison" | "zeroinitializer" => zero(ty),
                "splat" => {
                    self.exp_p('(')?;
                    let et = self.ty()?;
                    let e = self.konst(&et)?;
                    self.exp_p(')')?;
                    match ty {
                        Ty::Vec(_, n) => V::A(Rc::new(vec![e; *n as usize])),
                        _ => return Err("splat".into()),
                    }
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        self.i += 1;
                        if self.is_p('(') {
                            // inrange(..) style
                            if matches!(&self.t[self.i - 1], T::Id(s)
                                        if s == "inrange") {
                                self.skip_parens()?;
                            }
                        }
                    }
                    self.exp_p('(')?;
                    let et = self.ty()?;
                    self.exp_p(',')?;
                    self.ty()?;
                    let base = self.konst(&Ty::Ptr)?;
                    let mut a = match base { V::C(a) => a as u64,
                                             _ => return Err("gep".into()) };
                    let mut idx = Vec::new();
                    while self.eat_p(',') {
                        let it = self.ty()?;
                        match self.konst(&it)? {
                            V::C(k) => idx.push(
                                crate::expr::sext(k, it.bits()) as i64),
                            _ => return Err("gep idx".into()),
                        }
                    }
                    self.exp_p(')')?;
                    let mut cur = et;
                    for (j, k) in idx.iter().enumerate() {
                        if j == 0 {
                            a = a.wrapping_add(
                                (cur.size() as i64).wrapping_mul(*k) as u64);
                        } else {
                            let o = match &cur {
                                Ty::Struct(..) =>
                                    cur.field_offset(*k as usize) as i64,
                                Ty::Arr(t, _) => t.size() as i64 * *k,
                                Ty::Vec(t, _) =>
                                    (t.bits() as i64 / 8) * *k,
                                _ => return Err("gep ty".into()),
                            };
                            a = a.wrapping_add(o as u64);
                            cur = cur.elem(if matches!(cur, Ty::Struct(..))
                                           { *k as usize } else { 0 });
                        }
                    }
                    V::C(a as u128)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast"
                | "trunc" | "zext" | "ptrtoaddr" => {
                    self.exp_p('(')?;
                    let ft = self.ty()?;
                    let v = self.konst(&ft)?;
                    if !self.eat_id("to") { return Err("to".into()); }
                    let tt = self.ty()?;
                    self.exp_p(')')?;
                    match v {
                        V::C(k) if tt.is_scalar() =>
                            V::C(k & crate::expr::mask(tt.bits())),
                        v => v,
                    }
                }
                "sub" | "add" | "xor" => {
                    while !self.is_p('(') { self.i += 1; }
                    self.exp_p('(')?;
                    let at = self.ty()?;
                    let a = self.konst(&at)?;
                    self.exp_p(',')?;
                    let bt = self.ty()?;
                    let b = self.konst(&bt)?;
                    self.exp_p(')')?;
                    match (a, b) {
                        (V::C(a), V::C(b)) => {
                            let r = match s.as_str() {
                                "sub" => a.wrapping_sub(b),
                                "add" => a.wrapping_add(b),
                                _ => a ^ b,
                            };
                            V::C(r & crate::expr::mask(at.bits()))
                        }
                        _ => return Err("const arith".into()),
                    }
                }
                s => match ty {
                    Ty::Int(w) => {
                        let n = parse_int(s)
                            .ok_or_else(|| format!("int {}", s))?;
                        V::C(n as u128 & crate::expr::mask(*w))
                    }
                    Ty::F64 => V::C(parse_f(s)?.to_bits() as u128),
                    Ty::F32 => V::C(
                        (parse_f(s)? as f32).to_bits() as u128),
                    _ => return Err(format!("const {} of {:?}", s, ty)),
                },
            },
            T::G(n) => V::C(*self.m.gmap.get(&n)
                            .ok_or(format!("global {}", n))? as u128),
            T::CS(b) => V::A(Rc::new(
                b.into_iter().map(|x| V::C(x as u128)).collect())),
            T::P('[') => self.agg(']')?,
            T::P('{') => self.agg('}')?,
            T::P('<') => {
                if self.eat_p('{') {
                    let a = self.agg('}')?;
                    self.exp_p('>')?;
                    a
                } else {
                    self.agg('>')?
                }
            }
            t => return Err(format!("const {:?}", t)),
        })
    }

    fn agg(&mut self, end: char) -> R<V> {
        let mut vs = Vec::new();
        if !self.eat_p(end) {
            loop {
                let t = self.ty()?;
                vs.push(self.konst(&t)?);
                if self.eat_p(end) { break; }
                self.exp_p(',')?;
            }
        }
        Ok(V::A(Rc::new(vs)))
    }
}

fn parse_f(s: &str) -> R<f64> {
    if let Some(h) = s.strip_prefix("0x") {
        return u64::from_str_radix(h, 16).map(f64::from_bits)
            .map_err(|_| format!("float {}", s));
    }
    s.parse().map_err(|_| format!("float {}", s))
}

pub fn parse_int(s: &str) -> Option<i128> {
    if let Ok(n) = s.parse::<i128>() { return Some(n); }
    if let Ok(n) = s.parse::<u128>() { return Some(n as i128); }
    None
}

pub fn zero(ty: &Ty) -> V {
    match ty {
        Ty::Arr(t, n) => V::A(Rc::new(vec![zero(t); *n as usize])),
        Ty::Vec(t, n) => V::A(Rc::new(vec![zero(t); *n as usize])),
        Ty::Struct(fs, _) => V::A(Rc::new(fs.iter().map(zero).collect())),
        _ => V::C(0),
    }
}

fn name_at(line: &str, sigil: char) -> Option<String> {
    let p = line.find(sigil)?;
    let r = &line[p + 1..];
    if r.starts_with('"') {
        let q = r[1..].find('"')?;
        Some(String::from_utf8_lossy(&unescape(r[1..1 + q].as_bytes()))
             .into_owned())
    } else {
        let e = r.bytes().position(|c| !is_idc(c)).unwrap_or(r.len());
        Some(r[..e].to_string())
    }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let src = std::fs::read(path).map_err(|e| format!("{}: {}", path, e))?;
        let src = String::from_utf8_lossy(&src).into_owned();
        let mut m = Module {
            src: String::new(), types: HashMap::new(), globals: vec![],
            gmap: HashMap::new(), fns: vec![], fmap: HashMap::new(),
            meta: HashMap::new(),
        };
        let mut gl: Vec<(String, usize, usize)> = vec![];
        let mut al: Vec<(String, usize, usize)> = vec![];
        let mut tys: Vec<(String, usize, usize)> = vec![];
        let mut pos = 0;
        let mut in_fn: Option<(String, usize)> = None;
        for line in src.split_inclusive('\n') {
            let s = pos;
            pos += line.len();
            if let Some((n, start)) = &in_fn {
                if line.starts_with('}') {
                    m.fns.push(FnDecl { name: n.clone(), addr: 0,
                                        span: Some((*start, pos)),
                                        weak: false });
                    in_fn = None;
                }
                continue;
            }
            if line.starts_with('!') {
                if let Some(e) = line.find(" = ") {
                    if let Ok(n) = line[1..e].parse() {
                        m.meta.insert(n, (s, pos));
                    }
                }
                continue;
            }
            if line.starts_with("define ") {
                in_fn = Some((name_at(line, '@').unwrap(), s));
            } else if line.starts_with("declare ") {
                let weak = line.starts_with("declare extern_weak");
                m.fns.push(FnDecl { name: name_at(line, '@').unwrap(),
                                    addr: 0, span: None, weak });
            } else if line.starts_with('@') {
                let n = name_at(line, '@').unwrap();
                if line.contains("= alias") || line.contains(" alias ")
                    && !line.contains(" global ")
                    && !line.contains(" constant ")
                {
                    al.push((n, s, pos));
                } else {
                    gl.push((n, s, pos));
                }
            } else if line.starts_with('%') && line.contains(" = type ") {
                tys.push((name_at(line, '%').unwrap(), s, pos));
            }
        }
        // functions: slot 1
        for (i, f) in m.fns.iter_mut().enumerate() {
            f.addr = slot_addr(1) + 16 * i as u64;
        }
        for i in 0..m.fns.len() {
            let (n, a, weak, def) = {
                let f = &m.fns[i];
                (f.name.clone(), f.addr, f.weak, f.span.is_some())
            };
            m.fmap.insert(n.clone(), i as u32);
            m.gmap.insert(n, if weak && !def { 0 } else { a });
        }
        // named types, in dependency order by retry
        let mut pend = tys;
        while !pend.is_empty() {
            let mut rest = vec![];
            let before = pend.len();
            for (n, s, e) in pend {
                let line = &src[s..e];
                let body = &line[line.find(" = type ").unwrap() + 8..];
                let t = {
                    let mut p = P { t: tokenize(body), i: 0, m: &m };
                    p.ty()
                };
                match t {
                    Ok(t) => { m.types.insert(n, t); }
                    Err(_) => rest.push((n, s, e)),
                }
            }
            if rest.len() == before {
                return Err(format!("types {:?}", rest[0].0));
            }
            pend = rest;
        }
        // globals from slot 2: constants first, then mutable
        let mut parsed = vec![];
        for (n, s, e) in gl {
            let line = &src[s..e];
            let p0 = line.find(" = ").unwrap() + 3;
            let mut p = P { t: tokenize(&line[p0..]), i: 0, m: &m };
            let mut constant = None;
            let mut external = false;
            while let Some(t) = p.peek().cloned() {
                match t {
                    T::Id(s) if s == "global" => {
                        constant = Some(false); p.i += 1; break;
                    }
                    T::Id(s) if s == "constant" => {
                        constant = Some(true); p.i += 1; break;
                    }
                    T::Id(s) => {
                        if s == "external" || s == "extern_weak" {
                            external = true;
                        }
                        p.i += 1;
                        if p.is_p('(') { p.skip_parens()?; }
                    }
                    _ => { p.i += 1; }
                }
            }
            let constant = constant.ok_or(format!("global {}", line))?;
            let ty = p.ty().map_err(|x| format!("{}: {}", n, x))?;
            let init = if external { None } else {
                Some(line[p0..].to_string())
            };
            parsed.push(Global { name: n, ty, constant, addr: 0, init });
        }
        parsed.sort_by_key(|g| !g.constant);
        for (i, g) in parsed.iter_mut().enumerate() {
            g.addr = slot_addr(2 + i as u64);
            m.gmap.insert(g.name.clone(), g.addr);
        }
        m.globals = parsed;
        for (n, s, e) in al {
            let line = &src[s..e];
            // alias target is the last global reference
            let toks = tokenize(&line[line.find(" = ").unwrap()..]);
            let tgt = toks.iter().rev().find_map(|t| match t {
                T::G(g) => Some(g.clone()), _ => None })
                .ok_or("alias")?;
            if let Some(a) = m.gmap.get(&tgt).copied() {
                m.gmap.insert(n.clone(), a);
                if let Some(f) = m.fmap.get(&tgt).copied() {
                    m.fmap.insert(n, f);
                }
            }
        }
        m.src = src;
        Ok(m)
    }

    /// Initial value of a global (parsed on demand).
    pub fn init_of(&self, i: usize) -> R<Option<V>> {
        let g = &self.globals[i];
        let s = match &g.init { Some(s) => s, None => return Ok(None) };
        let mut p = P { t: tokenize(s), i: 0, m: self };
        loop {
            match p.next()? {
                T::Id(s) if s == "global" || s == "constant" => break,
                _ => {}
            }
        }
        let t = p.ty()?;
        p.konst(&t).map(Some).map_err(|e| format!("{}: {}", g.name, e))
    }

    pub fn fn_at(&self, addr: u64) -> Option<u32> {
        let b = slot_addr(1);
        if addr < b { return None; }
        let i = (addr - b) / 16;
        if (addr - b) % 16 == 0 && (i as usize) < self.fns.len() {
            Some(i as u32)
        } else { None }
    }

    fn meta(&self, n: u32) -> Option<&str> {
        self.meta.get(&n).map(|(s, e)| &self.src[*s..*e])
    }

    /// Source functions (also inlined ones) of the given functions whose file
    /// path starts with prefix, as "file:name".
    pub fn subprograms(&self, ids: &[u32], prefix: &str) -> Vec<String> {
        fn num(l: &str, k: &str) -> Option<u32> {
            let p = l.find(k)? + k.len();
            let r = &l[p..];
            let e = r.bytes().position(|c| !c.is_ascii_digit())
                .unwrap_or(r.len());
            r[..e].parse().ok()
        }
        fn text<'b>(l: &'b str, k: &str) -> Option<&'b str> {
            let p = l.find(k)? + k.len();
            let r = &l[p..];
            Some(&r[..r.find('"')?])
        }
        let mut locs = std::collections::HashSet::new();
        for id in ids {
            if let Some((s, e)) = self.fns[*id as usize].span {
                let t = &self.src[s..e];
                let mut p = 0;
                while let Some(q) = t[p..].find("!dbg !") {
                    p += q + 6;
                    if let Some(n) = num(&t[p - 6..], "!dbg !") {
                        locs.insert(n);
                    }
                }
            }
        }
        let mut seen = std::collections::HashSet::new();
        let mut out = std::collections::BTreeSet::new();
        let mut st: Vec<u32> = locs.into_iter().collect();
        while let Some(n) = st.pop() {
            if !seen.insert(n) { continue; }
            let l = match self.meta(n) { Some(l) => l, None => continue };
            if l.contains("!DILocation(") {
                if let Some(x) = num(l, "scope: !") { st.push(x); }
                if let Some(x) = num(l, "inlinedAt: !") { st.push(x); }
            } else if l.contains("!DILexicalBlock") {
                if let Some(x) = num(l, "scope: !") { st.push(x); }
            } else if l.contains("!DISubprogram(") {
                let name = text(l, "name: \"").unwrap_or("?");
                let f = num(l, "file: !").and_then(|f| self.meta(f));
                if let Some(f) = f {
                    let fname = text(f, "filename: \"").unwrap_or("");
                    let dir = text(f, "directory: \"").unwrap_or("");
                    let full = if fname.starts_with('/') {
                        fname.to_string()
                    } else { format!("{}/{}", dir, fname) };
                    if full.starts_with(prefix) {
                        // enclosing type or module
                        let sc = num(l, "scope: !").and_then(|x| self.meta(x))
                            .and_then(|x| text(x, "name: \""))
                            .unwrap_or("");
                        out.insert(format!("{}:{}::{}", full, sc, name));
                    }
                }
            }
        }
        out.into_iter().collect()
    }

    pub fn parse_fn(&self, id: u32) -> R<Func> {
        let d = &self.fns[id as usize];
        let (s, e) = d.span.ok_or(format!("no body: {}", d.name))?;
        FnParser::new(self).parse(d.name.clone(), id, &self.src[s..e])
            .map_err(|x| format!("in {}: {}", d.name, x))
    }
}

struct FnParser<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl<'a> FnParser<'a> {
    fn new(m: &'a Module) -> Self {
        FnParser { m, regs: HashMap::new(), blocks: HashMap::new() }
    }

    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }

    fn blk(&self, n: &str) -> R<u32> {
        self.blocks.get(n).copied().ok_or(format!("block {}", n))
    }

    fn parse(mut self, name: String, id: u32, text: &str) -> R<Func> {
        let mut lines = text.lines();
        let head = lines.next().unwrap();
        let mut params = Vec::new();
        let mut unnamed = 0u32;
        {
            let mut p = P { t: tokenize(head), i: 0, m: self.m };
            p.i = 1;
            // to function name
            while !matches!(p.peek(), Some(T::G(_))) { p.i += 1; }
            p.i += 1;
            p.exp_p('(')?;
            if !p.eat_p(')') {
                loop {
                    if p.peek() == Some(&T::Dots) { p.i += 1; }
                    else {
                        p.ty()?;
                        p.skip_attrs()?;
                        match p.peek().cloned() {
                            Some(T::L(n)) => {
                                p.i += 1;
                                if n.bytes().all(|c| c.is_ascii_digit()) {
                                    unnamed += 1;
                                }
                                params.push(self.reg(&n));
                            }
                            _ => {
                                let n = unnamed.to_string();
                                unnamed += 1;
                                params.push(self.reg(&n));
                            }
                        }
                    }
                    if p.eat_p(')') { break; }
                    p.exp_p(',')?;
                }
            }
        }
        // logical lines and blocks
        let mut segs: Vec<(String, Vec<String>)> = vec![];
        let mut cur: Option<String> = None;
        for l in lines {
            if l.starts_with('}') { break; }
            let tl = l.trim_start();
            if tl.is_empty() || tl.starts_with(';') { continue; }
            if let Some(mut c) = cur.take() {
                c.push(' ');
                c.push_str(tl);
                if joined(&c) {
                    segs.last_mut().unwrap().1.push(c);
                } else {
                    cur = Some(c);
                }
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let n = if tl.starts_with('"') {
                    let q = tl[1..].find('"').unwrap();
                    String::from_utf8_lossy(
                        &unescape(tl[1..1 + q].as_bytes())).into_owned()
                } else {
                    tl[..tl.find(':').ok_or(format!("label {}", tl))?]
                        .to_string()
                };
                segs.push((n, vec![]));
                continue;
            }
            if segs.is_empty() {
                segs.push((unnamed.to_string(), vec![]));
            }
            if tl.starts_with("cleanup") || tl.starts_with("catch ")
                || tl.starts_with("filter ")
            {
                continue;
            }
            if joined(tl) {
                segs.last_mut().unwrap().1.push(tl.to_string());
            } else {
                cur = Some(tl.to_string());
            }
        }
        for (i, (n, _)) in segs.iter().enumerate() {
            self.blocks.insert(n.clone(), i as u32);
        }
        let mut blocks = Vec::with_capacity(segs.len());
        let mut ninsts = 0;
        for (_, ls) in segs.iter() {
            let mut b = Block { phis: vec![], insts: vec![] };
            for l in ls {
                ninsts += 1;
                self.inst(l, &mut b)
                    .map_err(|e| format!("{} :: {}", e, l))?;
            }
            blocks.push(b);
        }
        Ok(Func { name, id, params, nregs: self.regs.len() as u32 + 1,
                  blocks, ninsts })
    }

    fn opd(&mut self, p: &mut P, ty: &Ty) -> R<O> {
        if let Some(T::L(n)) = p.peek() {
            let n = n.clone();
            p.i += 1;
            return Ok(O::R(self.reg(&n)));
        }
        Ok(match p.konst(ty)? {
            V::C(k) => O::C(k),
            v => O::K(Rc::new(v)),
        })
    }

    fn topd(&mut self, p: &mut P) -> R<(Ty, O)> {
        let t = p.ty()?;
        let o = self.opd(p, &t)?;
        Ok((t, o))
    }

    fn label(&mut self, p: &mut P) -> R<u32> {
        if !p.eat_id("label") { return Err("label".into()); }
        match p.next()? {
            T::L(n) => self.blk(&n),
            t => Err(format!("label {:?}", t)),
        }
    }

    fn inst(&mut self, line: &str, b: &mut Block) -> R<()> {
        use crate::expr::Op;
        let mut p = P { t: tokenize(line), i: 0, m: self.m };
        let p = &mut p;
        let mut dst = u32::MAX;
        if let (Some(T::L(n)), Some(T::P('='))) = (p.t.get(0), p.t.get(1)) {
            let n = n.clone();
            dst = self.reg(&n);
            p.i = 2;
        }
        let mut op = match p.next()? {
            T::Id(s) => s,
            t => return Err(format!("opcode {:?}", t)),
        };
        while matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = match p.next()? { T::Id(s) => s, _ => return Err("op".into()) };
        }
        let bop = match op.as_str() {
            "add" => Some(Op::Add), "sub" => Some(Op::Sub),
            "mul" => Some(Op::Mul), "udiv" => Some(Op::UDiv),
            "sdiv" => Some(Op::SDiv), "urem" => Some(Op::URem),
            "srem" => Some(Op::SRem), "and" => Some(Op::And),
            "or" => Some(Op::Or), "xor" => Some(Op::Xor),
            "shl" => Some(Op::Shl), "lshr" => Some(Op::LShr),
            "ashr" => Some(Op::AShr), _ => None,
        };
        let i = if let Some(bop) = bop {
            while !p.is_type_start() { p.i += 1; }
            let t = p.ty()?;
            let a = self.opd(p, &t)?;
            p.exp_p(',')?;
            let c = self.opd(p, &t)?;
            Inst::Bin(dst, bop, t, a, c)
        } else {
            match op.as_str() {
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while !p.is_type_start() { p.i += 1; }
                let t = p.ty()?;
                let a = self.opd(p, &t)?;
                p.exp_p(',')?;
                let c = self.opd(p, &t)?;
                let f = match op.as_str() {
                    "fadd" => FOp::Add, "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul, "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                Inst::FBin(dst, f, t, a, c)
            }
            "fneg" => {
                while !p.is_type_start() { p.i += 1; }
                let (t, o) = self.topd(p)?;
                Inst::FNeg(dst, t, o)
            }
            "icmp" => {
                p.eat_id("samesign");
                let pr = match p.next()? {
                    T::Id(s) => match s.as_str() {
                        "eq" => Pred::Eq, "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt, "uge" => Pred::Uge,
                        "ult" => Pred::Ult, "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt, "sge" => Pred::Sge,
                        "slt" => Pred::Slt, "sle" => Pred::Sle,
                        s => return Err(format!("pred {}", s)),
                    },
                    _ => return Err("pred".into()),
                };
                let t = p.ty()?;
                let a = self.opd(p, &t)?;
                p.exp_p(',')?;
                let c = self.opd(p, &t)?;
                Inst::ICmp(dst, pr, t, a, c)
            }
            "fcmp" => {
                let mut pr = String::new();
                while !p.is_type_start() {
                    if let T::Id(s) = p.next()? { pr = s; }
                }
                let t = p.ty()?;
                let a = self.opd(p, &t)?;
                p.exp_p(',')?;
                let c = self.opd(p, &t)?;
                Inst::FCmp(dst, pr, t, a, c)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr"
            | "addrspacecast" | "fptrunc" | "fpext" | "fptoui" | "fptosi"
            | "uitofp" | "sitofp" | "ptrtoaddr" => {
                while !p.is_type_start() { p.i += 1; }
                let (ft, o) = self.topd(p)?;
                if !p.eat_id("to") { return Err("to".into()); }
                let tt = p.ty()?;
                let c = match op.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if ft.is_scalar() && tt.is_scalar() {
                            if tt.bits() < ft.bits() { Cast::Trunc }
                            else if tt.bits() > ft.bits() { Cast::ZExt }
                            else { Cast::Bit }
                        } else { Cast::Bit }
                    }
                    "bitcast" | "addrspacecast" => Cast::Bit,
                    "fptrunc" => Cast::FpMisc(0),
                    "fpext" => Cast::FpMisc(1),
                    "fptoui" => Cast::FpMisc(2),
                    "fptosi" => Cast::FpMisc(3),
                    "uitofp" => Cast::FpMisc(4),
                    _ => Cast::FpMisc(5),
                };
                Inst::Cast(dst, c, ft, o, tt)
            }
            "select" => {
                while !p.is_type_start() { p.i += 1; }
                let (ct, c) = self.topd(p)?;
                p.exp_p(',')?;
                let (t, a) = self.topd(p)?;
                p.exp_p(',')?;
                let (_, e) = self.topd(p)?;
                Inst::Select(dst, ct, c, t, a, e)
            }
            "alloca" => {
                p.eat_id("inalloca");
                let t = p.ty()?;
                let mut n = O::C(1);
                if p.eat_p(',') && p.is_type_start() {
                    n = self.topd(p)?.1;
                }
                Inst::Alloca(dst, t, n)
            }
            "load" => {
                while p.eat_id("atomic") || p.eat_id("volatile") {}
                let t = p.ty()?;
                p.exp_p(',')?;
                let (_, a) = self.topd(p)?;
                Inst::Load(dst, t, a)
            }
            "store" => {
                while p.eat_id("atomic") || p.eat_id("volatile") {}
                let (t, v) = self.topd(p)?;
                p.exp_p(',')?;
                let (_, a) = self.topd(p)?;
                Inst::Store(t, v, a)
            }
            "getelementptr" => {
                while !p.is_type_start() {
                    p.i += 1;
                    if p.is_p('(') { p.skip_parens()?; }
                }
                let et = p.ty()?;
                p.exp_p(',')?;
                let bt = p.ty()?;
                if bt != Ty::Ptr {
                    Inst::Unsupported("vector gep".into())
                } else {
                let base = self.opd(p, &Ty::Ptr)?;
                let mut off = 0u64;
                let mut sc = vec![];
                let mut cur = et;
                let mut first = true;
                while p.is_p(',') {
                    p.i += 1;
                    if !p.is_type_start() { break; } // metadata
                    let it = p.ty()?;
                    let o = self.opd(p, &it)?;
                    let stride = if first { cur.size() } else {
                        match &cur {
                            Ty::Struct(..) => {
                                if let O::C(k) = o {
                                    off = off.wrapping_add(
                                        cur.field_offset(k as usize));
                                    cur = cur.elem(k as usize);
                                    continue;
                                }
                                return Err("gep struct".into());
                            }
                            Ty::Arr(t, _) => t.size(),
                            Ty::Vec(t, _) => t.bits() as u64 / 8,
                            t => return Err(format!("gep {:?}", t)),
                        }
                    };
                    if !first { cur = cur.elem(0); }
                    first = false;
                    match o {
                        O::C(k) => {
                            let s = crate::expr::sext(k, it.bits()) as i64;
                            off = off.wrapping_add(
                                s.wrapping_mul(stride as i64) as u64);
                        }
                        o => sc.push((o, it.bits(), stride)),
                    }
                }
                Inst::Gep(dst, base, off, sc)
                }
            }
            "extractvalue" => {
                let (_, a) = self.topd(p)?;
                let mut ix = vec![];
                while p.is_p(',') {
                    p.i += 1;
                    match p.peek() { Some(T::Id(_)) => {} , _ => break }
                    ix.push(p.num()? as u32);
                }
                Inst::ExtractValue(dst, a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.topd(p)?;
                p.exp_p(',')?;
                let (_, v) = self.topd(p)?;
                let mut ix = vec![];
                while p.is_p(',') {
                    p.i += 1;
                    match p.peek() { Some(T::Id(_)) => {} , _ => break }
                    ix.push(p.num()? as u32);
                }
                Inst::InsertValue(dst, t, a, v, ix)
            }
            "extractelement" => {
                let (t, a) = self.topd(p)?;
                p.exp_p(',')?;
                let (_, i) = self.topd(p)?;
                Inst::ExtractElem(dst, t, a, i)
            }
            "insertelement" => {
                let (t, a) = self.topd(p)?;
                p.exp_p(',')?;
                let (_, v) = self.topd(p)?;
                p.exp_p(',')?;
                let (_, i) = self.topd(p)?;
                Inst::InsertElem(dst, t, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.topd(p)?;
                p.exp_p(',')?;
                let (_, c) = self.topd(p)?;
                p.exp_p(',')?;
                let mt = p.ty()?;
                let m = match p.konst(&mt)? {
                    V::A(v) => v.iter().map(|x| match x {
                        V::C(k) => *k as i64, _ => 0 }).collect(),
                    _ => return Err("mask".into()),
                };
                Inst::Shuffle(dst, t, a, c, m)
            }
            "freeze" => {
                let (_, a) = self.topd(p)?;
                Inst::Freeze(dst, a)
            }
            "atomicrmw" => {
                p.eat_id("volatile");
                let r = match p.next()? {
                    T::Id(s) => match s.as_str() {
                        "xchg" => Rmw::Xchg, "add" => Rmw::Add,
                        "sub" => Rmw::Sub, "and" => Rmw::And,
                        "or" => Rmw::Or, "xor" => Rmw::Xor,
                        "max" => Rmw::Max, "min" => Rmw::Min,
                        "umax" => Rmw::UMax, "umin" => Rmw::UMin,
                        "nand" => Rmw::Nand,
                        s => return Err(format!("rmw {}", s)),
                    },
                    _ => return Err("rmw".into()),
                };
                let (_, a) = self.topd(p)?;
                p.exp_p(',')?;
                let (t, v) = self.topd(p)?;
                Inst::Rmw(dst, r, t, a, v)
            }
            "cmpxchg" => {
                while p.eat_id("weak") || p.eat_id("volatile") {}
                let (_, a) = self.topd(p)?;
                p.exp_p(',')?;
                let (t, e) = self.topd(p)?;
                p.exp_p(',')?;
                let (_, n) = self.topd(p)?;
                Inst::CmpXchg(dst, t, a, e, n)
            }
            "fence" => Inst::Fence,
            "phi" => {
                while !p.is_type_start() { p.i += 1; }
                let t = p.ty()?;
                let mut inc = vec![];
                loop {
                    p.exp_p('[')?;
                    let o = self.opd(p, &t)?;
                    p.exp_p(',')?;
                    let l = match p.next()? {
                        T::L(n) => self.blk(&n)?,
                        t => return Err(format!("phi {:?}", t)),
                    };
                    p.exp_p(']')?;
                    inc.push((l, o));
                    if p.is_p(',') && p.t.get(p.i + 1) == Some(&T::P('[')) {
                        p.i += 1;
                    } else { break; }
                }
                b.phis.push(Phi { dst, inc });
                return Ok(());
            }
            "call" | "invoke" => {
                let inv = op == "invoke";
                p.skip_attrs()?;
                let rty = p.ty()?;
                if p.is_p('(') { p.skip_parens()?; }
                p.skip_attrs()?;
                let callee = match p.next()? {
                    T::G(n) => {
                        if let Some(f) = self.m.fmap.get(&n) {
                            Callee::Fn(*f)
                        } else {
                            return Err(format!("callee {}", n));
                        }
                    }
                    T::L(n) => Callee::Reg(O::R(self.reg(&n))),
                    T::Id(s) if s == "asm" => {
                        while !matches!(p.peek(), Some(T::S(_))) { p.i += 1; }
                        let s = match p.next()? { T::S(s) => s, _ => vec![] };
                        p.exp_p(',')?;
                        p.i += 1;
                        Callee::Asm(String::from_utf8_lossy(&s).into_owned())
                    }
                    T::Id(s) if s == "null" || s == "undef"
                        || s == "poison" => Callee::Reg(O::C(0)),
                    t => return Err(format!("callee {:?}", t)),
                };
                p.exp_p('(')?;
                let mut args = vec![];
                if !p.eat_p(')') {
                    loop {
                        let t = p.ty()?;
                        if t == Ty::Meta {
                            let mut d = 0;
                            while let Some(x) = p.peek() {
                                match x {
                                    T::P('(') => d += 1,
                                    T::P(')') => {
                                        if d == 0 { break; }
                                        d -= 1;
                                    }
                                    T::P(',') if d == 0 => break,
                                    _ => {}
                                }
                                p.i += 1;
                            }
                            args.push((t, O::C(0)));
                        } else {
                            p.skip_attrs()?;
                            let o = self.opd(p, &t)?;
                            args.push((t, o));
                        }
                        if p.eat_p(')') { break; }
                        p.exp_p(',')?;
                    }
                }
                let mut to = None;
                if inv {
                    while !p.is_id("to") { p.next()?; }
                    p.i += 1;
                    to = Some(self.label(p)?);
                }
                Inst::Call(Box::new(Call { dst, rty, callee, args, to }))
            }
            "br" => {
                if p.is_id("label") {
                    Inst::Br(self.label(p)?)
                } else {
                    let (_, c) = self.topd(p)?;
                    p.exp_p(',')?;
                    let a = self.label(p)?;
                    p.exp_p(',')?;
                    let e = self.label(p)?;
                    Inst::CondBr(c, a, e)
                }
            }
            "switch" => {
                let (t, o) = self.topd(p)?;
                p.exp_p(',')?;
                let d = self.label(p)?;
                p.exp_p('[')?;
                let mut cs = vec![];
                while !p.eat_p(']') {
                    let ct = p.ty()?;
                    let k = match p.konst(&ct)? {
                        V::C(k) => k, _ => return Err("case".into()) };
                    p.exp_p(',')?;
                    cs.push((k, self.label(p)?));
                }
                Inst::Switch(t.bits(), o, d, Rc::new(cs))
            }
            "ret" => {
                let t = p.ty()?;
                if t == Ty::Void { Inst::Ret(None) }
                else { Inst::Ret(Some(self.opd(p, &t)?)) }
            }
            "unreachable" => Inst::Unreachable,
            o => Inst::Unsupported(o.to_string()),
            }
        };
        b.insts.push(i);
        Ok(())
    }
}

/// Whether a (possibly multi-line) instruction is complete.
fn joined(l: &str) -> bool {
    let c = if let Some(p) = l.find(" = ") {
        if l.starts_with('%') { &l[p + 3..] } else { l }
    } else { l };
    if c.starts_with("switch ") {
        return l.contains(']');
    }
    if c.starts_with("invoke ") || c.starts_with("tail invoke ") {
        return l.contains(" unwind label ");
    }
    true
}
