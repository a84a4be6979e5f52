//! Symbolic executor over the parsed module.

use crate::expr::{self, as_const, bin, cst, mask, sext, Model, Op, Vars, E};
use crate::ir::*;
use crate::mem::{self, Data, Loc, Mem};
use crate::solver::Solver;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: Model,
    pub fixed: Vars,
    /// widths of the inputs drawn so far
    pub inputs: Vec<u16>,
    pub outs: Vec<V>,
    pub reach: Rc<BTreeSet<u32>>,
    pub steps: u64,
    pub forks: u32,
    pub brk: u64,
    /// guarded calls in progress: stack depth below the guard, kind
    pub guards: Vec<(usize, u8)>,
    /// thread-local storage of the thread being started, if any
    pub tls: Option<Rc<HashMap<u64, u64>>>,
}

/// Guard kinds: ends at a panic, or at the first wait of a new thread.
const G_PANIC: u8 = 0;
const G_THREAD: u8 = 1;
const G_PROC: u8 = 2;

pub enum Trap {
    Done,
    Kill,
    Viol(String),
    Err(String),
}

type X<T> = Result<T, Trap>;

fn er<T>(r: Result<T, String>) -> X<T> { r.map_err(Trap::Err) }

#[derive(Clone, Debug)]
pub struct Violation {
    pub label: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(u16, u128)>,
}

#[derive(Clone, Debug)]
pub struct Witness {
    pub inputs: Vec<(u16, u128)>,
    pub outs: Vec<u128>,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub killed: u64,
    pub steps: u64,
    pub forks: u64,
    pub checks: u64,
    pub checks_const: u64,
    pub checks_unsat: u64,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub witnesses: Vec<Witness>,
    pub reach: BTreeMap<u32, u64>,
    pub max_inputs: usize,
    pub max_depth: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    None, Panic, Malloc, Calloc, Realloc, Free, PosixMemalign, AlignedAlloc,
    Memcpy, Memset, Bcmp, Memcmp, Strlen, Memchr, Memrchr, Errno, Abort,
    AnyU8, AnyU16, AnyU32, AnyU64, Assume, Check, Reach, Out, Kill, Conc,
    Unwind, Intr, Fold, Param, Guard, Park, Exit, Args,
}

pub struct Exec {
    pub m: Rc<Module>,
    pub funcs: Vec<Option<Rc<Func>>>,
    pub bt: Vec<B>,
    pub solver: Solver,
    pub work: Vec<State>,
    pub rep: Report,
    pub errno: u64,
    pub max_steps: u64,
    pub max_viol: usize,
    pub wit_max: usize,
    pub wit_seen: u64,
    pub seed: u64,
    pub trace: bool,
    pub labels: BTreeSet<String>,
    pub prof: HashMap<u32, u64>,
    pub max_forks: u32,
    pub params: HashMap<usize, u64>,
}

fn builtin(name: &str, has_body: bool) -> B {
    if name.contains("4core9panicking")
        || (name.contains("3std9panicking")
            && (name.contains("begin_panic") || name.contains("rust_panic")
                || name.contains("panic_handler")))
        || name.contains("17rust_begin_unwind")
        || name.contains("18handle_alloc_error")
        || name.ends_with("rust_panic")
        || name.contains("3std7process5abort")
    {
        return B::Panic;
    }
    match name {
        "sx_any_u8" => B::AnyU8,
        "sx_any_u16" => B::AnyU16,
        "sx_any_u32" => B::AnyU32,
        "sx_any_u64" => B::AnyU64,
        "sx_assume" => B::Assume,
        "sx_check" => B::Check,
        "sx_reach" => B::Reach,
        "sx_out" => B::Out,
        "sx_kill" => B::Kill,
        "sx_conc" => B::Conc,
        "sx_fold" => B::Fold,
        "sx_param" => B::Param,
        "sx_guard" => B::Guard,
        "sx_park" => B::Park,
        "sx_init_args" => B::Args,
        "memcpy" | "memmove" => B::Memcpy,
        "memset" => B::Memset,
        "bcmp" => B::Bcmp,
        "memcmp" => B::Memcmp,
        "strlen" => B::Strlen,
        "memchr" => B::Memchr,
        "memrchr" => B::Memrchr,
        _ if name.starts_with("llvm.") => B::Intr,
        _ if has_body => B::None,
        "malloc" => B::Malloc,
        "calloc" => B::Calloc,
        "realloc" => B::Realloc,
        "free" => B::Free,
        "posix_memalign" => B::PosixMemalign,
        "aligned_alloc" => B::AlignedAlloc,
        "__errno_location" => B::Errno,
        "abort" => B::Abort,
        "exit" | "_exit" => B::Exit,
        _ if name.starts_with("_Unwind_") => B::Unwind,
        _ => B::None,
    }
}

impl Exec {
    pub fn new(m: Rc<Module>, timeout_ms: u32) -> Result<(Exec, Mem), String> {
        let nf = m.fns.len();
        let bt = m.fns.iter().map(|f| builtin(&f.name, f.span.is_some()))
            .collect();
        let mut consts = vec![];
        let mut muts = vec![];
        for (i, g) in m.globals.iter().enumerate() {
            let size = g.ty.size() as usize;
            let mut d = Data { b: vec![0; size], s: vec![] };
            if let Some(v) = m.init_of(i)? {
                put(&mut d.b, 0, &g.ty, &v);
            }
            if g.constant { consts.push(Rc::new(d)); }
            else { muts.push(d); }
        }
        let mut mem = Mem::new(Rc::new(consts));
        for d in muts {
            mem.alloc_data(Rc::new(d), false);
        }
        // errno cell
        let errno = mem.alloc(8, false);
        let ex = Exec {
            m, funcs: vec![None; nf], bt, solver: Solver::new(timeout_ms),
            work: vec![], rep: Report::default(), errno,
            max_steps: 200_000_000, max_viol: 8, wit_max: 64, wit_seen: 0,
            seed: 0x9e3779b97f4a7c15, trace: false, labels: BTreeSet::new(),
            prof: HashMap::new(), max_forks: u32::MAX,
            params: HashMap::new(),
        };
        Ok((ex, mem))
    }

    fn func(&mut self, id: u32) -> X<Rc<Func>> {
        if let Some(f) = &self.funcs[id as usize] { return Ok(f.clone()); }
        let f = Rc::new(er(self.m.parse_fn(id))?);
        self.funcs[id as usize] = Some(f.clone());
        Ok(f)
    }

    pub fn initial(&mut self, entry: &str, mem: Mem) -> Result<State, String> {
        let id = *self.m.fmap.get(entry).ok_or(format!("no {}", entry))?;
        let f = match self.func(id) {
            Ok(f) => f,
            Err(Trap::Err(e)) => return Err(e),
            _ => return Err("entry".into()),
        };
        let regs = vec![V::C(0); f.nregs as usize];
        Ok(State {
            top: Frame { func: f, block: 0, ip: 0, regs, allocas: vec![] },
            stack: vec![], mem, pc: vec![], model: vec![], fixed: [0; 4],
            inputs: vec![], outs: vec![], reach: Rc::new(BTreeSet::new()),
            steps: 0, forks: 0, brk: 0, guards: vec![], tls: None,
        })
    }

    /// Explore one state to its end, leaving siblings on the work list.
    pub fn run_one(&mut self, mut st: State) {
        let s0 = st.steps;
        let r = loop {
            match self.step(&mut st) {
                Ok(()) => {}
                Err(t) => break t,
            }
            if st.steps > self.max_steps {
                // an endless loop, if the native run has no end either
                break Trap::Viol("no end within the step limit".into());
            }
        };
        self.rep.steps += st.steps - s0;
        if st.inputs.len() > self.rep.max_inputs {
            self.rep.max_inputs = st.inputs.len();
        }
        if st.forks > self.rep.max_depth { self.rep.max_depth = st.forks; }
        match r {
            Trap::Done => {
                self.rep.paths += 1;
                for r in st.reach.iter() {
                    *self.rep.reach.entry(*r).or_insert(0) += 1;
                }
                self.witness(&st);
            }
            Trap::Kill => self.rep.killed += 1,
            Trap::Viol(l) => {
                self.rep.paths += 1;
                self.violation(&st, l);
            }
            Trap::Err(e) => {
                let s = self.backtrace(&st);
                self.rep.errors.push(format!("{} at {}", e, s.join(" < ")));
            }
        }
    }

    fn inputs_of(st: &State) -> Vec<(u16, u128)> {
        st.inputs.iter().enumerate().map(|(i, w)| {
            (*w, st.model.get(i).copied().unwrap_or(0) & mask(*w))
        }).collect()
    }

    fn rand(&mut self) -> u64 {
        self.seed ^= self.seed << 13;
        self.seed ^= self.seed >> 7;
        self.seed ^= self.seed << 17;
        self.seed
    }

    fn witness(&mut self, st: &State) {
        self.wit_seen += 1;
        let at = if self.rep.witnesses.len() < self.wit_max {
            self.rep.witnesses.len()
        } else {
            let r = (self.rand() % self.wit_seen) as usize;
            if r >= self.wit_max { return; }
            r
        };
        let w = Witness {
            inputs: Self::inputs_of(st),
            outs: st.outs.iter().map(|v| match v {
                V::C(k) => *k,
                V::S(e) => expr::eval(*e, &st.model),
                V::A(_) => 0,
            }).collect(),
        };
        if at == self.rep.witnesses.len() { self.rep.witnesses.push(w); }
        else { self.rep.witnesses[at] = w; }
    }

    fn violation(&mut self, st: &State, label: String) {
        if self.labels.contains(&label) { return; }
        self.labels.insert(label.clone());
        let v = Violation { label, stack: self.backtrace(st),
                            inputs: Self::inputs_of(st) };
        self.rep.violations.push(v);
    }

    pub fn backtrace(&self, st: &State) -> Vec<String> {
        let mut v = vec![format!("{}:{}:{}", st.top.func.name, st.top.block,
                                 st.top.ip)];
        for f in st.stack.iter().rev() { v.push(f.func.name.clone()); }
        v.truncate(30);
        v
    }

    // ---- values ----

    #[inline]
    fn simp(&self, st: &State, e: E) -> V {
        let n = expr::node(e);
        if n.op == Op::Const { return V::C(n.k); }
        let vs = expr::vars(e);
        if (0..4).all(|i| vs[i] & !st.fixed[i] == 0) {
            return V::C(expr::eval(e, &st.model));
        }
        V::S(e)
    }

    #[inline]
    fn val(&self, st: &State, o: &O) -> V {
        match o {
            O::C(k) => V::C(*k),
            O::R(r) => match &st.top.regs[*r as usize] {
                V::C(k) => V::C(*k),
                V::S(e) => self.simp(st, *e),
                V::A(a) => V::A(a.clone()),
            },
            O::K(v) => (**v).clone(),
        }
    }

    #[inline]
    fn set(st: &mut State, dst: u32, v: V) {
        if dst != u32::MAX { st.top.regs[dst as usize] = v; }
    }

    fn e(v: &V, w: u16) -> E {
        match v {
            V::C(k) => cst(*k, w),
            V::S(e) => *e,
            V::A(_) => panic!("aggregate as scalar"),
        }
    }

    fn ve(e: E) -> V {
        match as_const(e) { Some(k) => V::C(k), None => V::S(e) }
    }

    // ---- constraints ----

    fn add(&mut self, st: &mut State, c: E) {
        let n = expr::node(c);
        if n.op == Op::Const { return; }
        if n.op == Op::And && n.w == 1 {
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        if st.pc.contains(&c) { return; }
        // variable pinned to a constant
        let var = match n.op {
            Op::Eq => {
                let (a, b) = (expr::node(n.a), expr::node(n.b));
                if a.op == Op::Var && b.op == Op::Const { Some(a.k) }
                else { None }
            }
            Op::Var => Some(n.k),
            Op::Xor => {
                let a = expr::node(n.a);
                if a.op == Op::Var && as_const(n.b).is_some() { Some(a.k) }
                else { None }
            }
            _ => None,
        };
        if let Some(k) = var {
            let i = (k & 0xffff) as usize;
            st.fixed[i / 64] |= 1 << (i % 64);
        }
        st.pc.push(c);
    }

    fn fork(&mut self, st: &State, c: E, model: Model) {
        let mut o = st.clone();
        o.model = model;
        o.forks += 1;
        self.add(&mut o, c);
        self.rep.forks += 1;
        self.work.push(o);
    }

    /// Decide a symbolic condition, forking the other side if feasible.
    fn branch(&mut self, st: &mut State, c: E) -> X<bool> {
        if let V::C(k) = self.simp(st, c) { return Ok(k != 0); }
        let nc = expr::not(c);
        if st.pc.contains(&c) { return Ok(true); }
        if st.pc.contains(&nc) { return Ok(false); }
        let side = expr::eval(c, &st.model) != 0;
        let (mine, other) = if side { (c, nc) } else { (nc, c) };
        match er(self.solver.check(&st.pc, other, &st.model))? {
            Some(m) => {
                if st.forks >= self.max_forks {
                    return Err(Trap::Err("fork limit".into()));
                }
                self.fork(st, other, m);
                st.forks += 1;
                self.add(st, mine);
            }
            None => {
                // implied: remember equalities
                if expr::node(mine).op == Op::Eq { self.add(st, mine); }
            }
        }
        Ok(side)
    }

    /// A concrete value for e; other feasible values are forked.
    fn conc(&mut self, st: &mut State, v: &V, w: u16) -> X<u128> {
        let e = match v {
            V::C(k) => return Ok(*k),
            V::S(e) => *e,
            V::A(_) => return Err(Trap::Err("conc of aggregate".into())),
        };
        if let V::C(k) = self.simp(st, e) { return Ok(k); }
        let k = expr::eval(e, &st.model);
        let c = bin(Op::Eq, e, cst(k, w));
        if let Some(v) = as_const(c) {
            debug_assert!(v == 1);
            return Ok(k);
        }
        let nc = expr::not(c);
        if !st.pc.contains(&c) {
            if let Some(m) = er(self.solver.check(&st.pc, nc, &st.model))? {
                self.fork(st, nc, m);
                st.forks += 1;
            }
            self.add(st, c);
        }
        Ok(k)
    }

    // ---- memory ----

    fn load(&mut self, st: &mut State, ty: &Ty, av: &V) -> X<V> {
        let a = match av {
            V::C(a) => *a as u64,
            V::S(e) => {
                if ty.is_scalar() {
                    if let Some(v) = self.load_sym(st, ty, *e)? {
                        return Ok(v);
                    }
                }
                self.conc(st, av, 64)? as u64
            }
            V::A(_) => return Err(Trap::Err("vector address".into())),
        };
        self.load_at(st, ty, a)
    }

    fn load_at(&mut self, st: &State, ty: &Ty, a: u64) -> X<V> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let n = ty.store_size() as usize;
                let w = ty.bits();
                match st.mem.load(a, n) {
                    Ok(Ok(k)) => Ok(V::C(k & mask(w))),
                    Ok(Err(e)) => Ok(self.simp(st, expr::extract(e, 0, w))),
                    Err(x) => Err(Trap::Viol(format!("memory: load {}", x))),
                }
            }
            Ty::Vec(t, n) if t.bits() % 8 != 0 => {
                // packed bits
                let w = t.bits() * *n as u16;
                let v = self.load_at(st, &Ty::Int(w), a)?;
                self.bitcast(&v, &Ty::Int(w), ty)
            }
            Ty::Vec(_, n) => {
                let n = *n as usize;
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    v.push(self.load_at(st, &ty.elem(i),
                                        a + ty.field_offset(i))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(_, n) => {
                let mut v = vec![];
                for i in 0..*n as usize {
                    v.push(self.load_at(st, &ty.elem(i),
                                        a + ty.field_offset(i))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(fs, _) => {
                let mut v = vec![];
                for i in 0..fs.len() {
                    v.push(self.load_at(st, &fs[i],
                                        a + ty.field_offset(i))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Trap::Err(format!("load {:?}", ty))),
        }
    }

    /// Load through a symbolic address resolved within a single object.
    fn load_sym(&mut self, st: &mut State, ty: &Ty, e: E) -> X<Option<V>> {
        let n = ty.store_size() as usize;
        let m = expr::eval(e, &st.model) as u64;
        let l = match st.mem.find(m, n) {
            Ok(l) => l,
            Err(x) => return Err(Trap::Viol(format!("memory: load {}", x))),
        };
        let (size, o) = { let (d, o) = st.mem.data(&l); (d.b.len(), o) };
        let base = m - o as u64;
        let off = bin(Op::Sub, e, cst(base as u128, 64));
        let inb = bin(Op::Ule, off, cst((size - n) as u128, 64));
        let mut step = 1usize;
        let tz = low_zeros(off);
        while step < n && tz >= (step * 2).trailing_zeros() as u16 {
            step *= 2;
        }
        if (size - n) / step + 1 > 1100 { return Ok(None); }
        if !self.branch(st, inb)? {
            return Err(Trap::Err("load_sym".into()));
        }
        let (d, _) = st.mem.data(&l);
        let w = ty.bits();
        // runs of equal values: [start, value]
        let mut runs: Vec<(u64, E)> = vec![];
        let mut p = 0usize;
        while p + n <= size {
            let mut v = mem::byte(d, p + n - 1);
            for j in (0..n - 1).rev() {
                v = expr::concat(v, mem::byte(d, p + j));
            }
            let v = expr::extract(v, 0, w);
            if runs.last().map_or(true, |r| r.1 != v) {
                runs.push((p as u64, v));
            }
            p += step;
        }
        if runs.len() > 300 { return Ok(None); }
        // balanced ITE over sorted starts
        fn build(rs: &[(u64, E)], off: E) -> E {
            if rs.len() == 1 { return rs[0].1; }
            let h = rs.len() / 2;
            let c = bin(Op::Ult, off, cst(rs[h].0 as u128, 64));
            expr::ite(c, build(&rs[..h], off), build(&rs[h..], off))
        }
        let r = build(&runs, off);
        Ok(Some(self.simp(st, r)))
    }

    fn store(&mut self, st: &mut State, ty: &Ty, a: u64, v: &V) -> X<()> {
        let r = match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let n = ty.store_size() as usize;
                match v {
                    V::C(k) => st.mem.store_c(a, n, *k),
                    V::S(e) => {
                        let e = if expr::width(*e) as usize == n * 8 { *e }
                        else { expr::zext(*e, n as u16 * 8) };
                        st.mem.store_e(a, n, e)
                    }
                    V::A(_) => return Err(Trap::Err("store agg".into())),
                }
            }
            Ty::Vec(t, n) if t.bits() % 8 != 0 => {
                let w = t.bits() * *n as u16;
                let x = self.bitcast(v, ty, &Ty::Int(w))?;
                return self.store(st, &Ty::Int(w), a, &x);
            }
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let vs = match v { V::A(x) => x.clone(),
                                   _ => return Err(Trap::Err("store".into())) };
                for (i, x) in vs.iter().enumerate() {
                    self.store(st, &ty.elem(i), a + ty.field_offset(i), x)?;
                }
                Ok(())
            }
            _ => return Err(Trap::Err(format!("store {:?}", ty))),
        };
        r.map_err(|x| Trap::Viol(format!("memory: store {}", x)))
    }

    // ---- operators ----

    fn arith(&self, op: Op, w: u16, a: &V, b: &V) -> X<V> {
        match (a, b) {
            (V::C(x), V::C(y)) => match expr::fold(op, *x, *y, w) {
                Some(r) => Ok(V::C(r)),
                None => Err(Trap::Viol("division by zero".into())),
            },
            (V::A(x), V::A(y)) => {
                let mut v = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    v.push(self.arith(op, w, &x[i], &y[i])?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => Ok(Self::ve(bin(op, Self::e(a, w), Self::e(b, w)))),
        }
    }

    fn icmp(&self, p: Pred, w: u16, a: &V, b: &V) -> V {
        match (a, b) {
            (V::C(x), V::C(y)) => {
                let (x, y) = (*x, *y);
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Sgt => sext(x, w) > sext(y, w),
                    Pred::Sge => sext(x, w) >= sext(y, w),
                    Pred::Slt => sext(x, w) < sext(y, w),
                    Pred::Sle => sext(x, w) <= sext(y, w),
                };
                V::C(r as u128)
            }
            (V::A(x), V::A(y)) => V::A(Rc::new(
                (0..x.len()).map(|i| self.icmp(p, w, &x[i], &y[i]))
                    .collect())),
            _ => {
                let (x, y) = (Self::e(a, w), Self::e(b, w));
                Self::ve(match p {
                    Pred::Eq => bin(Op::Eq, x, y),
                    Pred::Ne => expr::not(bin(Op::Eq, x, y)),
                    Pred::Ugt => bin(Op::Ult, y, x),
                    Pred::Uge => bin(Op::Ule, y, x),
                    Pred::Ult => bin(Op::Ult, x, y),
                    Pred::Ule => bin(Op::Ule, x, y),
                    Pred::Sgt => bin(Op::Slt, y, x),
                    Pred::Sge => bin(Op::Sle, y, x),
                    Pred::Slt => bin(Op::Slt, x, y),
                    Pred::Sle => bin(Op::Sle, x, y),
                })
            }
        }
    }

    fn select(&self, c: &V, w: &Ty, a: &V, b: &V) -> X<V> {
        match c {
            V::C(k) => Ok(if *k != 0 { a.clone() } else { b.clone() }),
            V::S(e) => match (a, b) {
                (V::A(x), V::A(y)) => {
                    let mut v = vec![];
                    for i in 0..x.len() {
                        v.push(self.select(c, &w.elem(i), &x[i], &y[i])?);
                    }
                    Ok(V::A(Rc::new(v)))
                }
                _ => {
                    let n = w.bits();
                    Ok(Self::ve(expr::ite(*e, Self::e(a, n),
                                          Self::e(b, n))))
                }
            },
            V::A(cs) => match (a, b) {
                (V::A(x), V::A(y)) => {
                    let mut v = vec![];
                    for i in 0..x.len() {
                        v.push(self.select(&cs[i], &w.elem(i),
                                           &x[i], &y[i])?);
                    }
                    Ok(V::A(Rc::new(v)))
                }
                _ => Err(Trap::Err("select".into())),
            },
        }
    }

    fn flat<'b>(v: &'b V, ty: &Ty, out: &mut Vec<(V, u16)>) {
        match (v, ty) {
            (V::A(x), t) => for (i, y) in x.iter().enumerate() {
                Self::flat(y, &t.elem(i), out);
            },
            (v, t) => out.push((v.clone(), t.bits())),
        }
    }

    fn bitcast(&self, v: &V, ft: &Ty, tt: &Ty) -> X<V> {
        if ft.is_scalar() && tt.is_scalar() { return Ok(v.clone()); }
        let mut src = vec![];
        Self::flat(v, ft, &mut src);
        let (tw, tn) = match tt {
            Ty::Vec(t, n) => (t.bits(), *n as usize),
            t if t.is_scalar() => (t.bits(), 1),
            _ => return Err(Trap::Err("bitcast".into())),
        };
        fn gcd(a: u16, b: u16) -> u16 { if b == 0 { a } else { gcd(b, a % b) } }
        let g = gcd(src[0].1, tw);
        let mut ch: Vec<V> = vec![];
        for (v, w) in &src {
            for j in 0..(w / g) {
                ch.push(match v {
                    V::C(k) => V::C((k >> (j * g)) & mask(g)),
                    V::S(e) => Self::ve(expr::extract(*e, j * g, g)),
                    V::A(_) => unreachable!(),
                });
            }
        }
        let per = (tw / g) as usize;
        let mut out = vec![];
        for i in 0..tn {
            let part = &ch[i * per..(i + 1) * per];
            if part.iter().all(|x| matches!(x, V::C(_))) {
                let mut k = 0u128;
                for (j, x) in part.iter().enumerate() {
                    if let V::C(y) = x { k |= y << (j as u16 * g); }
                }
                out.push(V::C(k));
            } else {
                let mut e = Self::e(&part[per - 1], g);
                for x in part[..per - 1].iter().rev() {
                    e = expr::concat(e, Self::e(x, g));
                }
                out.push(Self::ve(e));
            }
        }
        Ok(if tt.is_scalar() { out.pop().unwrap() }
           else { V::A(Rc::new(out)) })
    }

    fn cast(&self, c: Cast, v: &V, ft: &Ty, tt: &Ty) -> X<V> {
        if let (Cast::Bit, _) = (c, 0) { return self.bitcast(v, ft, tt); }
        if let V::A(x) = v {
            let mut o = vec![];
            for (i, y) in x.iter().enumerate() {
                o.push(self.cast(c, y, &ft.elem(i), &tt.elem(i))?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        let (fw, tw) = (ft.bits(), tt.bits());
        Ok(match (c, v) {
            (Cast::Trunc, V::C(k)) => V::C(k & mask(tw)),
            (Cast::Trunc, V::S(e)) => Self::ve(expr::extract(*e, 0, tw)),
            (Cast::ZExt, V::C(k)) => V::C(*k),
            (Cast::ZExt, V::S(e)) => Self::ve(expr::zext(*e, tw)),
            (Cast::SExt, V::C(k)) => V::C(sext(*k, fw) as u128 & mask(tw)),
            (Cast::SExt, V::S(e)) => Self::ve(expr::sext_e(*e, tw)),
            (Cast::FpMisc(k), V::C(x)) => {
                let f = if fw == 32 { f32::from_bits(*x as u32) as f64 }
                else { f64::from_bits(*x as u64) };
                let put = |d: f64| if tw == 32 {
                    (d as f32).to_bits() as u128
                } else { d.to_bits() as u128 };
                V::C(match k {
                    0 | 1 => put(f),
                    2 => (f as u128) & mask(tw),
                    3 => (f as i128 as u128) & mask(tw),
                    4 => if tw == 32 { (*x as f32).to_bits() as u128 }
                         else { (*x as f64).to_bits() as u128 },
                    _ => { let i = sext(*x, fw);
                           if tw == 32 { (i as f32).to_bits() as u128 }
                           else { (i as f64).to_bits() as u128 } }
                })
            }
            _ => return Err(Trap::Err("symbolic float cast".into())),
        })
    }

    // ---- control ----

    #[inline]
    fn jump(&mut self, st: &mut State, to: u32) {
        let from = st.top.block;
        let f = st.top.func.clone();
        let b = &f.blocks[to as usize];
        if b.phis.len() == 1 {
            let p = &b.phis[0];
            let o = &p.inc.iter().find(|x| x.0 == from).unwrap().1;
            let v = self.val(st, o);
            st.top.regs[p.dst as usize] = v;
        } else if !b.phis.is_empty() {
            let vs: Vec<V> = b.phis.iter().map(|p| {
                let o = &p.inc.iter().find(|x| x.0 == from).unwrap().1;
                self.val(st, o)
            }).collect();
            for (p, v) in b.phis.iter().zip(vs) {
                st.top.regs[p.dst as usize] = v;
            }
        }
        st.top.block = to;
        st.top.ip = 0;
    }

    fn ret(&mut self, st: &mut State, v: V) -> X<()> {
        for a in std::mem::take(&mut st.top.allocas) {
            if let Ok(Loc::Obj(i, _)) = st.mem.find(a, 0) {
                st.mem.release(i);
            }
        }
        let f = match st.stack.pop() {
            None => return Err(Trap::Done),
            Some(f) => f,
        };
        st.top = match Rc::try_unwrap(f) {
            Ok(f) => f,
            Err(f) => (*f).clone(),
        };
        let func = st.top.func.clone();
        let i = &func.blocks[st.top.block as usize]
            .insts[st.top.ip as usize];
        match i {
            Inst::Call(c) => self.finish_call(st, c, v),
            _ => return Err(Trap::Err("ret site".into())),
        }
        Ok(())
    }

    fn finish_call(&mut self, st: &mut State, c: &Call, v: V) {
        Self::set(st, c.dst, v);
        match c.to {
            Some(b) => self.jump(st, b),
            None => st.top.ip += 1,
        }
    }

    pub fn step(&mut self, st: &mut State) -> X<()> {
        let func = st.top.func.clone();
        // run within the function until a call or return changes frames
        loop {
            let inst = &func.blocks[st.top.block as usize]
                .insts[st.top.ip as usize];
            st.steps += 1;
            if self.trace {
                eprintln!("{} b{} i{} {:?}", func.name, st.top.block,
                          st.top.ip, inst);
            }
            match inst {
                Inst::Bin(d, op, ty, a, b) => {
                    let (x, y) = (self.val(st, a), self.val(st, b));
                    let w = match ty { Ty::Vec(t, _) => t.bits(),
                                       t => t.bits() };
                    if matches!(op, Op::UDiv | Op::URem | Op::SDiv
                                | Op::SRem) {
                        if let V::S(e) = y {
                            let z = bin(Op::Eq, e, cst(0, w));
                            if self.branch(st, z)? {
                                return Err(Trap::Viol(
                                    "division by zero".into()));
                            }
                        }
                    }
                    let r = self.arith(*op, w, &x, &y)?;
                    st.top.regs[*d as usize] = r;
                    st.top.ip += 1;
                }
                Inst::ICmp(d, p, ty, a, b) => {
                    let (x, y) = (self.val(st, a), self.val(st, b));
                    let w = match ty { Ty::Vec(t, _) => t.bits(),
                                       t => t.bits() };
                    st.top.regs[*d as usize] = self.icmp(*p, w, &x, &y);
                    st.top.ip += 1;
                }
                Inst::Load(d, ty, a) => {
                    let av = self.val(st, a);
                    let v = self.load(st, ty, &av)?;
                    st.top.regs[*d as usize] = v;
                    st.top.ip += 1;
                }
                Inst::Store(ty, v, a) => {
                    let av = self.val(st, a);
                    let a = self.conc(st, &av, 64)? as u64;
                    let v = self.val(st, v);
                    self.store(st, ty, a, &v)?;
                    st.top.ip += 1;
                }
                Inst::Gep(d, base, off, sc) => {
                    let mut v = self.val(st, base);
                    if *off != 0 {
                        v = self.arith(Op::Add, 64, &v,
                                       &V::C(*off as u128))?;
                    }
                    for (o, w, s) in sc {
                        let i = self.val(st, o);
                        let i = if *w < 64 {
                            self.cast(Cast::SExt, &i, &Ty::Int(*w),
                                      &Ty::Int(64))?
                        } else { i };
                        let i = self.arith(Op::Mul, 64, &i,
                                           &V::C(*s as u128))?;
                        v = self.arith(Op::Add, 64, &v, &i)?;
                    }
                    st.top.regs[*d as usize] = v;
                    st.top.ip += 1;
                }
                Inst::Cast(d, c, ft, o, tt) => {
                    let v = self.val(st, o);
                    st.top.regs[*d as usize] = self.cast(*c, &v, ft, tt)?;
                    st.top.ip += 1;
                }
                Inst::Select(d, _, c, t, a, b) => {
                    let cv = self.val(st, c);
                    let (x, y) = (self.val(st, a), self.val(st, b));
                    let r = match self.select(&cv, t, &x, &y) {
                        Ok(r) => r,
                        Err(t) => return Err(t),
                    };
                    st.top.regs[*d as usize] = r;
                    st.top.ip += 1;
                }
                Inst::Br(b) => self.jump(st, *b),
                Inst::CondBr(c, a, b) => {
                    let t = match self.val(st, c) {
                        V::C(k) => k != 0,
                        V::S(e) => self.branch(st, e)?,
                        V::A(_) => return Err(Trap::Err("br".into())),
                    };
                    let to = if t { *a } else { *b };
                    self.jump(st, to);
                }
                Inst::Switch(w, o, def, cases) => {
                    let to = match self.val(st, o) {
                        V::C(k) => cases.iter().find(|c| c.0 == k)
                            .map_or(*def, |c| c.1),
                        V::S(e) => {
                            let k = expr::eval(e, &st.model);
                            let to = cases.iter().find(|c| c.0 == k)
                                .map_or(*def, |c| c.1);
                            let mut cond = cst(0, 1);
                            if to == *def {
                                // none of the cases going elsewhere
                                for c in cases.iter() {
                                    if c.1 != to {
                                        cond = expr::or(cond, bin(
                                            Op::Eq, e, cst(c.0, *w)));
                                    }
                                }
                                cond = expr::not(cond);
                            } else {
                                for c in cases.iter() {
                                    if c.1 == to {
                                        cond = expr::or(cond, bin(
                                            Op::Eq, e, cst(c.0, *w)));
                                    }
                                }
                            }
                            if !self.branch(st, cond)? {
                                return Err(Trap::Err("switch".into()));
                            }
                            to
                        }
                        V::A(_) => return Err(Trap::Err("switch".into())),
                    };
                    self.jump(st, to);
                }
                Inst::Ret(o) => {
                    let v = match o { Some(o) => self.val(st, o),
                                      None => V::C(0) };
                    return self.ret(st, v);
                }
                Inst::Call(c) => {
                    return self.call(st, c);
                }
                Inst::Alloca(d, t, n) => {
                    let n = self.val(st, n);
                    let n = self.conc(st, &n, 64)? as u64;
                    let a = st.mem.alloc((t.size() * n) as usize, false);
                    st.top.allocas.push(a);
                    st.top.regs[*d as usize] = V::C(a as u128);
                    st.top.ip += 1;
                }
                Inst::ExtractValue(d, o, ix) => {
                    let mut v = self.val(st, o);
                    for i in ix {
                        v = match v {
                            V::A(a) => a[*i as usize].clone(),
                            _ => return Err(Trap::Err("extract".into())),
                        };
                    }
                    let v = match v { V::S(e) => self.simp(st, e), v => v };
                    st.top.regs[*d as usize] = v;
                    st.top.ip += 1;
                }
                Inst::InsertValue(d, ty, o, x, ix) => {
                    let v = self.val(st, o);
                    let v = match v { V::C(_) => zero(ty), v => v };
                    let x = self.val(st, x);
                    fn ins(v: V, ix: &[u32], x: V) -> V {
                        if ix.is_empty() { return x; }
                        match v {
                            V::A(a) => {
                                let mut a = a;
                                let r = Rc::make_mut(&mut a);
                                let i = ix[0] as usize;
                                let old = std::mem::replace(
                                    &mut r[i], V::C(0));
                                r[i] = ins(old, &ix[1..], x);
                                V::A(a)
                            }
                            v => v,
                        }
                    }
                    st.top.regs[*d as usize] = ins(v, ix, x);
                    st.top.ip += 1;
                }
                Inst::ExtractElem(d, _, o, i) => {
                    let v = self.val(st, o);
                    let i = self.val(st, i);
                    let i = self.conc(st, &i, 64)? as usize;
                    let r = match v {
                        V::A(a) => a.get(i).cloned().unwrap_or(V::C(0)),
                        _ => return Err(Trap::Err("extractelement".into())),
                    };
                    st.top.regs[*d as usize] = r;
                    st.top.ip += 1;
                }
                Inst::InsertElem(d, _, o, x, i) => {
                    let v = self.val(st, o);
                    let x = self.val(st, x);
                    let i = self.val(st, i);
                    let i = self.conc(st, &i, 64)? as usize;
                    let r = match v {
                        V::A(a) => {
                            let mut a = a;
                            Rc::make_mut(&mut a)[i] = x;
                            V::A(a)
                        }
                        _ => return Err(Trap::Err("insertelement".into())),
                    };
                    st.top.regs[*d as usize] = r;
                    st.top.ip += 1;
                }
                Inst::Shuffle(d, _, a, b, m) => {
                    let (x, y) = (self.val(st, a), self.val(st, b));
                    let (x, y) = match (x, y) {
                        (V::A(x), V::A(y)) => (x, y),
                        _ => return Err(Trap::Err("shuffle".into())),
                    };
                    let n = x.len();
                    let r: Vec<V> = m.iter().map(|i| {
                        let i = *i as usize;
                        if i < n { x[i].clone() } else { y[i - n].clone() }
                    }).collect();
                    st.top.regs[*d as usize] = V::A(Rc::new(r));
                    st.top.ip += 1;
                }
                Inst::Freeze(d, o) => {
                    let v = self.val(st, o);
                    st.top.regs[*d as usize] = v;
                    st.top.ip += 1;
                }
                Inst::Rmw(d, op, ty, a, v) => {
                    let av = self.val(st, a);
                    let a = self.conc(st, &av, 64)? as u64;
                    let x = self.val(st, v);
                    let old = self.load_at(st, ty, a)?;
                    let w = ty.bits();
                    let new = match op {
                        Rmw::Xchg => x,
                        Rmw::Add => self.arith(Op::Add, w, &old, &x)?,
                        Rmw::Sub => self.arith(Op::Sub, w, &old, &x)?,
                        Rmw::And => self.arith(Op::And, w, &old, &x)?,
                        Rmw::Or => self.arith(Op::Or, w, &old, &x)?,
                        Rmw::Xor => self.arith(Op::Xor, w, &old, &x)?,
                        Rmw::Nand => {
                            let t = self.arith(Op::And, w, &old, &x)?;
                            self.arith(Op::Xor, w, &t, &V::C(mask(w)))?
                        }
                        Rmw::Max | Rmw::Min | Rmw::UMax | Rmw::UMin => {
                            let p = match op {
                                Rmw::Max => Pred::Sgt, Rmw::Min => Pred::Slt,
                                Rmw::UMax => Pred::Ugt, _ => Pred::Ult };
                            let c = self.icmp(p, w, &old, &x);
                            self.select(&c, ty, &old, &x)?
                        }
                    };
                    self.store(st, ty, a, &new)?;
                    Self::set(st, *d, old);
                    st.top.ip += 1;
                }
                Inst::CmpXchg(d, ty, a, e, n) => {
                    let av = self.val(st, a);
                    let a = self.conc(st, &av, 64)? as u64;
                    let (e, n) = (self.val(st, e), self.val(st, n));
                    let old = self.load_at(st, ty, a)?;
                    let c = self.icmp(Pred::Eq, ty.bits(), &old, &e);
                    let ok = match c {
                        V::C(k) => k != 0,
                        V::S(e) => self.branch(st, e)?,
                        _ => false,
                    };
                    if ok { self.store(st, ty, a, &n)?; }
                    Self::set(st, *d, V::A(Rc::new(
                        vec![old, V::C(ok as u128)])));
                    st.top.ip += 1;
                }
                Inst::Fence => st.top.ip += 1,
                Inst::FBin(d, op, ty, a, b) => {
                    let (x, y) = (self.val(st, a), self.val(st, b));
                    let r = match (x, y) {
                        (V::C(x), V::C(y)) => {
                            macro_rules! f { ($t:ty, $u:ty) => {{
                                let (x, y) = (<$t>::from_bits(x as $u),
                                              <$t>::from_bits(y as $u));
                                let r = match op {
                                    FOp::Add => x + y, FOp::Sub => x - y,
                                    FOp::Mul => x * y, FOp::Div => x / y,
                                    FOp::Rem => x % y };
                                r.to_bits() as u128
                            }}}
                            if *ty == Ty::F32 { f!(f32, u32) }
                            else { f!(f64, u64) }
                        }
                        _ => return Err(Trap::Err("symbolic float".into())),
                    };
                    st.top.regs[*d as usize] = V::C(r);
                    st.top.ip += 1;
                }
                Inst::FCmp(d, p, ty, a, b) => {
                    let (x, y) = (self.val(st, a), self.val(st, b));
                    let (x, y) = match (x, y) {
                        (V::C(x), V::C(y)) => if *ty == Ty::F32 {
                            (f32::from_bits(x as u32) as f64,
                             f32::from_bits(y as u32) as f64)
                        } else {
                            (f64::from_bits(x as u64),
                             f64::from_bits(y as u64))
                        },
                        _ => return Err(Trap::Err("symbolic float".into())),
                    };
                    let un = x.is_nan() || y.is_nan();
                    let r = match p.as_str() {
                        "oeq" => x == y, "ogt" => x > y, "oge" => x >= y,
                        "olt" => x < y, "ole" => x <= y,
                        "one" => !un && x != y, "ord" => !un, "uno" => un,
                        "ueq" => un || x == y, "ugt" => un || x > y,
                        "uge" => un || x >= y, "ult" => un || x < y,
                        "ule" => un || x <= y, "une" => un || x != y,
                        "true" => true, _ => false,
                    };
                    st.top.regs[*d as usize] = V::C(r as u128);
                    st.top.ip += 1;
                }
                Inst::FNeg(d, ty, o) => {
                    let v = match self.val(st, o) {
                        V::C(k) => k ^ (1u128 << (ty.bits() - 1)),
                        _ => return Err(Trap::Err("symbolic float".into())),
                    };
                    st.top.regs[*d as usize] = V::C(v);
                    st.top.ip += 1;
                }
                Inst::Unreachable => {
                    return Err(Trap::Viol("unreachable executed".into()));
                }
                Inst::Unsupported(s) => {
                    return Err(Trap::Err(format!("unsupported: {}", s)));
                }
            }
        }
    }

    fn call(&mut self, st: &mut State, c: &Call) -> X<()> {
        let id = match &c.callee {
            Callee::Fn(f) => *f,
            Callee::Reg(o) => {
                let v = self.val(st, o);
                let a = self.conc(st, &v, 64)? as u64;
                match self.m.fn_at(a) {
                    Some(f) => f,
                    None => return Err(Trap::Viol(
                        format!("call of invalid pointer {:#x}", a))),
                }
            }
            Callee::Asm(s) => {
                let v = if s.is_empty() {
                    // compiler barrier: black_box style forwards nothing
                    zero(&c.rty)
                } else if s.contains("cpuid") {
                    zero(&c.rty)
                } else {
                    return Err(Trap::Err(format!("asm {}", s)));
                };
                self.finish_call(st, c, v);
                return Ok(());
            }
        };
        let mut id = id;
        if self.bt[id as usize] == B::Args {
            // std's own initializer for the process arguments
            id = match self.m.fns.iter().position(
                |f| f.name.ends_with("ARGV_INIT_ARRAY12init_wrapper"))
            {
                Some(i) => i as u32,
                None => return Err(Trap::Err("no argument init".into())),
            };
        }
        let b = self.bt[id as usize];
        if b == B::Guard { return self.guard(st, c); }
        if b == B::Park || b == B::Panic || b == B::Exit {
            let code = if b == B::Exit {
                let v = self.val(st, &c.args[0].1);
                self.conc(st, &v, 32)? as u64 & 255
            } else { 101 };
            if self.leave(st, b, code)? { return Ok(()); }
        }
        if b != B::None {
            let mut args = Vec::with_capacity(c.args.len());
            for (_, o) in &c.args { args.push(self.val(st, o)); }
            let v = self.builtin(st, id, b, c, &args)?;
            self.finish_call(st, c, v);
            return Ok(());
        }
        if self.m.fns[id as usize].span.is_none() {
            return Err(Trap::Err(format!("external {}",
                                         self.m.fns[id as usize].name)));
        }
        let f = self.func(id)?;
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() {
            if let Some((_, o)) = c.args.get(i) {
                regs[*p as usize] = self.val(st, o);
            }
        }
        if st.stack.len() > 2000 {
            return Err(Trap::Viol("stack overflow".into()));
        }
        *self.prof.entry(id).or_insert(0) += 1;
        let fr = Frame { func: f, block: 0, ip: 0, regs, allocas: vec![] };
        let old = std::mem::replace(&mut st.top, fr);
        st.stack.push(Rc::new(old));
        Ok(())
    }

    /// sx_guard(f, arg, kind): f(arg), giving its result, or 1 (the exit
    /// code of a process) when left early.
    fn guard(&mut self, st: &mut State, c: &Call) -> X<()> {
        let mut a = [0u64; 3];
        for i in 0..3 {
            let v = self.val(st, &c.args[i].1);
            a[i] = self.conc(st, &v, 64)? as u64;
        }
        let id = match self.m.fn_at(a[0]) {
            Some(f) => f,
            None => return Err(Trap::Err("guard".into())),
        };
        let f = self.func(id)?;
        let mut regs = vec![V::C(0); f.nregs as usize];
        if let Some(p) = f.params.get(0) {
            regs[*p as usize] = V::C(a[1] as u128);
        }
        self.stale(st);
        st.guards.push((st.stack.len(), a[2] as u8));
        if a[2] as u8 == G_THREAD {
            if st.tls.is_some() {
                return Err(Trap::Err("thread started by a thread".into()));
            }
            st.tls = Some(Rc::new(HashMap::new()));
        }
        let fr = Frame { func: f, block: 0, ip: 0, regs, allocas: vec![] };
        let old = std::mem::replace(&mut st.top, fr);
        st.stack.push(Rc::new(old));
        Ok(())
    }

    /// Forget guards whose call has returned.
    fn stale(&mut self, st: &mut State) {
        while let Some((d, k)) = st.guards.last().copied() {
            if st.stack.len() > d { break; }
            if k == G_THREAD { st.tls = None; }
            st.guards.pop();
        }
    }

    /// Leave the innermost guarded call, if it ends here.
    fn leave(&mut self, st: &mut State, b: B, code: u64) -> X<bool> {
        self.stale(st);
        let (d, k) = match st.guards.last().copied() {
            Some(g) => g,
            None if b == B::Park =>
                return Err(Trap::Viol("waits for ever".into())),
            None => return Ok(false),
        };
        if (b == B::Park) != (k == G_THREAD) { return Ok(false); }
        if b == B::Exit && k != G_PROC { return Ok(false); }
        st.stack.truncate(d + 1);
        let fr = st.stack.pop().unwrap();
        st.top = (*fr).clone();
        st.guards.pop();
        if k == G_THREAD { st.tls = None; }
        let func = st.top.func.clone();
        match &func.blocks[st.top.block as usize].insts[st.top.ip as usize] {
            Inst::Call(c) => {
                let v = if k == G_PROC { code } else { 1 };
                self.finish_call(st, c, V::C(v as u128));
            }
            _ => return Err(Trap::Err("guard frame".into())),
        }
        Ok(true)
    }

    /// Address of a thread-local for the running thread.
    fn tls_addr(&mut self, st: &mut State, a: u64) -> X<u64> {
        if st.tls.is_none() { return Ok(a); }
        self.stale(st);
        let t = match &st.tls { None => return Ok(a), Some(t) => t.clone() };
        if let Some(x) = t.get(&a) { return Ok(*x); }
        let i = match self.m.globals.iter().position(|g| g.addr == a) {
            Some(i) => i,
            None => return Err(Trap::Err("thread-local".into())),
        };
        let g = &self.m.globals[i];
        let mut d = Data { b: vec![0; g.ty.size() as usize], s: vec![] };
        if let Some(v) = er(self.m.init_of(i))? { put(&mut d.b, 0, &g.ty, &v); }
        let x = st.mem.alloc_data(Rc::new(d), false);
        let mut t = (*t).clone();
        t.insert(a, x);
        st.tls = Some(Rc::new(t));
        Ok(x)
    }

    fn panic_msg(&self, st: &State, id: u32, args: &[V]) -> String {
        let name = &self.m.fns[id as usize].name;
        let mut msg = String::new();
        let c = |i: usize| match args.get(i) {
            Some(V::C(k)) => Some(*k as u64), _ => None };
        let text = |p: u64, n: u64| -> Option<String> {
            let (b, _) = st.mem.read_bytes(p, n as usize).ok()?;
            Some(String::from_utf8_lossy(&b).into_owned())
        };
        if name.ends_with("9panic_fmt") {
            if let (Some(p), Some(k)) = (c(0), c(1)) {
                if k & 1 == 1 {
                    if let Some(t) = text(p, k >> 1) { msg = t; }
                }
            }
        } else if name.ends_with("5panic") || name.ends_with("14panic_nounwind")
        {
            if let (Some(p), Some(n)) = (c(0), c(1)) {
                if let Some(t) = text(p, n) { msg = t; }
            }
        }
        if msg.is_empty() {
            msg = name.rsplit("9panicking").next().unwrap_or("").to_string();
        }
        // location: last pointer argument
        if let Some(V::C(l)) = args.last() {
            let l = *l as u64;
            if let (Ok(Ok(p)), Ok(Ok(n)), Ok(Ok(line))) =
                (st.mem.load(l, 8), st.mem.load(l + 8, 8),
                 st.mem.load(l + 16, 4))
            {
                if n < 300 {
                    if let Some(t) = text(p as u64, n as u64) {
                        msg = format!("{} ({}:{})", msg, t, line);
                    }
                }
            }
        }
        msg.truncate(300);
        msg
    }

    fn malloc(&mut self, st: &mut State, n: &V) -> X<u64> {
        // beyond any address space
        let far = || Err(Trap::Viol("memory: allocation cannot succeed".into()));
        if let V::S(e) = n {
            let c = bin(Op::Ult, cst(1 << 47, 64), *e);
            if let Some(m) = er(self.solver.check(&st.pc, c, &st.model))? {
                st.model = m;
                return far();
            }
        }
        let n = self.conc(st, n, 64)? as u64;
        if n > 1 << 47 { return far(); }
        if n > 1 << 28 {
            return Err(Trap::Err(format!("allocation of {}", n)));
        }
        Ok(st.mem.alloc(n as usize, true))
    }

    fn free(&mut self, st: &mut State, a: u64) -> X<()> {
        if a == 0 { return Ok(()); }
        match st.mem.find(a, 0) {
            Ok(Loc::Obj(i, 0)) if st.mem.objs[i].heap => {
                st.mem.release(i);
                Ok(())
            }
            Ok(_) => Err(Trap::Viol("memory: bad free".into())),
            Err(x) => Err(Trap::Viol(format!("memory: free {}", x))),
        }
    }

    fn copy(&mut self, st: &mut State, d: &V, s: &V, n: &V) -> X<()> {
        let n = self.conc(st, n, 64)? as usize;
        if n == 0 { return Ok(()); }
        let d = self.conc(st, d, 64)? as u64;
        let s = self.conc(st, s, 64)? as u64;
        let r = st.mem.read_bytes(s, n)
            .and_then(|(b, e)| st.mem.write_bytes(d, &b, &e));
        r.map_err(|x| Trap::Viol(format!("memory: copy {}", x)))
    }

    fn builtin(&mut self, st: &mut State, id: u32, b: B, c: &Call,
               a: &[V]) -> X<V> {
        let mv = |x: String| Trap::Viol(format!("memory: {}", x));
        Ok(match b {
            B::None | B::Guard | B::Args => unreachable!(),
            B::Exit => return Err(Trap::Viol("exit".into())),
            B::Park => return Err(Trap::Err("wait in a guarded call".into())),
            B::Panic => {
                let m = self.panic_msg(st, id, a);
                return Err(Trap::Viol(format!("panic: {}", m)));
            }
            B::Abort => return Err(Trap::Viol("abort".into())),
            B::Malloc => V::C(self.malloc(st, &a[0])? as u128),
            B::Calloc => {
                let n = self.arith(Op::Mul, 64, &a[0], &a[1])?;
                V::C(self.malloc(st, &n)? as u128)
            }
            B::PosixMemalign => {
                let p = self.conc(st, &a[0], 64)? as u64;
                let m = self.malloc(st, &a[2])?;
                self.store(st, &Ty::Ptr, p, &V::C(m as u128))?;
                V::C(0)
            }
            B::AlignedAlloc => V::C(self.malloc(st, &a[1])? as u128),
            B::Realloc => {
                let n = self.conc(st, &a[1], 64)?;
                let p = self.conc(st, &a[0], 64)? as u64;
                let q = self.malloc(st, &V::C(n))?;
                if p != 0 {
                    let old = {
                        let l = st.mem.find(p, 0).map_err(mv)?;
                        st.mem.data(&l).0.b.len()
                    };
                    let k = std::cmp::min(old, n as usize);
                    let (b, s) = st.mem.read_bytes(p, k).map_err(mv)?;
                    st.mem.write_bytes(q, &b, &s).map_err(mv)?;
                    self.free(st, p)?;
                }
                V::C(q as u128)
            }
            B::Free => {
                let p = self.conc(st, &a[0], 64)? as u64;
                self.free(st, p)?;
                V::C(0)
            }
            B::Memcpy => {
                self.copy(st, &a[0], &a[1], &a[2])?;
                a[0].clone()
            }
            B::Memset => {
                let n = self.conc(st, &a[2], 64)? as usize;
                let d = self.conc(st, &a[0], 64)? as u64;
                self.fill(st, d, &a[1], n)?;
                a[0].clone()
            }
            B::Bcmp | B::Memcmp => {
                let n = self.conc(st, &a[2], 64)? as usize;
                if n == 0 { return Ok(V::C(0)); }
                let p = self.conc(st, &a[0], 64)? as u64;
                let q = self.conc(st, &a[1], 64)? as u64;
                let (pb, ps) = st.mem.read_bytes(p, n).map_err(mv)?;
                let (qb, qs) = st.mem.read_bytes(q, n).map_err(mv)?;
                if ps.is_empty() && qs.is_empty() {
                    let r = match pb.cmp(&qb) {
                        std::cmp::Ordering::Less => mask(32),
                        std::cmp::Ordering::Equal => 0,
                        _ => 1,
                    };
                    return Ok(V::C(r));
                }
                let pd = Data { b: pb, s: ps };
                let qd = Data { b: qb, s: qs };
                if b == B::Bcmp {
                    let mut eq = cst(1, 1);
                    for i in 0..n {
                        let x = bin(Op::Eq, self.sb(st, &pd, i),
                                    self.sb(st, &qd, i));
                        eq = expr::and(eq, x);
                        if as_const(eq) == Some(0) { break; }
                    }
                    Self::ve(expr::ite(eq, cst(0, 32), cst(1, 32)))
                } else {
                    let mut r = cst(0, 32);
                    for i in (0..n).rev() {
                        let (x, y) = (self.sb(st, &pd, i),
                                      self.sb(st, &qd, i));
                        let lt = bin(Op::Ult, x, y);
                        let eq = bin(Op::Eq, x, y);
                        r = expr::ite(eq, r, expr::ite(
                            lt, cst(mask(32), 32), cst(1, 32)));
                    }
                    Self::ve(r)
                }
            }
            B::Strlen => {
                let p = self.conc(st, &a[0], 64)? as u64;
                V::C(er(st.mem.cstr(p))?.len() as u128)
            }
            B::Memchr | B::Memrchr => {
                let n = self.conc(st, &a[2], 64)? as usize;
                let p = self.conc(st, &a[0], 64)? as u64;
                if n == 0 { return Ok(V::C(0)); }
                let (pb, ps) = st.mem.read_bytes(p, n).map_err(mv)?;
                let d = Data { b: pb, s: ps };
                let k = expr::extract(Self::e(&a[1], 32), 0, 8);
                let idx: Vec<usize> = if b == B::Memchr {
                    (0..n).collect()
                } else { (0..n).rev().collect() };
                for i in idx {
                    let x = bin(Op::Eq, self.sb(st, &d, i), k);
                    if self.branch(st, x)? {
                        return Ok(V::C((p + i as u64) as u128));
                    }
                }
                V::C(0)
            }
            B::Errno => V::C(self.errno as u128),
            B::AnyU8 => self.fresh(st, 8)?,
            B::AnyU16 => self.fresh(st, 16)?,
            B::AnyU32 => self.fresh(st, 32)?,
            B::AnyU64 => self.fresh(st, 64)?,
            B::Assume => {
                match &a[0] {
                    V::C(0) => return Err(Trap::Kill),
                    V::C(_) => {}
                    V::S(e) => {
                        let w = expr::width(*e);
                        let e = if w == 1 { *e } else {
                            expr::not(bin(Op::Eq, *e, cst(0, w)))
                        };
                        self.assume(st, e)?;
                    }
                    _ => {}
                }
                V::C(0)
            }
            B::Check => {
                self.rep.checks += 1;
                let label = |s: &Self, st: &State| -> String {
                    let _ = s;
                    match (&a[1], &a[2]) {
                        (V::C(p), V::C(n)) => st.mem.read_bytes(
                            *p as u64, *n as usize)
                            .map(|(b, _)| String::from_utf8_lossy(&b)
                                 .into_owned())
                            .unwrap_or_default(),
                        _ => "check".into(),
                    }
                };
                match &a[0] {
                    V::C(0) => {
                        return Err(Trap::Viol(label(self, st)));
                    }
                    V::C(_) => self.rep.checks_const += 1,
                    V::S(e) => {
                        let w = expr::width(*e);
                        let e = if w == 1 { *e } else {
                            expr::not(bin(Op::Eq, *e, cst(0, w)))
                        };
                        let ne = expr::not(e);
                        match er(self.solver.check(&st.pc, ne, &st.model))? {
                            None => self.rep.checks_unsat += 1,
                            Some(m) => {
                                let mut o = st.clone();
                                o.model = m;
                                let l = label(self, st);
                                self.violation(&o, l);
                                self.assume(st, e)?;
                            }
                        }
                    }
                    _ => {}
                }
                V::C(0)
            }
            B::Reach => {
                if let V::C(k) = &a[0] {
                    if !st.reach.contains(&(*k as u32)) {
                        Rc::make_mut(&mut st.reach).insert(*k as u32);
                    }
                }
                V::C(0)
            }
            B::Out => { st.outs.push(a[0].clone()); V::C(0) }
            B::Kill => return Err(Trap::Kill),
            B::Conc => {
                let w = c.args[0].0.bits();
                V::C(self.conc(st, &a[0], w)?)
            }
            B::Fold => {
                // order-sensitive digest of n bytes at p: recorded output
                let p = self.conc(st, &a[0], 64)? as u64;
                let n = self.conc(st, &a[1], 64)? as usize;
                let (pb, ps) = st.mem.read_bytes(p, n).map_err(mv)?;
                st.outs.push(V::C(n as u128));
                let d = Data { b: pb, s: ps };
                for i in 0..n {
                    st.outs.push(Self::ve(mem::byte(&d, i)));
                }
                V::C(0)
            }
            B::Param => {
                let i = self.conc(st, &a[0], 32)? as usize;
                match self.params.get(&i) {
                    Some(v) => V::C(*v as u128),
                    None => a[1].clone(),
                }
            }
            B::Unwind => return Err(Trap::Viol("unwind".into())),
            B::Intr => return self.intrinsic(st, id, c, a),
        })
    }

    fn sb(&self, st: &State, d: &Data, i: usize) -> E {
        let e = mem::byte(d, i);
        match self.simp(st, e) { V::C(k) => cst(k, 8), V::S(e) => e,
                                 _ => e }
    }

    fn assume(&mut self, st: &mut State, e: E) -> X<()> {
        if let Some(k) = as_const(e) {
            return if k == 0 { Err(Trap::Kill) } else { Ok(()) };
        }
        if expr::eval(e, &st.model) == 0 {
            match er(self.solver.check(&st.pc, e, &st.model))? {
                Some(m) => st.model = m,
                None => return Err(Trap::Kill),
            }
        }
        self.add(st, e);
        Ok(())
    }

    fn fresh(&mut self, st: &mut State, w: u16) -> X<V> {
        let i = st.inputs.len();
        if i >= 256 { return Err(Trap::Err("too many inputs".into())); }
        st.inputs.push(w);
        st.model.resize(i + 1, 0);
        Ok(V::S(expr::var(i as u16, w)))
    }

    fn fill(&mut self, st: &mut State, d: u64, v: &V, n: usize) -> X<()> {
        if n == 0 { return Ok(()); }
        let r = match v {
            V::C(k) => st.mem.write_bytes(d, &vec![*k as u8; n], &[]),
            V::S(e) => {
                let e = expr::extract(*e, 0, 8);
                st.mem.write_bytes(d, &vec![0; n], &vec![e; n])
            }
            _ => Err("memset".into()),
        };
        r.map_err(|x| Trap::Viol(format!("memory: set {}", x)))
    }

    fn intrinsic(&mut self, st: &mut State, id: u32, c: &Call, a: &[V])
        -> X<V>
    {
        let name = self.m.fns[id as usize].name.clone();
        let n = &name[5..];
        let base = n.split('.').next().unwrap();
        // elementwise over vectors for pure arithmetic intrinsics
        if let Ty::Vec(..) = &c.rty {
            if matches!(base, "fshl" | "fshr" | "umin" | "umax" | "smin"
                        | "smax" | "abs" | "bswap" | "ctpop" | "ctlz"
                        | "cttz" | "bitreverse" | "uadd" | "usub") {
                let vn = match &c.rty { Ty::Vec(_, n) => *n as usize,
                                        _ => 0 };
                let mut out = vec![];
                for i in 0..vn {
                    let args: Vec<V> = a.iter().map(|x| match x {
                        V::A(v) => v[i].clone(), x => x.clone() }).collect();
                    let et = c.rty.elem(0);
                    out.push(self.pure(st, base, n, &et, &et, &args)?);
                }
                return Ok(V::A(Rc::new(out)));
            }
        }
        match base {
            "lifetime" | "assume" | "experimental" | "dbg" | "prefetch"
            | "var" | "invariant" | "donothing" | "va_start" | "va_end"
            | "stackrestore" | "pseudoprobe" | "sideeffect" =>
                Ok(zero(&c.rty)),
            "stacksave" => Ok(V::C(0)),
            "trap" | "ubsantrap" | "debugtrap" =>
                Err(Trap::Viol("trap".into())),
            "memcpy" | "memmove" => {
                self.copy(st, &a[0], &a[1], &a[2])?;
                Ok(V::C(0))
            }
            "memset" => {
                let k = self.conc(st, &a[2], 64)? as usize;
                let d = self.conc(st, &a[0], 64)? as u64;
                self.fill(st, d, &a[1], k)?;
                Ok(V::C(0))
            }
            "threadlocal" => {
                let p = self.conc(st, &a[0], 64)? as u64;
                Ok(V::C(self.tls_addr(st, p)? as u128))
            }
            "expect" => Ok(a[0].clone()),
            "is" => Ok(V::C(0)), // is.constant
            "objectsize" => Ok(V::C(mask(c.rty.bits()))),
            "x86" => {
                if n.contains("pause") || n.contains("vzeroupper") {
                    return Ok(V::C(0));
                }
                if n.contains("xgetbv") { return Ok(V::C(0)); }
                if n.contains("pmovmskb") {
                    let v = match &a[0] { V::A(v) => v.clone(),
                        _ => return Err(Trap::Err(name)) };
                    let mut e = cst(0, 32);
                    for (i, x) in v.iter().enumerate() {
                        let b = expr::extract(Self::e(x, 8), 7, 1);
                        let s = expr::zext(b, 32);
                        e = expr::or(e, bin(Op::Shl, s, cst(i as u128, 32)));
                    }
                    return Ok(Self::ve(e));
                }
                Err(Trap::Err(format!("intrinsic {}", name)))
            }
            "noalias" | "scope" => Ok(V::C(0)),
            "ptrmask" => self.arith(Op::And, 64, &a[0], &a[1]),
            "vector" => {
                // llvm.vector.reduce.<op>.vNiM
                let v = match &a[0] { V::A(v) => v.clone(),
                    _ => return Err(Trap::Err(name)) };
                let w = c.rty.bits();
                let op = n.split('.').nth(2).unwrap_or("");
                let mut r = v[0].clone();
                for x in v[1..].iter() {
                    r = match op {
                        "add" => self.arith(Op::Add, w, &r, x)?,
                        "mul" => self.arith(Op::Mul, w, &r, x)?,
                        "and" => self.arith(Op::And, w, &r, x)?,
                        "or" => self.arith(Op::Or, w, &r, x)?,
                        "xor" => self.arith(Op::Xor, w, &r, x)?,
                        "umax" | "umin" | "smax" | "smin" =>
                            self.pure(st, op, op, &c.rty, &c.rty,
                                      &[r, x.clone()])?,
                        _ => return Err(Trap::Err(name)),
                    };
                }
                Ok(r)
            }
            _ => {
                let at = c.args.get(0).map(|x| x.0.clone())
                    .unwrap_or(Ty::Void);
                self.pure(st, base, n, &at, &c.rty, a)
            }
        }
    }

    /// Scalar intrinsics without side effects. `at`: operand type.
    fn pure(&mut self, st: &mut State, base: &str, full: &str, at: &Ty,
            rt: &Ty, a: &[V]) -> X<V> {
        let w = at.bits();
        // sizes are told apart by path, which keeps terms small
        let fork = w == 64 && matches!(base, "umin" | "umax");
        let mut sel = |s: &mut Self, p: Pred| -> X<V> {
            let mut c = s.icmp(p, w, &a[0], &a[1]);
            if let (true, V::S(e)) = (fork, &c) {
                c = V::C(s.branch(st, *e)? as u128);
            }
            s.select(&c, at, &a[0], &a[1])
        };
        Ok(match base {
            "umin" => sel(self, Pred::Ult)?,
            "umax" => sel(self, Pred::Ugt)?,
            "smin" => sel(self, Pred::Slt)?,
            "smax" => sel(self, Pred::Sgt)?,
            "fptoui" | "fptosi" => match &a[0] {
                V::C(k) => {
                    let f = if w == 32 { f32::from_bits(*k as u32) as f64 }
                            else { f64::from_bits(*k as u64) };
                    let b = rt.bits();
                    V::C(if base == "fptoui" {
                        (f as u128).min(mask(b))
                    } else {
                        let hi = (mask(b) >> 1) as i128;
                        (f as i128).clamp(-hi - 1, hi) as u128 & mask(b)
                    })
                }
                _ => return Err(Trap::Err("symbolic float cast".into())),
            },
            "fabs" | "floor" | "ceil" | "trunc" | "rint" | "round" | "sqrt"
            | "log2" | "log" | "exp2" | "fmuladd" | "fma" | "minnum"
            | "maxnum" | "pow" | "roundeven" | "nearbyint" => {
                let mut f = [0f64; 3];
                for (i, x) in a.iter().enumerate().take(3) {
                    f[i] = match x {
                        V::C(k) if w == 32 =>
                            f32::from_bits(*k as u32) as f64,
                        V::C(k) => f64::from_bits(*k as u64),
                        _ => return Err(Trap::Err("symbolic float".into())),
                    };
                }
                let r = match base {
                    "fabs" => f[0].abs(), "floor" => f[0].floor(),
                    "ceil" => f[0].ceil(), "trunc" => f[0].trunc(),
                    "round" => f[0].round(), "sqrt" => f[0].sqrt(),
                    "log2" if w == 64 => f[0].log2(),
                    "log2" => (f[0] as f32).log2() as f64,
                    "log" if w == 64 => f[0].ln(),
                    "exp2" if w == 64 => f[0].exp2(),
                    "pow" if w == 64 => f[0].powf(f[1]),
                    "fmuladd" => f[0] * f[1] + f[2],
                    "fma" => f[0].mul_add(f[1], f[2]),
                    "minnum" => f[0].min(f[1]), "maxnum" => f[0].max(f[1]),
                    _ => return Err(Trap::Err(format!("intrinsic {}",
                                                      full))),
                };
                V::C(if w == 32 { (r as f32).to_bits() as u128 }
                     else { r.to_bits() as u128 })
            }
            "abs" => {
                let z = V::C(0);
                let neg = self.arith(Op::Sub, w, &z, &a[0])?;
                let c = self.icmp(Pred::Slt, w, &a[0], &z);
                self.select(&c, at, &neg, &a[0])?
            }
            "uadd" | "sadd" | "usub" | "ssub" | "umul" | "smul" => {
                let op = match &base[1..] { "add" => Op::Add,
                    "sub" => Op::Sub, _ => Op::Mul };
                let signed = base.starts_with('s');
                let r = self.arith(op, w, &a[0], &a[1])?;
                let sat = full.contains(".sat");
                let ov = match (&a[0], &a[1]) {
                    (V::C(x), V::C(y)) => {
                        let o = if signed {
                            let (x, y) = (sext(*x, w), sext(*y, w));
                            let e = match op { Op::Add => x.checked_add(y),
                                Op::Sub => x.checked_sub(y),
                                _ => x.checked_mul(y) };
                            match e {
                                None => true,
                                Some(e) => sext(e as u128 & mask(w), w) != e,
                            }
                        } else {
                            match op {
                                Op::Add => x.checked_add(*y)
                                    .map_or(true, |e| e > mask(w)),
                                Op::Sub => x < y,
                                _ => x.checked_mul(*y)
                                    .map_or(true, |e| e > mask(w)),
                            }
                        };
                        V::C(o as u128)
                    }
                    _ => {
                        let (x, y) = (Self::e(&a[0], w), Self::e(&a[1], w));
                        let re = Self::e(&r, w);
                        Self::ve(match (op, signed) {
                            (Op::Add, false) => bin(Op::Ult, re, x),
                            (Op::Sub, false) => bin(Op::Ult, x, y),
                            (o, s) => {
                                let w2 = if o == Op::Mul { w * 2 }
                                         else { w + 1 };
                                if w2 > 128 {
                                    return Err(Trap::Err("wide".into()));
                                }
                                let (x2, y2) = if s {
                                    (expr::sext_e(x, w2),
                                     expr::sext_e(y, w2))
                                } else {
                                    (expr::zext(x, w2), expr::zext(y, w2))
                                };
                                let r2 = bin(o, x2, y2);
                                let back = if s { expr::sext_e(
                                    expr::extract(r2, 0, w), w2) }
                                else { expr::zext(
                                    expr::extract(r2, 0, w), w2) };
                                expr::not(bin(Op::Eq, r2, back))
                            }
                        })
                    }
                };
                if sat {
                    if signed { return Err(Trap::Err("ssat".into())); }
                    let lim = V::C(if op == Op::Sub { 0 } else { mask(w) });
                    self.select(&ov, at, &lim, &r)?
                } else {
                    V::A(Rc::new(vec![r, ov]))
                }
            }
            "ctpop" => match &a[0] {
                V::C(k) => V::C(k.count_ones() as u128),
                V::S(e) => {
                    let mut r = cst(0, w);
                    for i in 0..w {
                        r = bin(Op::Add, r,
                                expr::zext(expr::extract(*e, i, 1), w));
                    }
                    Self::ve(r)
                }
                _ => return Err(Trap::Err("ctpop".into())),
            },
            "ctlz" | "cttz" => match &a[0] {
                V::C(k) => V::C(if *k == 0 { w as u128 }
                    else if base == "ctlz" {
                        (k.leading_zeros() - (128 - w as u32)) as u128
                    } else { k.trailing_zeros() as u128 }),
                V::S(e) => {
                    let mut r = cst(w as u128, w);
                    let order: Vec<u16> = if base == "ctlz" {
                        (0..w).collect() } else { (0..w).rev().collect() };
                    for i in order {
                        let b = expr::extract(*e, i, 1);
                        let k = if base == "ctlz" { w - 1 - i } else { i };
                        r = expr::ite(b, cst(k as u128, w), r);
                    }
                    Self::ve(r)
                }
                _ => return Err(Trap::Err("ctlz".into())),
            },
            "bswap" => {
                let n = w / 8;
                match &a[0] {
                    V::C(k) => {
                        let mut r = 0u128;
                        for i in 0..n {
                            r |= ((k >> (8 * i)) & 0xff) << (8 * (n - 1 - i));
                        }
                        V::C(r)
                    }
                    V::S(e) => {
                        let mut r = expr::extract(*e, 0, 8);
                        for i in 1..n {
                            r = expr::concat(r, expr::extract(*e, 8 * i, 8));
                        }
                        Self::ve(r)
                    }
                    _ => return Err(Trap::Err("bswap".into())),
                }
            }
            "bitreverse" => match &a[0] {
                V::C(k) => {
                    let mut r = 0u128;
                    for i in 0..w { r |= ((k >> i) & 1) << (w - 1 - i); }
                    V::C(r)
                }
                V::S(e) => {
                    let mut r = expr::extract(*e, 0, 1);
                    for i in 1..w {
                        r = expr::concat(r, expr::extract(*e, i, 1));
                    }
                    Self::ve(r)
                }
                _ => return Err(Trap::Err("bitreverse".into())),
            },
            "fshl" | "fshr" => {
                let s = self.conc(st, &a[2], w)? as u16 % w;
                let (hi, lo) = (&a[0], &a[1]);
                let l = if base == "fshl" { s } else { (w - s) % w };
                if s == 0 {
                    return Ok(if base == "fshl" { hi.clone() }
                              else { lo.clone() });
                }
                let x = self.arith(Op::Shl, w, hi, &V::C(l as u128))?;
                let y = self.arith(Op::LShr, w, lo,
                                   &V::C((w - l) as u128))?;
                self.arith(Op::Or, w, &x, &y)?
            }
            "ucmp" | "scmp" => {
                let (lt, gt) = if base == "ucmp" { (Pred::Ult, Pred::Ugt) }
                    else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, w, &a[0], &a[1]);
                let g = self.icmp(gt, w, &a[0], &a[1]);
                let rw = rt.bits();
                let t = self.select(&g, rt, &V::C(1), &V::C(0))?;
                self.select(&l, rt, &V::C(mask(rw)), &t)?
            }
            _ => return Err(Trap::Err(format!("intrinsic llvm.{}", full))),
        })
    }
}

fn low_zeros(e: E) -> u16 {
    let n = expr::node(e);
    match n.op {
        Op::Const => if n.k == 0 { n.w } else { n.k.trailing_zeros() as u16 },
        Op::Concat => {
            let b = low_zeros(n.b);
            let bw = expr::width(n.b);
            if b == bw { bw + low_zeros(n.a) } else { b }
        }
        Op::ZExt => std::cmp::min(low_zeros(n.a), n.w),
        Op::Add | Op::Sub | Op::Or => {
            std::cmp::min(low_zeros(n.a), low_zeros(n.b))
        }
        Op::Mul => std::cmp::min(n.w, low_zeros(n.a) + low_zeros(n.b)),
        Op::Ite => std::cmp::min(low_zeros(n.b), low_zeros(n.c)),
        _ => 0,
    }
}

/// Serialize a constant into bytes.
fn put(b: &mut [u8], o: usize, ty: &Ty, v: &V) {
    match v {
        V::C(k) => {
            let n = ty.store_size() as usize;
            b[o..o + n].copy_from_slice(&k.to_le_bytes()[..n]);
        }
        V::A(vs) => {
            if let Ty::Vec(t, _) = ty {
                if t.bits() % 8 != 0 { panic!("bit vector constant"); }
            }
            for (i, x) in vs.iter().enumerate() {
                put(b, o + ty.field_offset(i) as usize, &ty.elem(i), x);
            }
        }
        V::S(_) => unreachable!(),
    }
}
