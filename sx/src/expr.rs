//! Hash-consed bit-vector expressions with local simplification.

use std::cell::RefCell;
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, Concat, Extract, ZExt, SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    /// Const value, Var index, or Extract low bit
    pub k: u128,
}

/// Set of variables (by index) of an expression.
pub type Vars = [u64; 4];

pub struct Arena {
    pub nodes: Vec<Node>,
    pub vars: Vec<Vars>,
    map: HashMap<Node, E>,
}

thread_local! {
    pub static ARENA: RefCell<Arena> = RefCell::new(Arena {
        nodes: vec![Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 }],
        vars: vec![[0; 4]],
        map: HashMap::new(),
    });
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

#[inline]
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

#[inline]
pub fn node(e: E) -> Node {
    ARENA.with(|a| a.borrow().nodes[e as usize])
}

#[inline]
pub fn width(e: E) -> u16 { node(e).w }

pub fn vars(e: E) -> Vars {
    ARENA.with(|a| a.borrow().vars[e as usize])
}

pub fn arena_len() -> usize {
    ARENA.with(|a| a.borrow().nodes.len())
}

fn intern(n: Node) -> E {
    ARENA.with(|a| {
        let a = &mut *a.borrow_mut();
        if let Some(e) = a.map.get(&n) { return *e; }
        let mut vs = [0u64; 4];
        match n.op {
            Op::Const => {}
            Op::Var => {
                let i = (n.k & 0xffff) as usize;
                assert!(i < 256, "too many symbolic variables");
                vs[i / 64] |= 1 << (i % 64);
            }
            _ => {
                for x in [n.a, n.b, n.c] {
                    let o = a.vars[x as usize];
                    for i in 0..4 { vs[i] |= o[i]; }
                }
            }
        }
        let e = a.nodes.len() as E;
        a.nodes.push(n);
        a.vars.push(vs);
        a.map.insert(n, e);
        e
    })
}

pub fn cst(v: u128, w: u16) -> E {
    intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
}

pub fn var(idx: u16, w: u16) -> E {
    intern(Node { op: Op::Var, w, a: 0, b: 0, c: 0,
                  k: idx as u128 | ((w as u128) << 16) })
}

#[inline]
pub fn as_const(e: E) -> Option<u128> {
    let n = node(e);
    if n.op == Op::Const { Some(n.k) } else { None }
}

/// Concrete semantics of binary operators; None for division by zero.
pub fn fold(op: Op, a: u128, b: u128, w: u16) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => { if b == 0 { return None; } a / b }
        Op::URem => { if b == 0 { return None; } a % b }
        Op::SDiv => {
            if b == 0 { return None; }
            (sext(a, w).wrapping_div(sext(b, w)) as u128) & m
        }
        Op::SRem => {
            if b == 0 { return None; }
            (sext(a, w).wrapping_rem(sext(b, w)) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = sext(a, w);
            let sh = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((s >> sh) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    })
}

fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}

/// Unsigned range known for an expression, by structure.
fn urange(e: E) -> (u128, u128) {
    let n = node(e);
    match n.op {
        Op::Const => (n.k, n.k),
        Op::ZExt => urange(n.a),
        Op::And => {
            let hi = std::cmp::min(urange(n.a).1, urange(n.b).1);
            (0, hi)
        }
        Op::Ite => {
            let (a, b) = (urange(n.b), urange(n.c));
            (std::cmp::min(a.0, b.0), std::cmp::max(a.1, b.1))
        }
        Op::Add => {
            let (a, b) = (urange(n.a), urange(n.b));
            match a.1.checked_add(b.1) {
                Some(h) if h <= mask(n.w) => (a.0 + b.0, h),
                _ => (0, mask(n.w))
            }
        }
        _ => (0, mask(n.w)),
    }
}

pub fn bin(op: Op, mut a: E, mut b: E) -> E {
    let (mut na, mut nb) = (node(a), node(b));
    debug_assert!(na.w == nb.w, "width mismatch {:?} {:?} {:?}", op, na, nb);
    let w = na.w;
    let rw = if is_cmp(op) { 1 } else { w };
    if na.op == Op::Const && nb.op == Op::Const {
        if let Some(v) = fold(op, na.k, nb.k, w) {
            return cst(v, rw);
        }
    }
    // constants to the right for commutative operators
    if na.op == Op::Const
        && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor
                    | Op::Eq)
    {
        std::mem::swap(&mut a, &mut b);
        std::mem::swap(&mut na, &mut nb);
    }
    let kb = if nb.op == Op::Const { Some(nb.k) } else { None };
    match op {
        Op::Add => {
            if kb == Some(0) { return a; }
            if let Some(k) = kb {
                if na.op == Op::Add {
                    if let Some(k2) = as_const(na.b) {
                        return bin(Op::Add, na.a, cst(k.wrapping_add(k2), w));
                    }
                }
                if na.op == Op::Ite && as_const(na.b).is_some()
                    && as_const(na.c).is_some()
                {
                    return ite(na.a, bin(Op::Add, na.b, b),
                               bin(Op::Add, na.c, b));
                }
            }
        }
        Op::Sub => {
            if kb == Some(0) { return a; }
            if a == b { return cst(0, w); }
            if let Some(k) = kb {
                return bin(Op::Add, a,
                           cst((!k).wrapping_add(1) & mask(w), w));
            }
            if na.op == Op::Add {
                if na.a == b { return na.b; }
                if na.b == b { return na.a; }
            }
            // (x + k) - (x + k2), x - (x + k)
            if nb.op == Op::Add && nb.a == a {
                return bin(Op::Sub, cst(0, w), nb.b);
            }
            if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a {
                return bin(Op::Sub, na.b, nb.b);
            }
        }
        Op::Mul => {
            if kb == Some(0) { return cst(0, w); }
            if kb == Some(1) { return a; }
            if let Some(k) = kb {
                if k.is_power_of_two() {
                    return bin(Op::Shl, a,
                               cst(k.trailing_zeros() as u128, w));
                }
            }
        }
        Op::UDiv => {
            if kb == Some(1) { return a; }
            if let Some(k) = kb {
                if k.is_power_of_two() {
                    return bin(Op::LShr, a,
                               cst(k.trailing_zeros() as u128, w));
                }
            }
        }
        Op::URem => {
            if kb == Some(1) { return cst(0, w); }
            if let Some(k) = kb {
                if k.is_power_of_two() {
                    return bin(Op::And, a, cst(k - 1, w));
                }
            }
        }
        Op::And => {
            if kb == Some(0) { return cst(0, w); }
            if kb == Some(mask(w)) { return a; }
            if a == b { return a; }
            if w == 1 && not(a) == b { return cst(0, 1); }
            if let Some(k) = kb {
                // low mask over zext
                if na.op == Op::ZExt {
                    let iw = width(na.a);
                    if k & mask(iw) == mask(iw) { return a; }
                    return zext(bin(Op::And, na.a, cst(k, iw)), w);
                }
                if (k + 1).is_power_of_two() && k != 0 {
                    let lw = k.trailing_ones() as u16;
                    if lw < w { return zext(extract(a, 0, lw), w); }
                }
                if na.op == Op::And {
                    if let Some(k2) = as_const(na.b) {
                        return bin(Op::And, na.a, cst(k & k2, w));
                    }
                }
                if na.op == Op::Concat {
                    let lw = width(na.b);
                    return concat(
                        bin(Op::And, na.a, cst(k >> lw, w - lw)),
                        bin(Op::And, na.b, cst(k, lw)));
                }
            }
        }
        Op::Or => {
            if kb == Some(0) { return a; }
            if kb == Some(mask(w)) { return b; }
            if a == b { return a; }
            if w == 1 && not(a) == b { return cst(1, 1); }
            // zext(x) | (zext(y) << k), disjoint: as concat
            if let Some(r) = or_concat(a, b) { return r; }
            if let Some(r) = or_concat(b, a) { return r; }
        }
        Op::Xor => {
            if kb == Some(0) { return a; }
            if a == b { return cst(0, w); }
            if w == 1 && kb == Some(1) {
                // not: push into comparisons
                match na.op {
                    Op::Xor if as_const(na.b) == Some(1) => return na.a,
                    Op::Ult => return bin(Op::Ule, na.b, na.a),
                    Op::Ule => return bin(Op::Ult, na.b, na.a),
                    Op::Slt => return bin(Op::Sle, na.b, na.a),
                    Op::Sle => return bin(Op::Slt, na.b, na.a),
                    _ => {}
                }
            }
        }
        Op::Shl | Op::LShr => {
            if kb == Some(0) { return a; }
            if let Some(k) = kb {
                if k >= w as u128 { return cst(0, w); }
                let k = k as u16;
                if op == Op::Shl {
                    return concat(extract(a, 0, w - k), cst(0, k));
                } else {
                    return zext(extract(a, k, w - k), w);
                }
            }
        }
        Op::AShr => {
            if kb == Some(0) { return a; }
            if let Some(k) = kb {
                if k < w as u128 {
                    return sext_e(extract(a, k as u16, w - k as u16), w);
                }
            }
        }
        Op::Eq => {
            if a == b { return cst(1, 1); }
            if w == 1 {
                if kb == Some(1) { return a; }
                if kb == Some(0) { return not(a); }
            }
            if let Some(k) = kb {
                let (lo, hi) = urange(a);
                if k < lo || k > hi { return cst(0, 1); }
                match na.op {
                    Op::ZExt => {
                        let iw = width(na.a);
                        if k > mask(iw) { return cst(0, 1); }
                        return bin(Op::Eq, na.a, cst(k, iw));
                    }
                    Op::SExt => {
                        let iw = width(na.a);
                        if (sext(k & mask(iw), iw) as u128) & mask(w) != k {
                            return cst(0, 1);
                        }
                        return bin(Op::Eq, na.a, cst(k, iw));
                    }
                    Op::Add => {
                        if let Some(k2) = as_const(na.b) {
                            return bin(Op::Eq, na.a,
                                       cst(k.wrapping_sub(k2), w));
                        }
                    }
                    Op::Xor => {
                        if let Some(k2) = as_const(na.b) {
                            return bin(Op::Eq, na.a, cst(k ^ k2, w));
                        }
                    }
                    Op::Ite => {
                        let (x, y) = (as_const(na.b), as_const(na.c));
                        if x.is_some() || y.is_some() {
                            return ite(na.a, bin(Op::Eq, na.b, b),
                                       bin(Op::Eq, na.c, b));
                        }
                    }
                    Op::Concat => {
                        let lw = width(na.b);
                        return and(
                            bin(Op::Eq, na.a, cst(k >> lw, w - lw)),
                            bin(Op::Eq, na.b, cst(k, lw)));
                    }
                    _ => {}
                }
            } else {
                if na.op == Op::ZExt && nb.op == Op::ZExt
                    && width(na.a) == width(nb.a)
                {
                    return bin(Op::Eq, na.a, nb.a);
                }
                if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a {
                    return bin(Op::Eq, na.b, nb.b);
                }
                if na.op == Op::Add && na.a == b {
                    return bin(Op::Eq, na.b, cst(0, w));
                }
                if nb.op == Op::Add && nb.a == a {
                    return bin(Op::Eq, nb.b, cst(0, w));
                }
                if na.op == Op::Concat && nb.op == Op::Concat
                    && width(na.b) == width(nb.b)
                {
                    return and(bin(Op::Eq, na.a, nb.a),
                               bin(Op::Eq, na.b, nb.b));
                }
                if a > b { return bin2(op, rw, b, a); }
            }
        }
        Op::Ult | Op::Ule => {
            if a == b { return cst((op == Op::Ule) as u128, 1); }
            let (ra, rb) = (urange(a), urange(b));
            if op == Op::Ult {
                if ra.1 < rb.0 { return cst(1, 1); }
                if ra.0 >= rb.1 { return cst(0, 1); }
            } else {
                if ra.1 <= rb.0 { return cst(1, 1); }
                if ra.0 > rb.1 { return cst(0, 1); }
            }
            // zext against constant or zext
            if na.op == Op::ZExt {
                let iw = width(na.a);
                if let Some(k) = kb {
                    if k <= mask(iw) {
                        return bin(op, na.a, cst(k, iw));
                    }
                }
                if nb.op == Op::ZExt && width(nb.a) == iw {
                    return bin(op, na.a, nb.a);
                }
            }
            if nb.op == Op::ZExt {
                let iw = width(nb.a);
                if let Some(k) = as_const(a) {
                    if k <= mask(iw) {
                        return bin(op, cst(k, iw), nb.a);
                    }
                }
            }
        }
        Op::Slt | Op::Sle => {
            if a == b { return cst((op == Op::Sle) as u128, 1); }
            // both known non-negative
            let h = mask(w) >> 1;
            if w > 1 && urange(a).1 <= h && urange(b).1 <= h {
                let uop = if op == Op::Slt { Op::Ult } else { Op::Ule };
                return bin(uop, a, b);
            }
        }
        _ => {}
    }
    bin2(op, rw, a, b)
}

fn or_concat(a: E, b: E) -> Option<E> {
    // a: low part zext(x), b: concat(y, 0:k) with width(x) <= k
    let (na, nb) = (node(a), node(b));
    if nb.op != Op::Concat { return None; }
    let k = width(nb.b);
    if as_const(nb.b) != Some(0) { return None; }
    match na.op {
        Op::ZExt if width(na.a) <= k => {
            Some(concat(nb.a, zext(na.a, k)))
        }
        Op::Const if na.k <= mask(k) => {
            Some(concat(nb.a, cst(na.k, k)))
        }
        Op::Concat if width(na.b) < k => {
            // high part of a must be zero-extended within
            let lo = width(na.b);
            if urange(na.a).1 <= mask(k - lo) {
                Some(concat(nb.a, extract(a, 0, k)))
            } else {
                None
            }
        }
        _ => None
    }
}

fn bin2(op: Op, w: u16, a: E, b: E) -> E {
    intern(Node { op, w, a, b, c: 0, k: 0 })
}

pub fn not(a: E) -> E {
    let w = width(a);
    bin(Op::Xor, a, cst(mask(w), w))
}

pub fn and(a: E, b: E) -> E { bin(Op::And, a, b) }
pub fn or(a: E, b: E) -> E { bin(Op::Or, a, b) }

pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(k) = as_const(c) {
        return if k != 0 { a } else { b };
    }
    if a == b { return a; }
    let w = width(a);
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or(c, b),
            (Some(0), None) => return and(not(c), b),
            (None, Some(0)) => return and(c, a),
            (None, Some(1)) => return or(not(c), a),
            _ => {}
        }
    }
    intern(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
}

pub fn extract(a: E, lo: u16, w: u16) -> E {
    let n = node(a);
    debug_assert!(lo + w <= n.w);
    if lo == 0 && w == n.w { return a; }
    match n.op {
        Op::Const => return cst(n.k >> lo, w),
        Op::Extract => return extract(n.a, lo + n.k as u16, w),
        Op::Concat => {
            let lw = width(n.b);
            if lo >= lw { return extract(n.a, lo - lw, w); }
            if lo + w <= lw { return extract(n.b, lo, w); }
            return concat(extract(n.a, 0, lo + w - lw),
                          extract(n.b, lo, lw - lo));
        }
        Op::ZExt => {
            let iw = width(n.a);
            if lo >= iw { return cst(0, w); }
            if lo + w <= iw { return extract(n.a, lo, w); }
            return zext(extract(n.a, lo, iw - lo), w);
        }
        Op::SExt => {
            let iw = width(n.a);
            if lo + w <= iw { return extract(n.a, lo, w); }
        }
        Op::And | Op::Or | Op::Xor => {
            if as_const(n.b).is_some() || lo == 0 {
                return bin(n.op, extract(n.a, lo, w), extract(n.b, lo, w));
            }
        }
        Op::Add | Op::Sub | Op::Mul => {
            if lo == 0 {
                return bin(n.op, extract(n.a, 0, w), extract(n.b, 0, w));
            }
        }
        Op::Ite => {
            if as_const(n.b).is_some() || as_const(n.c).is_some() {
                return ite(n.a, extract(n.b, lo, w), extract(n.c, lo, w));
            }
        }
        _ => {}
    }
    intern(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
}

/// High a, low b.
pub fn concat(a: E, b: E) -> E {
    let (na, nb) = (node(a), node(b));
    let w = na.w + nb.w;
    if na.op == Op::Const && nb.op == Op::Const {
        return cst((na.k << nb.w) | nb.k, w);
    }
    if na.op == Op::Const && na.k == 0 {
        return zext(b, w);
    }
    if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a
        && na.k == nb.k + nb.w as u128
    {
        return extract(na.a, nb.k as u16, w);
    }
    // extract(x, ..) with zext'd x: concat(extract, whole low)
    if na.op == Op::Extract && na.a == b && na.k == nb.w as u128 {
        return extract(b, 0, w);
    }
    if na.op == Op::ZExt {
        return zext(concat(na.a, b), w);
    }
    // right-nested with merge of adjacent extracts
    if nb.op == Op::Concat {
        let nba = node(nb.a);
        if na.op == Op::Extract && nba.op == Op::Extract && na.a == nba.a
            && na.k == nba.k + nba.w as u128
        {
            return concat(extract(na.a, nba.k as u16, na.w + nba.w), nb.b);
        }
        if na.op == Op::Const && nba.op == Op::Const {
            return concat(concat(a, nb.a), nb.b);
        }
    }
    if na.op == Op::Concat {
        // left-nested to right-nested
        return concat(na.a, concat(na.b, b));
    }
    intern(Node { op: Op::Concat, w, a, b, c: 0, k: 0 })
}

pub fn zext(a: E, w: u16) -> E {
    let n = node(a);
    if n.w == w { return a; }
    debug_assert!(n.w < w);
    match n.op {
        Op::Const => return cst(n.k, w),
        Op::ZExt => return zext(n.a, w),
        _ => {}
    }
    intern(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
}

pub fn sext_e(a: E, w: u16) -> E {
    let n = node(a);
    if n.w == w { return a; }
    match n.op {
        Op::Const => return cst(sext(n.k, n.w) as u128, w),
        Op::ZExt => return zext(n.a, w),
        Op::SExt => return sext_e(n.a, w),
        _ => {}
    }
    intern(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
}

/// Assignment of variables by index; absent is zero.
pub type Model = Vec<u128>;

pub fn eval(e: E, m: &Model) -> u128 {
    let mut memo = HashMap::new();
    ARENA.with(|a| ev(&a.borrow().nodes, e, m, &mut memo))
}

fn ev(ns: &[Node], e: E, m: &Model, memo: &mut HashMap<E, u128>) -> u128 {
    let n = &ns[e as usize];
    match n.op {
        Op::Const => return n.k,
        Op::Var => {
            return m.get((n.k & 0xffff) as usize).copied().unwrap_or(0)
                & mask(n.w);
        }
        _ => {}
    }
    if let Some(v) = memo.get(&e) { return *v; }
    let v = match n.op {
        Op::Ite => {
            if ev(ns, n.a, m, memo) != 0 {
                ev(ns, n.b, m, memo)
            } else {
                ev(ns, n.c, m, memo)
            }
        }
        Op::Extract => {
            (ev(ns, n.a, m, memo) >> n.k) & mask(n.w)
        }
        Op::ZExt => ev(ns, n.a, m, memo),
        Op::SExt => {
            let iw = ns[n.a as usize].w;
            (sext(ev(ns, n.a, m, memo), iw) as u128) & mask(n.w)
        }
        Op::Concat => {
            let lw = ns[n.b as usize].w;
            (ev(ns, n.a, m, memo) << lw) | ev(ns, n.b, m, memo)
        }
        op => {
            let (a, b) = (ev(ns, n.a, m, memo), ev(ns, n.b, m, memo));
            let w = ns[n.a as usize].w;
            match fold(op, a, b, w) {
                Some(v) => v,
                // SMT-LIB semantics
                None => match op {
                    Op::UDiv => mask(w),
                    Op::URem | Op::SRem => a,
                    _ => if sext(a, w) < 0 { 1 } else { mask(w) },
                }
            }
        }
    };
    memo.insert(e, v);
    v
}
