//! Segmented memory: one 4 GiB segment per object; generation-tagged
//! addresses, copy-on-write contents, per-byte symbolic overlay.

use crate::expr::{self, E};
use crate::ir::OFF;
use std::rc::Rc;

#[derive(Clone)]
pub struct Data {
    pub b: Vec<u8>,
    /// Symbolic bytes (0: concrete), or empty when all are concrete
    pub s: Vec<E>,
}

#[derive(Clone)]
pub struct Slot {
    pub gen: u16,
    pub live: bool,
    pub heap: bool,
    pub data: Rc<Data>,
}

#[derive(Clone)]
pub struct Mem {
    pub consts: Rc<Vec<Rc<Data>>>,
    pub objs: Vec<Slot>,
    pub free: Vec<u32>,
    empty: Rc<Data>,
}

pub enum Loc { Const(usize, usize), Obj(usize, usize) }

const SLOT_BITS: u64 = 0xF_FFFF;

impl Mem {
    pub fn new(consts: Rc<Vec<Rc<Data>>>) -> Mem {
        Mem { consts, objs: vec![], free: vec![],
              empty: Rc::new(Data { b: vec![], s: vec![] }) }
    }

    pub fn alloc(&mut self, size: usize, heap: bool) -> u64 {
        let data = if size == 0 { self.empty.clone() } else {
            Rc::new(Data { b: vec![0; size], s: vec![] })
        };
        self.alloc_data(data, heap)
    }

    pub fn alloc_data(&mut self, data: Rc<Data>, heap: bool) -> u64 {
        let i = match self.free.pop() {
            Some(i) => {
                let s = &mut self.objs[i as usize];
                s.gen = (s.gen + 1) & 0x7ff;
                s.live = true;
                s.heap = heap;
                s.data = data;
                i
            }
            None => {
                self.objs.push(Slot { gen: 0, live: true, heap, data });
                self.objs.len() as u32 - 1
            }
        };
        self.addr_of(i as usize)
    }

    pub fn addr_of(&self, i: usize) -> u64 {
        let slot = 2 + self.consts.len() as u64 + i as u64;
        ((self.objs[i].gen as u64) << 52) | (slot << 32) | OFF
    }

    pub fn release(&mut self, i: usize) {
        let e = self.empty.clone();
        let s = &mut self.objs[i];
        s.live = false;
        s.data = e;
        self.free.push(i as u32);
    }

    /// Locate an access of n bytes at address a.
    #[inline]
    pub fn find(&self, a: u64, n: usize) -> Result<Loc, String> {
        let slot = ((a >> 32) & SLOT_BITS) as usize;
        let off = ((a & 0xffff_ffff) as usize).wrapping_sub(OFF as usize);
        let nc = self.consts.len();
        if slot < 2 {
            return Err(format!("invalid pointer {:#x}", a));
        }
        let k = slot - 2;
        if k < nc {
            let len = self.consts[k].b.len();
            if off > len || n > len - off {
                return Err(format!("out of bounds: constant, offset {} + {} \
                                    of {}", off as i64, n, len));
            }
            return Ok(Loc::Const(k, off));
        }
        let i = k - nc;
        let gen = ((a >> 52) & 0x7ff) as u16;
        match self.objs.get(i) {
            Some(o) if o.live && o.gen == gen && a >> 63 == 0 => {
                let len = o.data.b.len();
                if off > len || n > len - off {
                    return Err(format!(
                        "out of bounds: offset {} + {} of {}",
                        off as i64, n, len));
                }
                Ok(Loc::Obj(i, off))
            }
            Some(_) => Err(format!("use after free {:#x}", a)),
            None => Err(format!("invalid pointer {:#x}", a)),
        }
    }

    #[inline]
    pub fn data(&self, l: &Loc) -> (&Data, usize) {
        match *l {
            Loc::Const(k, o) => (&self.consts[k], o),
            Loc::Obj(i, o) => (&self.objs[i].data, o),
        }
    }

    pub fn data_mut(&mut self, l: &Loc) -> Result<(&mut Data, usize), String> {
        match *l {
            Loc::Const(..) => Err("write to constant".into()),
            Loc::Obj(i, o) => {
                Ok((Rc::make_mut(&mut self.objs[i].data), o))
            }
        }
    }

    /// Little-endian load as concrete value or expression.
    #[inline]
    pub fn load(&self, a: u64, n: usize) -> Result<Result<u128, E>, String> {
        if n == 0 { return Ok(Ok(0)); }
        let l = self.find(a, n)?;
        let (d, o) = self.data(&l);
        if d.s.is_empty() || d.s[o..o + n].iter().all(|x| *x == 0) {
            let mut buf = [0u8; 16];
            buf[..n].copy_from_slice(&d.b[o..o + n]);
            return Ok(Ok(u128::from_le_bytes(buf)));
        }
        let mut e = byte(d, o + n - 1);
        for j in (0..n - 1).rev() {
            e = expr::concat(e, byte(d, o + j));
        }
        Ok(match expr::as_const(e) { Some(k) => Ok(k), None => Err(e) })
    }

    #[inline]
    pub fn store_c(&mut self, a: u64, n: usize, v: u128)
        -> Result<(), String>
    {
        if n == 0 { return Ok(()); }
        let l = self.find(a, n)?;
        let (d, o) = self.data_mut(&l)?;
        let b = v.to_le_bytes();
        d.b[o..o + n].copy_from_slice(&b[..n]);
        if !d.s.is_empty() {
            for x in &mut d.s[o..o + n] { *x = 0; }
        }
        Ok(())
    }

    pub fn store_e(&mut self, a: u64, n: usize, e: E) -> Result<(), String> {
        let l = self.find(a, n)?;
        let (d, o) = self.data_mut(&l)?;
        for j in 0..n {
            let x = expr::extract(e, 8 * j as u16, 8);
            set_byte(d, o + j, x);
        }
        Ok(())
    }

    /// Copy out bytes as expressions (0 when concrete) with values.
    pub fn read_bytes(&self, a: u64, n: usize)
        -> Result<(Vec<u8>, Vec<E>), String>
    {
        if n == 0 { return Ok((vec![], vec![])); }
        let l = self.find(a, n)?;
        let (d, o) = self.data(&l);
        let s = if d.s.is_empty() { vec![] } else {
            let s = d.s[o..o + n].to_vec();
            if s.iter().all(|x| *x == 0) { vec![] } else { s }
        };
        Ok((d.b[o..o + n].to_vec(), s))
    }

    pub fn write_bytes(&mut self, a: u64, b: &[u8], s: &[E])
        -> Result<(), String>
    {
        let n = b.len();
        if n == 0 { return Ok(()); }
        let l = self.find(a, n)?;
        let (d, o) = self.data_mut(&l)?;
        d.b[o..o + n].copy_from_slice(b);
        if s.is_empty() {
            if !d.s.is_empty() {
                for x in &mut d.s[o..o + n] { *x = 0; }
            }
        } else {
            if d.s.is_empty() { d.s = vec![0; d.b.len()]; }
            d.s[o..o + n].copy_from_slice(s);
        }
        Ok(())
    }

    pub fn cstr(&self, a: u64) -> Result<Vec<u8>, String> {
        let mut v = vec![];
        let mut p = a;
        loop {
            match self.load(p, 1)? {
                Ok(0) => return Ok(v),
                Ok(c) => v.push(c as u8),
                Err(_) => return Err("symbolic c string".into()),
            }
            p += 1;
        }
    }
}

#[inline]
pub fn byte(d: &Data, o: usize) -> E {
    if !d.s.is_empty() && d.s[o] != 0 { d.s[o] }
    else { expr::cst(d.b[o] as u128, 8) }
}

pub fn set_byte(d: &mut Data, o: usize, x: E) {
    match expr::as_const(x) {
        Some(k) => {
            d.b[o] = k as u8;
            if !d.s.is_empty() { d.s[o] = 0; }
        }
        None => {
            if d.s.is_empty() { d.s = vec![0; d.b.len()]; }
            d.s[o] = x;
        }
    }
}
