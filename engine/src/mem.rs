//! Copy-on-write object memory with per-byte symbolic contents.
use crate::ll::*;
use crate::term::*;
use crate::val::*;
use std::rc::Rc;

pub const ADDR_OFF: u64 = 0x10000;
pub const OBJ_SHIFT: u32 = 32;
pub const MAX_OBJ: u64 = 1 << 31;
pub const MATERIAL: u64 = 1 << 22;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Global,
    Const,
    Heap,
    Stack,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub size: u64,
    pub kind: Kind,
    pub data: Vec<u8>,        // may be shorter than size; the rest is zero
    pub sym: Vec<(E, u8)>,    // empty, or as long as data; NONE = concrete
}
impl Obj {
    pub fn new(size: u64, kind: Kind) -> Obj {
        Obj { size, kind, data: Vec::new(), sym: Vec::new() }
    }
    #[inline]
    fn reach(&mut self, n: usize) {
        if self.data.len() < n {
            let want = if self.size <= 4096 { self.size as usize } else { n.max(self.data.len() * 2).min(self.size as usize) };
            self.data.resize(want, 0);
            if !self.sym.is_empty() {
                self.sym.resize(want, (NONE, 0));
            }
        }
    }
    #[inline]
    pub fn byte(&self, o: usize) -> V {
        if !self.sym.is_empty() && o < self.sym.len() && self.sym[o].0 != NONE {
            let (e, i) = self.sym[o];
            return vt(t().extract(e, i as u16 * 8, 8));
        }
        V::I(if o < self.data.len() { self.data[o] as u64 } else { 0 })
    }
    #[inline]
    pub fn concrete(&self, o: usize, n: usize) -> bool {
        if self.sym.is_empty() {
            return true;
        }
        let e = (o + n).min(self.sym.len());
        if o >= e {
            return true;
        }
        self.sym[o..e].iter().all(|x| x.0 == NONE)
    }
    /// n bytes, little endian, as a value of 8n bits
    #[inline]
    pub fn read(&self, o: usize, n: usize) -> V {
        if n <= 8 && self.concrete(o, n) {
            if o + n <= self.data.len() {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&self.data[o..o + n]);
                return V::I(u64::from_le_bytes(b));
            }
            let mut r = 0u64;
            for k in 0..n {
                if o + k < self.data.len() {
                    r |= (self.data[o + k] as u64) << (8 * k);
                }
            }
            return V::I(r);
        }
        self.read_slow(o, n)
    }
    fn read_slow(&self, o: usize, n: usize) -> V {
        let tm = t();
        // group into runs, from high to low
        let mut acc: E = NONE;
        let mut k = n;
        while k > 0 {
            let top = o + k - 1;
            let (e, i) = if top < self.sym.len() { self.sym[top] } else { (NONE, 0) };
            let mut lo = k - 1;
            let part;
            if e == NONE {
                while lo > 0 && k - lo < 8 {
                    let p = o + lo - 1;
                    if p < self.sym.len() && self.sym[p].0 != NONE {
                        break;
                    }
                    lo -= 1;
                }
                let mut r = 0u64;
                for j in lo..k {
                    if o + j < self.data.len() {
                        r |= (self.data[o + j] as u64) << (8 * (j - lo));
                    }
                }
                part = tm.con(r, 8 * (k - lo) as u16);
            } else {
                let mut ii = i;
                while lo > 0 && ii > 0 {
                    let p = o + lo - 1;
                    if p < self.sym.len() && self.sym[p] == (e, ii - 1) {
                        lo -= 1;
                        ii -= 1;
                    } else {
                        break;
                    }
                }
                part = tm.extract(e, ii as u16 * 8, (8 * (k - lo)) as u16);
            }
            acc = if acc == NONE { part } else { tm.concat(acc, part) };
            k = lo;
        }
        vt(acc)
    }
    #[inline]
    pub fn write(&mut self, o: usize, n: usize, v: &V) {
        self.reach(o + n);
        match v {
            V::I(x) => {
                let b = x.to_le_bytes();
                let m = n.min(8);
                self.data[o..o + m].copy_from_slice(&b[..m]);
                for k in m..n {
                    self.data[o + k] = 0;
                }
                if !self.sym.is_empty() {
                    for k in 0..n {
                        self.sym[o + k] = (NONE, 0);
                    }
                }
            }
            V::S(e) => {
                let w = t().w(*e);
                let mut e = *e;
                if (w as usize) < 8 * n {
                    e = t().zext(e, 8 * n as u16);
                }
                // wide constants are stored as bytes
                let nd = t().n(e);
                if nd.op == Op::Const {
                    let val = (nd.k2 as u128) << 64 | nd.k as u128;
                    for k in 0..n {
                        self.data[o + k] = if k < 16 { (val >> (8 * k)) as u8 } else { 0 };
                        if !self.sym.is_empty() {
                            self.sym[o + k] = (NONE, 0);
                        }
                    }
                    return;
                }
                if self.sym.is_empty() {
                    self.sym = vec![(NONE, 0); self.data.len()];
                }
                for k in 0..n {
                    self.sym[o + k] = (e, k as u8);
                }
            }
            V::A(_) => panic!("aggregate write"),
        }
    }
    pub fn write_bytes(&mut self, o: usize, b: &[u8]) {
        self.reach(o + b.len());
        self.data[o..o + b.len()].copy_from_slice(b);
        if !self.sym.is_empty() {
            for k in 0..b.len() {
                self.sym[o + k] = (NONE, 0);
            }
        }
    }
    pub fn set_sym(&mut self, o: usize, e: E, i: u8) {
        self.reach(o + 1);
        if self.sym.is_empty() {
            self.sym = vec![(NONE, 0); self.data.len()];
        }
        self.sym[o] = (e, i);
    }
}

const CH: usize = 64;
#[derive(Clone, Default)]
pub struct Mem {
    pub chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    pub next: u64,
}
impl Mem {
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let id = self.next;
        self.next += 1;
        let c = id as usize / CH;
        if c == self.chunks.len() {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[c])[id as usize % CH] = Some(Rc::new(o));
        (id << OBJ_SHIFT) + ADDR_OFF
    }
    #[inline]
    pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH).and_then(|c| c[id as usize % CH].as_ref())
    }
    #[inline]
    pub fn get_mut(&mut self, id: u64) -> &mut Obj {
        let c = Rc::make_mut(&mut self.chunks[id as usize / CH]);
        Rc::make_mut(c[id as usize % CH].as_mut().unwrap())
    }
    pub fn free(&mut self, id: u64) {
        Rc::make_mut(&mut self.chunks[id as usize / CH])[id as usize % CH] = None;
    }
    /// object and offset of a valid access
    #[inline]
    pub fn locate(&self, addr: u64, n: u64) -> Option<(u64, usize)> {
        let id = addr >> OBJ_SHIFT;
        let off = (addr & 0xffff_ffff).wrapping_sub(ADDR_OFF);
        let o = self.get(id)?;
        if off.checked_add(n)? <= o.size {
            Some((id, off as usize))
        } else {
            None
        }
    }
    #[inline]
    pub fn read(&self, addr: u64, n: usize) -> Option<V> {
        let id = addr >> OBJ_SHIFT;
        let off = (addr & 0xffff_ffff).wrapping_sub(ADDR_OFF);
        let o = self.get(id)?;
        if off.checked_add(n as u64)? <= o.size {
            Some(o.read(off as usize, n))
        } else {
            None
        }
    }
    #[inline]
    pub fn write(&mut self, addr: u64, n: usize, v: &V) -> bool {
        match self.locate(addr, n as u64) {
            Some((id, off)) => {
                let o = self.get_mut(id);
                if o.kind == Kind::Const {
                    return false;
                }
                o.write(off, n, v);
                true
            }
            None => false,
        }
    }
    pub fn bytes(&self, addr: u64, n: u64) -> Option<Vec<V>> {
        if n == 0 {
            return Some(vec![]);
        }
        let (id, off) = self.locate(addr, n)?;
        let o = self.get(id).unwrap();
        Some((0..n as usize).map(|k| o.byte(off + k)).collect())
    }
    pub fn cbytes(&self, addr: u64, n: u64) -> Option<Vec<u8>> {
        self.bytes(addr, n)?.into_iter().map(|v| if let V::I(x) = v { Some(x as u8) } else { None }).collect()
    }
    /// memmove
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> bool {
        if n == 0 {
            return true;
        }
        let (si, so) = match self.locate(s, n) {
            Some(x) => x,
            None => return false,
        };
        let (di, dof) = match self.locate(d, n) {
            Some(x) => x,
            None => return false,
        };
        let n = n as usize;
        let src = self.get(si).unwrap().clone();
        let dst = self.get_mut(di);
        if dst.kind == Kind::Const {
            return false;
        }
        dst.reach(dof + n);
        let have = src.data.len().saturating_sub(so).min(n);
        if have > 0 {
            dst.data[dof..dof + have].copy_from_slice(&src.data[so..so + have]);
        }
        for k in have..n {
            dst.data[dof + k] = 0;
        }
        let symb = !src.concrete(so, n);
        if symb && dst.sym.is_empty() {
            dst.sym = vec![(NONE, 0); dst.data.len()];
        }
        if !dst.sym.is_empty() {
            for k in 0..n {
                dst.sym[dof + k] = if symb && so + k < src.sym.len() { src.sym[so + k] } else { (NONE, 0) };
            }
        }
        true
    }
    pub fn fill(&mut self, d: u64, v: &V, n: u64) -> bool {
        if n == 0 {
            return true;
        }
        let (di, dof) = match self.locate(d, n) {
            Some(x) => x,
            None => return false,
        };
        let dst = self.get_mut(di);
        if let V::I(0) = v {
            // a fresh tail is already zero
            let end = (dof + n as usize).min(dst.data.len());
            if dof < end {
                dst.data[dof..end].fill(0);
                if !dst.sym.is_empty() {
                    for k in dof..end {
                        dst.sym[k] = (NONE, 0);
                    }
                }
            }
            return true;
        }
        for k in 0..n as usize {
            dst.write(dof + k, 1, v);
        }
        true
    }
}

/// load a value of a type
pub fn load_ty(m: &mut Module, mem: &Mem, addr: u64, ty: TyId) -> Option<V> {
    match m.tys[ty as usize].clone() {
        Ty::Int(w) => {
            let n = (w as usize + 7) / 8;
            let v = mem.read(addr, n)?;
            if w as usize != 8 * n {
                return Some(match v {
                    V::I(x) => V::I(x & mask(w)),
                    V::S(e) => vt(t().extract(e, 0, w)),
                    _ => unreachable!(),
                });
            }
            Some(v)
        }
        Ty::F32 => mem.read(addr, 4),
        Ty::F64 | Ty::Ptr => mem.read(addr, 8),
        Ty::Arr(n, e) => {
            let s = m.size_align(e).0;
            let mut v = Vec::new();
            for k in 0..n {
                v.push(load_ty(m, mem, addr + k * s, e)?);
            }
            Some(V::A(Rc::new(v)))
        }
        Ty::Vec(n, e) => {
            if m.width(e) % 8 != 0 {
                let w = m.width(e) * n as u16;
                let x = mem.read(addr, (w as usize + 7) / 8)?;
                let bits = x.e(((w + 7) / 8) * 8);
                let ew = m.width(e);
                return Some(V::A(Rc::new((0..n as u16).map(|k| vt(t().extract(bits, k * ew, ew))).collect())));
            }
            let s = m.size_align(e).0;
            let mut v = Vec::new();
            for k in 0..n as u64 {
                v.push(load_ty(m, mem, addr + k * s, e)?);
            }
            Some(V::A(Rc::new(v)))
        }
        Ty::Struct(f, _) => {
            let mut v = Vec::new();
            for k in 0..f.len() as u64 {
                let (o, e) = m.field_off(ty, k);
                v.push(load_ty(m, mem, addr + o, e)?);
            }
            Some(V::A(Rc::new(v)))
        }
        _ => Some(V::I(0)),
    }
}
pub fn store_ty(m: &mut Module, mem: &mut Mem, addr: u64, ty: TyId, v: &V) -> bool {
    match m.tys[ty as usize].clone() {
        Ty::Int(w) => mem.write(addr, (w as usize + 7) / 8, v),
        Ty::F32 => mem.write(addr, 4, v),
        Ty::F64 | Ty::Ptr => mem.write(addr, 8, v),
        Ty::Vec(n, e) if m.width(e) % 8 != 0 => {
            let ew = m.width(e);
            let a = match v {
                V::A(a) => a,
                _ => panic!(),
            };
            let mut acc = a[0].e(ew);
            for k in 1..n as usize {
                let h = a[k].e(ew);
                acc = t().concat(h, acc);
            }
            let w = t().w(acc);
            let n = (w + 7) / 8;
            let acc = t().zext(acc, n * 8);
            mem.write(addr, n as usize, &vt(acc))
        }
        Ty::Arr(_, e) | Ty::Vec(_, e) => {
            let s = m.size_align(e).0;
            if let V::A(a) = v {
                for (k, x) in a.iter().enumerate() {
                    if !store_ty(m, mem, addr + k as u64 * s, e, x) {
                        return false;
                    }
                }
            } else {
                panic!("store of a scalar as an array");
            }
            true
        }
        Ty::Struct(f, _) => {
            if let V::A(a) = v {
                for k in 0..f.len() {
                    let (o, e) = m.field_off(ty, k as u64);
                    if !store_ty(m, mem, addr + o, e, &a[k]) {
                        return false;
                    }
                }
            } else {
                panic!("store of a scalar as a struct");
            }
            true
        }
        _ => true,
    }
}
