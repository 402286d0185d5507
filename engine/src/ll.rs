//! Parser for the textual LLVM IR the real code is compiled to.
//! Function bodies are parsed on first use.
use crate::term::t;
use crate::val::*;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    F32,
    F64,
    Ptr,
    Arr(u64, TyId),
    Vec(u32, TyId),
    Struct(Vec<TyId>, bool),
    Other,
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(V),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinK {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FPred {
    False,
    Oeq,
    Ogt,
    Oge,
    Olt,
    Ole,
    One,
    Ord,
    Ueq,
    Ugt,
    Uge,
    Ult,
    Ule,
    Une,
    Uno,
    True,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    PtrToInt,
    IntToPtr,
    BitCast,
}

#[derive(Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
}

#[derive(Debug)]
pub enum Inst {
    Bin { k: BinK, ty: TyId, a: Opd, b: Opd },
    FNeg { ty: TyId, a: Opd },
    ICmp { p: Pred, ty: TyId, a: Opd, b: Opd },
    FCmp { p: FPred, ty: TyId, a: Opd, b: Opd },
    Cast { k: CastK, from: TyId, to: TyId, a: Opd },
    Gep { base: Opd, off: i64, idx: Vec<(Opd, u16, i64)> },
    Load { ty: TyId, p: Opd, atomic: bool },
    Store { ty: TyId, v: Opd, p: Opd, atomic: bool },
    Alloca { size: u64, n: Option<(Opd, u16)>, align: u64 },
    Call { f: Callee, args: Vec<Opd>, tys: Vec<TyId>, ret: TyId, next: Option<u32> },
    Select { cty: TyId, ty: TyId, c: Opd, a: Opd, b: Opd },
    ExtractValue { a: Opd, idx: Vec<u32> },
    InsertValue { a: Opd, v: Opd, idx: Vec<u32> },
    ExtractElement { a: Opd, i: Opd },
    InsertElement { a: Opd, v: Opd, i: Opd },
    Shuffle { n: u32, a: Opd, b: Opd, m: Vec<i64> },
    Copy { a: Opd },
    Br { t: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u16, v: Opd, def: u32, cases: Vec<(u64, u32)> },
    Ret { v: Option<Opd> },
    Unreachable,
    Rmw { k: u8, w: u16, p: Opd, v: Opd }, // 0 xchg 1 add 2 sub 3 and 4 or 5 xor 6 max 7 min 8 umax 9 umin 10 nand
    CmpXchg { w: u16, p: Opd, c: Opd, n: Opd },
    Nop,
}
#[derive(Debug)]
pub struct Line {
    pub dst: u32, // u32::MAX if none
    pub i: Inst,
}
#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Opd)>,
}
#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub code: Vec<Line>,
}
#[derive(Debug)]
pub struct Body {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub cost: u32,
}
pub struct Func {
    pub name: String,
    pub src: Option<(usize, usize)>, // line range of the body
    pub body: Option<Rc<Body>>,
    pub weak_null: bool,
}

pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub init: Option<(usize, usize)>, // byte range within the text
    pub align: u64,
    pub konst: bool,
    pub tls: bool,
    pub alias: bool,
}

pub struct Module {
    pub text: String,
    pub lines: Vec<(u32, u32)>,
    pub tys: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    pub layout: Vec<Option<(u64, u64)>>,
    named: HashMap<String, TyId>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub gaddr: Vec<u64>,
}

pub const FBASE: u64 = 0x7e00_0000_0000_0000;

pub struct Cur<'a> {
    s: &'a [u8],
    p: usize,
}
impl<'a> Cur<'a> {
    pub fn new(s: &'a str) -> Cur<'a> {
        Cur { s: s.as_bytes(), p: 0 }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t' || self.s[self.p] == b'\n') {
            self.p += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.s.len() {
            self.s[self.p]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' at: {}", c as char, self.rest());
        }
    }
    fn rest(&self) -> String {
        let e = (self.p + 160).min(self.s.len());
        format!("{}  <<in>> {}", String::from_utf8_lossy(&self.s[self.p..e]), String::from_utf8_lossy(&self.s[..self.s.len().min(300)]))
    }
    fn isw(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
    }
    /// a word (identifier/number); empty if none
    fn word(&mut self) -> &'a str {
        self.ws();
        let b = self.p;
        while self.p < self.s.len() && Self::isw(self.s[self.p]) {
            self.p += 1;
        }
        std::str::from_utf8(&self.s[b..self.p]).unwrap()
    }
    fn peekw(&mut self) -> &'a str {
        self.ws();
        let b = self.p;
        let w = self.word();
        self.p = b;
        w
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.peekw() == w {
            self.word();
            true
        } else {
            false
        }
    }
    /// name after a sigil, possibly quoted
    fn name(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            self.p += 1;
            let b = self.p;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            let r = String::from_utf8_lossy(&self.s[b..self.p]).into_owned();
            self.p += 1;
            return r;
        }
        let b = self.p;
        while self.p < self.s.len() && Self::isw(self.s[self.p]) {
            self.p += 1;
        }
        String::from_utf8_lossy(&self.s[b..self.p]).into_owned()
    }
    fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn end(&mut self) -> bool {
        self.peek() == 0
    }
}

fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "sub" | "add" | "trunc" | "bitcast" | "blockaddress" | "asm" | "metadata" | "inf" | "nan" | "dso_local_equivalent" | "xor"
    ) || w.starts_with("f0x") || w.as_bytes().first().map_or(false, |c| c.is_ascii_digit() || *c == b'-')
}

impl Module {
    pub fn ty(&mut self, x: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&x) {
            return i;
        }
        let i = self.tys.len() as TyId;
        self.tys.push(x.clone());
        self.tymap.insert(x, i);
        self.layout.push(None);
        i
    }
    pub fn size_align(&mut self, i: TyId) -> (u64, u64) {
        if let Some(r) = self.layout[i as usize] {
            return r;
        }
        let r = match self.tys[i as usize].clone() {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let b = (w as u64 + 7) / 8;
                let a = b.next_power_of_two().min(16);
                ((b + a - 1) / a * a, a)
            }
            Ty::F32 => (4, 4),
            Ty::F64 | Ty::Ptr => (8, 8),
            Ty::Arr(n, e) => {
                let (s, a) = self.size_align(e);
                (s * n, a)
            }
            Ty::Vec(n, e) => {
                let s = match self.tys[e as usize] {
                    Ty::Int(1) => (n as u64 + 7) / 8,
                    _ => self.size_align(e).0 * n as u64,
                };
                (s, s.next_power_of_two())
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                for x in f {
                    let (s, a) = self.size_align(x);
                    let a = if packed { 1 } else { a };
                    o = (o + a - 1) / a * a + s;
                    al = al.max(a);
                }
                ((o + al - 1) / al * al, al)
            }
        };
        self.layout[i as usize] = Some(r);
        r
    }
    pub fn field_off(&mut self, i: TyId, k: u64) -> (u64, TyId) {
        match self.tys[i as usize].clone() {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, x) in f.iter().enumerate() {
                    let (s, a) = self.size_align(*x);
                    let a = if packed { 1 } else { a };
                    o = (o + a - 1) / a * a;
                    if j as u64 == k {
                        return (o, *x);
                    }
                    o += s;
                }
                panic!("field index")
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => (self.size_align(e).0 * k, e),
            _ => panic!("field of scalar"),
        }
    }
    pub fn width(&self, i: TyId) -> u16 {
        match self.tys[i as usize] {
            Ty::Int(w) => w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn elem(&self, i: TyId) -> (u32, TyId) {
        match self.tys[i as usize] {
            Ty::Vec(n, e) => (n, e),
            _ => (0, i),
        }
    }

    pub fn parse_ty(&mut self, c: &mut Cur) -> TyId {
        let mut r = match c.peek() {
            b'[' => {
                c.need(b'[');
                let n: u64 = c.word().parse().unwrap();
                assert_eq!(c.word(), "x");
                let e = self.parse_ty(c);
                c.need(b']');
                self.ty(Ty::Arr(n, e))
            }
            b'<' => {
                c.need(b'<');
                if c.peek() == b'{' {
                    let f = self.parse_fields(c);
                    c.need(b'>');
                    self.ty(Ty::Struct(f, true))
                } else {
                    let n: u32 = c.word().parse().unwrap();
                    assert_eq!(c.word(), "x");
                    let e = self.parse_ty(c);
                    c.need(b'>');
                    self.ty(Ty::Vec(n, e))
                }
            }
            b'{' => {
                let f = self.parse_fields(c);
                self.ty(Ty::Struct(f, false))
            }
            b'%' => {
                c.p += 1;
                let n = c.name();
                *self.named.get(&n).unwrap_or_else(|| panic!("unknown type %{}", n))
            }
            _ => {
                let w = c.word();
                let x = match w {
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "ptr" => Ty::Ptr,
                    "metadata" | "label" | "token" | "half" | "fp128" | "x86_fp80" | "bfloat" => Ty::Other,
                    _ if w.starts_with('i') && w[1..].parse::<u16>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    // `bN` byte types of recent LLVM are plain integers here
                    _ if w.starts_with('b') && w[1..].parse::<u16>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => panic!("type '{}' at {}", w, c.rest()),
                };
                self.ty(x)
            }
        };
        if c.eatw("addrspace") {
            c.skip_paren();
        }
        // function type
        if c.peek() == b'(' && c.p < c.s.len() {
            let save = c.p;
            // only in call position: `ty (args) @f` -- caller handles; keep type
            let _ = save;
        }
        if false {
            r = 0;
        }
        r
    }
    fn parse_fields(&mut self, c: &mut Cur) -> Vec<TyId> {
        c.need(b'{');
        let mut f = Vec::new();
        if c.eat(b'}') {
            return f;
        }
        loop {
            f.push(self.parse_ty(c));
            if c.eat(b'}') {
                return f;
            }
            c.need(b',');
        }
    }

    pub fn zero(&mut self, ty: TyId) -> V {
        match self.tys[ty as usize].clone() {
            Ty::Int(w) if w > 64 => V::S(t().con128(0, w)),
            Ty::Arr(n, e) => {
                let z = self.zero(e);
                V::A(Rc::new(vec![z; n as usize]))
            }
            Ty::Vec(n, e) => {
                let z = self.zero(e);
                V::A(Rc::new(vec![z; n as usize]))
            }
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|x| self.zero(*x)).collect())),
            _ => V::I(0),
        }
    }

    pub fn sym_addr(&mut self, name: &str) -> u64 {
        if let Some(&i) = self.gmap.get(name) {
            return self.gaddr[i as usize];
        }
        if let Some(&i) = self.fmap.get(name) {
            if self.funcs[i as usize].weak_null {
                return 0;
            }
            return FBASE + i as u64 * 16;
        }
        panic!("unknown symbol @{}", name)
    }

    /// constant of the given type
    pub fn parse_const(&mut self, c: &mut Cur, ty: TyId) -> V {
        match c.peek() {
            b'@' => {
                c.p += 1;
                let n = c.name();
                V::I(self.sym_addr(&n))
            }
            b'[' | b'<' | b'{' => {
                let open = c.s[c.p];
                c.p += 1;
                let mut packed = false;
                if open == b'<' && c.peek() == b'{' {
                    c.p += 1;
                    packed = true;
                }
                let mut v = Vec::new();
                let close = match open {
                    b'[' => b']',
                    b'{' => b'}',
                    _ if packed => b'}',
                    _ => b'>',
                };
                if !c.eat(close) {
                    loop {
                        let et = self.parse_ty(c);
                        v.push(self.parse_const(c, et));
                        if c.eat(close) {
                            break;
                        }
                        c.need(b',');
                    }
                }
                if packed {
                    c.need(b'>');
                }
                V::A(Rc::new(v))
            }
            b'c' if c.p + 1 < c.s.len() && c.s[c.p + 1] == b'"' => {
                c.p += 2;
                let mut v = Vec::new();
                while c.s[c.p] != b'"' {
                    if c.s[c.p] == b'\\' {
                        let h = std::str::from_utf8(&c.s[c.p + 1..c.p + 3]).unwrap();
                        if h.starts_with('\\') {
                            v.push(V::I(b'\\' as u64));
                            c.p += 2;
                        } else {
                            v.push(V::I(u64::from_str_radix(h, 16).unwrap()));
                            c.p += 3;
                        }
                    } else {
                        v.push(V::I(c.s[c.p] as u64));
                        c.p += 1;
                    }
                }
                c.p += 1;
                V::A(Rc::new(v))
            }
            _ => {
                if c.peek() == b'+' {
                    c.p += 1;
                }
                let w = c.word();
                match w {
                    "true" => V::I(1),
                    "false" => V::I(0),
                    "null" => V::I(0),
                    "undef" | "poison" | "zeroinitializer" | "none" => self.zero(ty),
                    "splat" => {
                        c.need(b'(');
                        let et = self.parse_ty(c);
                        let e = self.parse_const(c, et);
                        c.need(b')');
                        let n = match self.tys[ty as usize] {
                            Ty::Vec(n, _) => n as usize,
                            Ty::Arr(n, _) => n as usize,
                            _ => panic!("splat"),
                        };
                        V::A(Rc::new(vec![e; n]))
                    }
                    "getelementptr" => {
                        while c.peek() != b'(' {
                            let w = c.word();
                            if w == "inrange" {
                                c.ws();
                                c.skip_paren();
                            } else if w.is_empty() {
                                panic!("gep const {}", c.rest());
                            }
                        }
                        c.need(b'(');
                        let bt = self.parse_ty(c);
                        c.need(b',');
                        let pt = self.parse_ty(c);
                        let base = self.parse_const(c, pt).int();
                        let mut off = 0i64;
                        let mut cur = bt;
                        let mut first = true;
                        while c.eat(b',') {
                            let it = self.parse_ty(c);
                            let k = crate::term::sx(self.parse_const(c, it).int(), self.width(it));
                            if first {
                                off += k * self.size_align(cur).0 as i64;
                                first = false;
                            } else {
                                let (o, n) = self.field_off(cur, k as u64);
                                off += o as i64;
                                cur = n;
                            }
                        }
                        c.need(b')');
                        V::I(base.wrapping_add(off as u64))
                    }
                    "ptrtoint" | "ptrtoaddr" | "inttoptr" | "trunc" | "bitcast" => {
                        c.need(b'(');
                        let et = self.parse_ty(c);
                        let v = self.parse_const(c, et);
                        assert_eq!(c.word(), "to");
                        let to = self.parse_ty(c);
                        c.need(b')');
                        match v {
                            V::I(x) => V::I(x & crate::term::mask(self.width(to))),
                            x => x,
                        }
                    }
                    "sub" | "add" | "xor" => {
                        while c.peek() != b'(' {
                            c.word();
                        }
                        c.need(b'(');
                        let t1 = self.parse_ty(c);
                        let a = self.parse_const(c, t1).int();
                        c.need(b',');
                        let t2 = self.parse_ty(c);
                        let b = self.parse_const(c, t2).int();
                        c.need(b')');
                        let r = match w {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            _ => a ^ b,
                        };
                        V::I(r & crate::term::mask(self.width(ty)))
                    }
                    _ => {
                        let tt = self.tys[ty as usize].clone();
                        match tt {
                            Ty::F32 | Ty::F64 => {
                                let bits = if let Some(h) = w.strip_prefix("f0x") {
                                    let b = u64::from_str_radix(h, 16).unwrap();
                                    return V::I(b);
                                } else if let Some(h) = w.strip_prefix("0x") {
                                    f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                                } else {
                                    // exponents such as 1.000000e+00: '+' is not a word character
                                    let mut s = w.to_string();
                                    if s.is_empty() && c.p < c.s.len() && c.s[c.p] == b'+' {
                                        c.p += 1;
                                        s = c.word().to_string();
                                    }
                                    if s.ends_with("nan") && c.p < c.s.len() && c.s[c.p] == b'(' {
                                        while c.s[c.p] != b')' {
                                            c.p += 1;
                                        }
                                        c.p += 1;
                                    }
                                    if s.ends_with('e') && c.p < c.s.len() && c.s[c.p] == b'+' {
                                        c.p += 1;
                                        s += c.word();
                                    }
                                    match s.as_str() {
                                        "inf" => f64::INFINITY,
                                        "-inf" => f64::NEG_INFINITY,
                                        "nan" | "qnan" | "snan" => f64::NAN,
                                        "-nan" | "-qnan" | "-snan" => -f64::NAN,
                                        _ => s.parse::<f64>().unwrap_or_else(|_| panic!("float '{}' {}", s, c.rest())),
                                    }
                                };
                                if tt == Ty::F32 {
                                    V::I((bits as f32).to_bits() as u64)
                                } else {
                                    V::I(bits.to_bits())
                                }
                            }
                            Ty::Int(wd) => {
                                if wd > 64 {
                                    let v: i128 = w.parse().map(|x: i128| x).unwrap_or_else(|_| w.parse::<u128>().unwrap_or_else(|_| panic!("int {}", w)) as i128);
                                    V::S(t().con128(v as u128, wd))
                                } else {
                                    let v: i128 = w.parse().unwrap_or_else(|_| panic!("int '{}' at {}", w, c.rest()));
                                    V::I(v as u64 & crate::term::mask(wd))
                                }
                            }
                            Ty::Ptr | Ty::Other => V::I(0),
                            _ => panic!("const '{}' at {}", w, c.rest()),
                        }
                    }
                }
            }
        }
    }

    pub fn load(text: String) -> Module {
        let mut lines = Vec::new();
        let mut b = 0usize;
        for (i, ch) in text.bytes().enumerate() {
            if ch == b'\n' {
                lines.push((b as u32, i as u32));
                b = i + 1;
            }
        }
        let mut m = Module {
            text,
            lines,
            tys: Vec::new(),
            tymap: HashMap::new(),
            layout: Vec::new(),
            named: HashMap::new(),
            funcs: Vec::new(),
            fmap: HashMap::new(),
            globals: Vec::new(),
            gmap: HashMap::new(),
            gaddr: Vec::new(),
        };
        let mut i = 0;
        let n = m.lines.len();
        let mut aliases: Vec<(String, String)> = Vec::new();
        while i < n {
            let (s, e) = m.lines[i];
            let l = m.text[s as usize..e as usize].to_string();
            if l.starts_with("define ") || l.starts_with("declare ") {
                let at = l.find('@').unwrap();
                let mut c = Cur::new(&l);
                c.p = at + 1;
                let name = c.name();
                let id = m.funcs.len() as u32;
                let mut f = Func { name: name.clone(), src: None, body: None, weak_null: false };
                if l.starts_with("define ") {
                    let st = i;
                    while &m.text[m.lines[i].0 as usize..m.lines[i].1 as usize] != "}" {
                        i += 1;
                    }
                    f.src = Some((st, i));
                } else {
                    f.weak_null = l.contains("extern_weak") && !crate::ext::known(&name);
                }
                m.funcs.push(f);
                m.fmap.insert(name, id);
            } else if l.starts_with('@') {
                let mut c = Cur::new(&l);
                c.p = 1;
                let name = c.name();
                c.need(b'=');
                let mut g = Global { name: name.clone(), ty: 0, init: None, align: 1, konst: false, tls: false, alias: false };
                let mut external = false;
                loop {
                    let w = c.peekw();
                    match w {
                        "external" | "extern_weak" => external = true,
                        "thread_local" => g.tls = true,
                        "global" => {
                            c.word();
                            break;
                        }
                        "constant" => {
                            g.konst = true;
                            c.word();
                            break;
                        }
                        "alias" => {
                            g.alias = true;
                            c.word();
                            break;
                        }
                        "" => panic!("global {}", l),
                        _ => {}
                    }
                    c.word();
                    if c.peek() == b'(' {
                        c.skip_paren();
                    }
                }
                g.ty = m.parse_ty(&mut c);
                if g.alias {
                    let at = l.rfind('@').unwrap();
                    let mut c2 = Cur::new(&l);
                    c2.p = at + 1;
                    let target = c2.name();
                    aliases.push((name, target));
                    i += 1;
                    continue;
                }
                if !external {
                    c.ws();
                    g.init = Some((s as usize + c.p, e as usize));
                }
                if let Some(p) = l.rfind(", align ") {
                    let tail = &l[p + 8..];
                    let num: String = tail.chars().take_while(|c| c.is_ascii_digit()).collect();
                    g.align = num.parse().unwrap_or(1);
                }
                let id = m.globals.len() as u32;
                m.gmap.insert(name, id);
                m.globals.push(g);
            } else if l.starts_with('%') {
                let mut c = Cur::new(&l);
                c.p = 1;
                let name = c.name();
                c.need(b'=');
                c.word();
                let x = if c.peekw() == "opaque" { m.ty(Ty::Other) } else { m.parse_ty(&mut c) };
                m.named.insert(name, x);
            }
            i += 1;
        }
        for (a, b) in aliases {
            if let Some(&f) = m.fmap.get(&b) {
                m.fmap.insert(a, f);
            } else if let Some(&g) = m.gmap.get(&b) {
                m.gmap.insert(a, g);
            }
        }
        m
    }

    pub fn init_value(&mut self, gi: usize) -> Option<V> {
        let g = &self.globals[gi];
        let (a, b) = g.init?;
        let ty = g.ty;
        let s = self.text[a..b].to_string();
        let mut c = Cur::new(&s);
        Some(self.parse_const(&mut c, ty))
    }

    pub fn body(&mut self, f: u32) -> Option<Rc<Body>> {
        if let Some(b) = &self.funcs[f as usize].body {
            return Some(b.clone());
        }
        let (s, e) = self.funcs[f as usize].src?;
        let b = Rc::new(self.parse_body(s, e));
        self.funcs[f as usize].body = Some(b.clone());
        Some(b)
    }

    fn parse_body(&mut self, s: usize, e: usize) -> Body {
        let text = std::mem::take(&mut self.text);
        let ls: Vec<&str> = (s..e).map(|i| &text[self.lines[i].0 as usize..self.lines[i].1 as usize]).collect();
        let r = self.parse_body1(&ls);
        self.text = text;
        r
    }

    fn parse_body1(&mut self, ls: &[&str]) -> Body {
        let mut fp = FnParser { regs: HashMap::new(), blocks: HashMap::new(), nregs: 0, nblocks: 0 };
        // parameters
        let l = ls[0];
        let at = l.find('@').unwrap();
        let mut c = Cur::new(l);
        c.p = at + 1;
        c.name();
        c.need(b'(');
        let mut params = Vec::new();
        let mut anon = 0u32;
        if !c.eat(b')') {
            loop {
                if c.peek() == b'.' {
                    c.p += 3;
                    c.need(b')');
                    break;
                }
                self.parse_ty(&mut c);
                // attributes
                loop {
                    let ch = c.peek();
                    if ch == b'%' {
                        c.p += 1;
                        let nm = c.name();
                        params.push(fp.reg(&nm));
                        break;
                    }
                    if ch == b',' || ch == b')' {
                        let nm = anon.to_string();
                        anon += 1;
                        params.push(fp.reg(&nm));
                        break;
                    }
                    c.word();
                    if c.peek() == b'(' {
                        c.skip_paren();
                    }
                }
                if c.eat(b')') {
                    break;
                }
                c.need(b',');
            }
        }
        let mut blocks: Vec<(u32, Block)> = Vec::new();
        // the entry block's implicit label
        let mut i = 1;
        let mut curb = Block::default();
        // explicit label on the first block?
        let first = ls.get(1).map_or(false, |x| !x.starts_with(' ') && x.contains(':'));
        let mut cur_id = if first { u32::MAX } else { fp.block(&format!("{}", params.len())) };
        let entry_name_implicit = !first;
        let mut order = Vec::new();
        if entry_name_implicit {
            order.push(cur_id);
        }
        let mut cost = 0;
        while i < ls.len() {
            let l = ls[i];
            i += 1;
            if l.is_empty() || l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let mut c = Cur::new(l);
                let nm = c.name();
                if cur_id != u32::MAX {
                    blocks.push((cur_id, std::mem::take(&mut curb)));
                }
                cur_id = fp.block(&nm);
                order.push(cur_id);
                continue;
            }
            let tl = l.trim_start();
            let mut owned;
            let mut line: &str = tl;
            if tl.starts_with("switch ") || tl.contains("invoke ") || tl.contains("landingpad ") {
                owned = tl.to_string();
                if tl.starts_with("switch ") {
                    while !owned.contains(']') {
                        owned.push(' ');
                        owned += ls[i].trim_start();
                        i += 1;
                    }
                } else {
                    while i < ls.len() && ls[i].starts_with("          ") {
                        owned.push(' ');
                        owned += ls[i].trim_start();
                        i += 1;
                    }
                }
                line = &owned;
            }
            cost += 1;
            let mut c = Cur::new(line);
            let mut dst = u32::MAX;
            if c.peek() == b'%' {
                c.p += 1;
                let nm = c.name();
                dst = fp.reg(&nm);
                c.need(b'=');
            }
            if c.peekw() == "phi" {
                c.word();
                while is_fast(c.peekw()) {
                    c.word();
                }
                let ty = self.parse_ty(&mut c);
                let mut inc = Vec::new();
                loop {
                    c.need(b'[');
                    let v = self.opd(&mut c, ty, &mut fp);
                    c.need(b',');
                    c.need(b'%');
                    let nm = c.name();
                    let b = fp.block(&nm);
                    c.need(b']');
                    inc.push((b, v));
                    if !c.eat(b',') {
                        break;
                    }
                    if c.peek() != b'[' {
                        break;
                    }
                }
                curb.phis.push(Phi { dst, inc });
                continue;
            }
            let inst = self.inst(&mut c, &mut fp);
            curb.code.push(Line { dst, i: inst });
        }
        if cur_id != u32::MAX {
            blocks.push((cur_id, curb));
        }
        // renumber: block ids are allotted on first mention
        let mut out: Vec<Block> = (0..fp.nblocks).map(|_| Block::default()).collect();
        for (id, b) in blocks {
            out[id as usize] = b;
        }
        // the entry must be block 0 of the returned vector
        let entry = order[0];
        if entry != 0 {
            let map = |x: u32| {
                if x == entry {
                    0
                } else if x == 0 {
                    entry
                } else {
                    x
                }
            };
            out.swap(0, entry as usize);
            for b in &mut out {
                for p in &mut b.phis {
                    for x in &mut p.inc {
                        x.0 = map(x.0);
                    }
                }
                for l in &mut b.code {
                    match &mut l.i {
                        Inst::Br { t } => *t = map(*t),
                        Inst::CondBr { t, f, .. } => {
                            *t = map(*t);
                            *f = map(*f)
                        }
                        Inst::Switch { def, cases, .. } => {
                            *def = map(*def);
                            for x in cases {
                                x.1 = map(x.1)
                            }
                        }
                        Inst::Call { next: Some(x), .. } => *x = map(*x),
                        _ => {}
                    }
                }
            }
        }
        Body { nregs: fp.nregs, params, blocks: out, cost }
    }

    fn opd(&mut self, c: &mut Cur, ty: TyId, fp: &mut FnParser) -> Opd {
        if c.peek() == b'%' {
            c.p += 1;
            let nm = c.name();
            return Opd::R(fp.reg(&nm));
        }
        // metadata operand
        if c.peek() == b'!' {
            c.p = c.s.len().min(c.p);
            while c.p < c.s.len() && c.s[c.p] != b',' && c.s[c.p] != b')' {
                c.p += 1;
            }
            return Opd::C(V::I(0));
        }
        Opd::C(self.parse_const(c, ty))
    }
    fn tyopd(&mut self, c: &mut Cur, fp: &mut FnParser) -> (TyId, Opd) {
        let ty = self.parse_ty(c);
        // parameter attributes
        loop {
            let ch = c.peek();
            if ch == b'%' || ch == b'@' || ch == b'!' || ch == b'<' || ch == b'[' || ch == b'{' || ch == b'+' {
                break;
            }
            if ch == b'c' && c.s.get(c.p + 1) == Some(&b'"') {
                break;
            }
            let w = c.peekw();
            if is_value_word(w) {
                break;
            }
            if w.is_empty() {
                if ch == b'"' {
                    // string attribute
                    c.p += 1;
                    while c.s[c.p] != b'"' {
                        c.p += 1;
                    }
                    c.p += 1;
                    continue;
                }
                panic!("operand at {}", c.rest());
            }
            c.word();
            if w == "align" {
                if c.peek() == b'(' {
                    c.skip_paren();
                } else {
                    c.word();
                }
            } else if c.peek() == b'(' {
                c.skip_paren();
            }
        }
        let o = self.opd(c, ty, fp);
        (ty, o)
    }
    fn label(&mut self, c: &mut Cur, fp: &mut FnParser) -> u32 {
        assert_eq!(c.word(), "label");
        c.need(b'%');
        let nm = c.name();
        fp.block(&nm)
    }

    fn inst(&mut self, c: &mut Cur, fp: &mut FnParser) -> Inst {
        let mut w = c.word();
        while matches!(w, "tail" | "musttail" | "notail") {
            w = c.word();
        }
        let bin = |k: BinK| Some(k);
        let bk = match w {
            "add" => bin(BinK::Add),
            "sub" => bin(BinK::Sub),
            "mul" => bin(BinK::Mul),
            "udiv" => bin(BinK::UDiv),
            "sdiv" => bin(BinK::SDiv),
            "urem" => bin(BinK::URem),
            "srem" => bin(BinK::SRem),
            "and" => bin(BinK::And),
            "or" => bin(BinK::Or),
            "xor" => bin(BinK::Xor),
            "shl" => bin(BinK::Shl),
            "lshr" => bin(BinK::LShr),
            "ashr" => bin(BinK::AShr),
            "fadd" => bin(BinK::FAdd),
            "fsub" => bin(BinK::FSub),
            "fmul" => bin(BinK::FMul),
            "fdiv" => bin(BinK::FDiv),
            "frem" => bin(BinK::FRem),
            _ => None,
        };
        if let Some(k) = bk {
            while is_fast(c.peekw()) {
                c.word();
            }
            let ty = self.parse_ty(c);
            let a = self.opd(c, ty, fp);
            c.need(b',');
            let b = self.opd(c, ty, fp);
            return Inst::Bin { k, ty, a, b };
        }
        let ck = match w {
            "trunc" => Some(CastK::Trunc),
            "zext" => Some(CastK::ZExt),
            "sext" => Some(CastK::SExt),
            "fptrunc" => Some(CastK::FpTrunc),
            "fpext" => Some(CastK::FpExt),
            "fptoui" => Some(CastK::FpToUi),
            "fptosi" => Some(CastK::FpToSi),
            "uitofp" => Some(CastK::UiToFp),
            "sitofp" => Some(CastK::SiToFp),
            "ptrtoint" | "ptrtoaddr" => Some(CastK::PtrToInt),
            "inttoptr" => Some(CastK::IntToPtr),
            "bitcast" | "addrspacecast" => Some(CastK::BitCast),
            _ => None,
        };
        if let Some(k) = ck {
            while is_fast(c.peekw()) {
                c.word();
            }
            let from = self.parse_ty(c);
            let a = self.opd(c, from, fp);
            assert_eq!(c.word(), "to");
            let to = self.parse_ty(c);
            return Inst::Cast { k, from, to, a };
        }
        match w {
            "fneg" => {
                while is_fast(c.peekw()) {
                    c.word();
                }
                let ty = self.parse_ty(c);
                let a = self.opd(c, ty, fp);
                Inst::FNeg { ty, a }
            }
            "icmp" => {
                let mut pw = c.word();
                if pw == "samesign" {
                    pw = c.word();
                }
                let p = match pw {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("icmp {}", x),
                };
                let ty = self.parse_ty(c);
                let a = self.opd(c, ty, fp);
                c.need(b',');
                let b = self.opd(c, ty, fp);
                Inst::ICmp { p, ty, a, b }
            }
            "fcmp" => {
                while is_fast(c.peekw()) {
                    c.word();
                }
                let p = match c.word() {
                    "false" => FPred::False,
                    "oeq" => FPred::Oeq,
                    "ogt" => FPred::Ogt,
                    "oge" => FPred::Oge,
                    "olt" => FPred::Olt,
                    "ole" => FPred::Ole,
                    "one" => FPred::One,
                    "ord" => FPred::Ord,
                    "ueq" => FPred::Ueq,
                    "ugt" => FPred::Ugt,
                    "uge" => FPred::Uge,
                    "ult" => FPred::Ult,
                    "ule" => FPred::Ule,
                    "une" => FPred::Une,
                    "uno" => FPred::Uno,
                    "true" => FPred::True,
                    x => panic!("fcmp {}", x),
                };
                let ty = self.parse_ty(c);
                let a = self.opd(c, ty, fp);
                c.need(b',');
                let b = self.opd(c, ty, fp);
                Inst::FCmp { p, ty, a, b }
            }
            "getelementptr" => {
                while is_fast(c.peekw()) || c.peekw() == "inrange" {
                    let w = c.word();
                    if w == "inrange" {
                        c.ws();
                        c.skip_paren();
                    }
                }
                let bt = self.parse_ty(c);
                c.need(b',');
                let (_, base) = self.tyopd(c, fp);
                let mut off = 0i64;
                let mut idx = Vec::new();
                let mut cur = bt;
                let mut first = true;
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    let it = self.parse_ty(c);
                    let o = self.opd(c, it, fp);
                    let iw = self.width(it);
                    if first {
                        let sz = self.size_align(cur).0 as i64;
                        match o {
                            Opd::C(V::I(k)) => off = off.wrapping_add(crate::term::sx(k, iw).wrapping_mul(sz)),
                            o => idx.push((o, iw, sz)),
                        }
                        first = false;
                    } else {
                        match o {
                            Opd::C(V::I(k)) => {
                                let (fo, n) = match self.tys[cur as usize] {
                                    Ty::Struct(..) => self.field_off(cur, k),
                                    _ => {
                                        let e = self.field_off(cur, 0).1;
                                        let sz = self.size_align(e).0 as i64;
                                        (crate::term::sx(k, iw).wrapping_mul(sz) as u64, e)
                                    }
                                };
                                off = off.wrapping_add(fo as i64);
                                cur = n;
                            }
                            o => {
                                let e = self.field_off(cur, 0).1;
                                let sz = self.size_align(e).0 as i64;
                                idx.push((o, iw, sz));
                                cur = e;
                            }
                        }
                    }
                }
                Inst::Gep { base, off, idx }
            }
            "load" => {
                let mut atomic = false;
                loop {
                    match c.peekw() {
                        "atomic" => {
                            atomic = true;
                            c.word();
                        }
                        "volatile" => {
                            c.word();
                        }
                        _ => break,
                    }
                }
                let ty = self.parse_ty(c);
                c.need(b',');
                let (_, p) = self.tyopd(c, fp);
                Inst::Load { ty, p, atomic }
            }
            "store" => {
                let mut atomic = false;
                loop {
                    match c.peekw() {
                        "atomic" => {
                            atomic = true;
                            c.word();
                        }
                        "volatile" => {
                            c.word();
                        }
                        _ => break,
                    }
                }
                let (ty, v) = self.tyopd(c, fp);
                c.need(b',');
                let (_, p) = self.tyopd(c, fp);
                Inst::Store { ty, v, p, atomic }
            }
            "alloca" => {
                if c.peekw() == "inalloca" {
                    c.word();
                }
                let ty = self.parse_ty(c);
                let (size, _) = self.size_align(ty);
                let mut n = None;
                let mut align = 16;
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    if c.peekw() == "align" {
                        c.word();
                        align = c.word().parse().unwrap();
                    } else {
                        let (nt, o) = self.tyopd(c, fp);
                        n = Some((o, self.width(nt)));
                    }
                }
                Inst::Alloca { size, n, align }
            }
            "call" | "invoke" => {
                // calling convention, return attributes
                loop {
                    let w = c.peekw();
                    if is_fast(w)
                        || matches!(w, "fastcc" | "coldcc" | "ccc" | "noundef" | "nonnull" | "noalias" | "zeroext" | "signext" | "inreg" | "nofree" | "captures")
                        || matches!(w, "range" | "dereferenceable" | "dereferenceable_or_null" | "nofpclass" | "allocptr")
                        || w == "align"
                        || w == "cc"
                        || w.ends_with("cc")
                    {
                        c.word();
                        if w == "align" || w == "cc" {
                            c.word();
                        } else if c.peek() == b'(' {
                            c.skip_paren();
                        }
                        continue;
                    }
                    break;
                }
                let ret = self.parse_ty(c);
                if c.peek() == b'(' {
                    c.skip_paren();
                }
                let f = if c.peek() == b'@' {
                    c.p += 1;
                    let nm = c.name();
                    if let Some(&i) = self.fmap.get(&nm) {
                        Callee::Fn(i)
                    } else {
                        panic!("call of unknown {}", nm)
                    }
                } else if c.peekw() == "asm" {
                    // inline assembly: an optimisation barrier in the standard library
                    while c.peek() != b'(' {
                        if c.peek() == b'"' {
                            c.p += 1;
                            while c.s[c.p] != b'"' {
                                c.p += 1;
                            }
                            c.p += 1;
                        } else {
                            if c.word().is_empty() {
                                c.p += 1;
                            }
                        }
                    }
                    let i = *self.fmap.entry("qsym.asm".to_string()).or_insert(u32::MAX);
                    let i = if i == u32::MAX {
                        let id = self.funcs.len() as u32;
                        self.funcs.push(Func { name: "qsym.asm".into(), src: None, body: None, weak_null: false });
                        self.fmap.insert("qsym.asm".into(), id);
                        id
                    } else {
                        i
                    };
                    Callee::Fn(i)
                } else {
                    let pt = self.ty(Ty::Ptr);
                    Callee::Ind(self.opd(c, pt, fp))
                };
                c.need(b'(');
                let mut args = Vec::new();
                let mut tys = Vec::new();
                if !c.eat(b')') {
                    loop {
                        let (ty, o) = self.tyopd(c, fp);
                        args.push(o);
                        tys.push(ty);
                        if c.eat(b')') {
                            break;
                        }
                        c.need(b',');
                    }
                }
                let mut next = None;
                if w == "invoke" {
                    // ... to label %x unwind label %y
                    let s = std::str::from_utf8(&c.s[c.p..]).unwrap();
                    let k = s.find(" to label %").unwrap();
                    c.p += k + 11;
                    let nm = c.name();
                    next = Some(fp.block(&nm));
                }
                Inst::Call { f, args, tys, ret, next }
            }
            "select" => {
                while is_fast(c.peekw()) {
                    c.word();
                }
                let (cty, cc) = self.tyopd(c, fp);
                c.need(b',');
                let (ty, a) = self.tyopd(c, fp);
                c.need(b',');
                let (_, b) = self.tyopd(c, fp);
                Inst::Select { cty, ty, c: cc, a, b }
            }
            "extractvalue" => {
                let (_, a) = self.tyopd(c, fp);
                Inst::ExtractValue { a, idx: self.idxs(c) }
            }
            "insertvalue" => {
                let (_, a) = self.tyopd(c, fp);
                c.need(b',');
                let (_, v) = self.tyopd(c, fp);
                Inst::InsertValue { a, v, idx: self.idxs(c) }
            }
            "extractelement" => {
                let (_, a) = self.tyopd(c, fp);
                c.need(b',');
                let (_, i) = self.tyopd(c, fp);
                Inst::ExtractElement { a, i }
            }
            "insertelement" => {
                let (_, a) = self.tyopd(c, fp);
                c.need(b',');
                let (_, v) = self.tyopd(c, fp);
                c.need(b',');
                let (_, i) = self.tyopd(c, fp);
                Inst::InsertElement { a, v, i }
            }
            "shufflevector" => {
                let (ty, a) = self.tyopd(c, fp);
                c.need(b',');
                let (_, b) = self.tyopd(c, fp);
                c.need(b',');
                let (_, m) = self.tyopd(c, fp);
                let m = match m {
                    Opd::C(V::A(v)) => v.iter().map(|x| crate::term::sx(x.int(), 32)).collect(),
                    _ => panic!("shuffle mask"),
                };
                Inst::Shuffle { n: self.elem(ty).0, a, b, m }
            }
            "freeze" => {
                let (_, a) = self.tyopd(c, fp);
                Inst::Copy { a }
            }
            "br" => {
                if c.peekw() == "label" {
                    Inst::Br { t: self.label(c, fp) }
                } else {
                    let (_, cc) = self.tyopd(c, fp);
                    c.need(b',');
                    let t = self.label(c, fp);
                    c.need(b',');
                    let f = self.label(c, fp);
                    Inst::CondBr { c: cc, t, f }
                }
            }
            "switch" => {
                let (ty, v) = self.tyopd(c, fp);
                c.need(b',');
                let def = self.label(c, fp);
                c.need(b'[');
                let mut cases = Vec::new();
                while !c.eat(b']') {
                    let ct = self.parse_ty(c);
                    let k = self.parse_const(c, ct).int();
                    c.need(b',');
                    cases.push((k, self.label(c, fp)));
                }
                Inst::Switch { w: self.width(ty), v, def, cases }
            }
            "ret" => {
                let ty = self.parse_ty(c);
                if self.tys[ty as usize] == Ty::Void {
                    Inst::Ret { v: None }
                } else {
                    let v = self.opd(c, ty, fp);
                    Inst::Ret { v: Some(v) }
                }
            }
            "unreachable" | "resume" | "landingpad" | "cleanupret" => Inst::Unreachable,
            "fence" => Inst::Nop,
            "atomicrmw" => {
                if c.peekw() == "volatile" {
                    c.word();
                }
                let k = match c.word() {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    "max" => 6,
                    "min" => 7,
                    "umax" => 8,
                    "umin" => 9,
                    "nand" => 10,
                    x => panic!("atomicrmw {}", x),
                };
                let (_, p) = self.tyopd(c, fp);
                c.need(b',');
                let (ty, v) = self.tyopd(c, fp);
                Inst::Rmw { k, w: self.width(ty), p, v }
            }
            "cmpxchg" => {
                while matches!(c.peekw(), "weak" | "volatile") {
                    c.word();
                }
                let (_, p) = self.tyopd(c, fp);
                c.need(b',');
                let (ty, cv) = self.tyopd(c, fp);
                c.need(b',');
                let (_, n) = self.tyopd(c, fp);
                Inst::CmpXchg { w: self.width(ty), p, c: cv, n }
            }
            _ => panic!("instruction '{}' {}", w, c.rest()),
        }
    }
    fn idxs(&mut self, c: &mut Cur) -> Vec<u32> {
        let mut v = Vec::new();
        while c.eat(b',') {
            if c.peek() == b'!' || c.end() {
                break;
            }
            v.push(c.word().parse().unwrap());
        }
        v
    }
}

fn is_fast(w: &str) -> bool {
    matches!(
        w,
        "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "samesign"
    )
}

struct FnParser {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nregs: u32,
    nblocks: u32,
}
impl FnParser {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.blocks.get(n) {
            return r;
        }
        let r = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n.to_string(), r);
        r
    }
}
