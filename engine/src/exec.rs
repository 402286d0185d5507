//! The symbolic machine: executes LLVM IR over terms, forks at undecided
//! branches, asks the solver which sides are feasible.
use crate::ll::*;
use crate::mem::*;
use crate::term::*;
use crate::val::*;
use crate::z3::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub body: &'static Body,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u64>,
    pub dst: u32,
}

pub struct MRef {
    pub m: Model,
    pub memo: RefCell<HashMap<E, u128>>,
}
impl MRef {
    pub fn new(m: Model) -> Rc<MRef> {
        Rc::new(MRef { m, memo: RefCell::new(HashMap::new()) })
    }
    pub fn eval(&self, e: E) -> u128 {
        t().eval(e, &self.m, &mut self.memo.borrow_mut())
    }
}

#[derive(Clone)]
pub struct Fd {
    pub file: String,
    pub pos: V,
    pub write: bool,
    pub append: bool,
    pub desc: u32,
}

#[derive(Clone, Default)]
pub struct Thread {
    pub frames: Vec<Rc<Frame>>,
    pub top: Option<Rc<Frame>>,
    pub done: bool,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub fr: Frame,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub known: HashMap<E, bool>,
    pub eqs: HashMap<E, E>,
    pub submemo: HashMap<E, E>,
    pub model: Rc<MRef>,
    pub model_ok: bool,
    pub fs: BTreeMap<String, Rc<Obj>>,
    pub fds: BTreeMap<i32, Fd>,
    pub offs: BTreeMap<u32, V>, // shared offsets of open file descriptions
    pub ndesc: u32,
    pub count: HashMap<String, u32>,
    pub reqs: Vec<u32>,
    pub obs: Vec<(String, V, u16)>,
    pub toks: Vec<(E, u8)>,
    pub steps: u64,
    pub checks: u64,
    pub forks: u32,
    pub out: Vec<V>,
    pub threads: Vec<Thread>,
    pub thr: usize,
    pub preempt: u32,
    pub par: Vec<(u64, u64)>,
    pub expect_panic: bool,
    pub yielded: bool,
    pub dice: u64,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Assume,
    Infeasible,
    Violated,
    Panic(String),
    Ub(String),
    Limit(String),
    Unsupported(String),
}

pub enum Out {
    Void,
    Val(V),
    Pushed,
}
pub type R = Result<Out, Stop>;

pub struct Ctx<'a> {
    pub tys: &'a [TyId],
    pub ret: TyId,
    pub name: &'a str,
}
pub type Handler = fn(&mut Ex, &mut State, &[V], &Ctx) -> R;

#[derive(Clone)]
pub struct Violation {
    pub label: String,
    pub detail: String,
    pub values: Vec<(String, u64, u16)>,
    pub trace: Vec<String>,
    pub obs: Vec<(String, u64)>,
    pub kind: String,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub done: u64,
    pub assume: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub insts: u64,
    pub checks: u64,
    pub checks_trivial: u64,
    pub checks_solved: u64,
    pub checks_unknown: u64,
    pub branch_queries: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub incomplete: BTreeMap<String, u64>,
    pub reach: BTreeMap<String, u64>,
    pub check_labels: BTreeMap<String, (u64, u64)>,
    pub maxdepth: usize,
}

pub struct Opts {
    pub max_steps: u64,
    pub max_paths: u64,
    pub max_secs: f64,
    pub max_viol: usize,
    pub seed: u64,
    pub trace: bool,
    pub samples: usize,
    pub max_depth: usize,
    pub profile: bool,
    pub shards: u64,
    pub shard: u64,
}

pub struct Ex {
    pub m: Module,
    pub z: Z3,
    pub work: Vec<Box<State>>,
    pub st: Stats,
    pub o: Opts,
    pub handlers: Vec<Option<Option<Handler>>>,
    pub viol: Vec<Violation>,
    pub viol_labels: HashMap<String, u32>,
    pub samples: Vec<Violation>,
    pub cache: HashMap<Vec<E>, Option<Option<Model>>>,
    pub recent: Vec<Rc<MRef>>,
    pub t0: Instant,
    pub bodies: Vec<Option<&'static Body>>,
    pub called: Vec<u64>,
    pub prof: HashMap<u32, u64>,
    pub rng: u64,
    pub errno: u64,
    pub forksites: HashMap<(u32, u32, u32), u64>,
}

pub fn unsup<T>(s: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Unsupported(s.into()))
}

impl Ex {
    pub fn rnd(&mut self) -> u64 {
        let mut x = self.rng;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        self.rng = x;
        x.wrapping_mul(0x2545F4914F6CDD1D)
    }

    pub fn get_body(&mut self, f: u32) -> Option<&'static Body> {
        if let Some(b) = self.bodies.get(f as usize).copied().flatten() {
            return Some(b);
        }
        let b = self.m.body(f)?;
        let p: &'static Body = unsafe { &*Rc::as_ptr(&b) };
        std::mem::forget(b);
        if self.bodies.len() < self.m.funcs.len() {
            let n = self.m.funcs.len();
            self.bodies.resize(n, None);
            self.called.resize(n, 0);
        }
        self.bodies[f as usize] = Some(p);
        Some(p)
    }

    // ------------------------------------------------------------ decisions
    pub fn simp(&mut self, st: &mut State, e: E) -> E {
        if st.eqs.is_empty() || t().cval(e).is_some() {
            return e;
        }
        let State { eqs, submemo, .. } = st;
        t().subst(e, eqs, submemo)
    }
    pub fn simpv(&mut self, st: &mut State, v: &V) -> V {
        match v {
            V::S(e) => vt(self.simp(st, *e)),
            v => v.clone(),
        }
    }
    fn known(&self, st: &State, c: E) -> Option<bool> {
        if let Some(v) = t().cval(c) {
            return Some(v == 1);
        }
        if let Some(&b) = st.known.get(&c) {
            return Some(b);
        }
        let n = t().not(c);
        if let Some(&b) = st.known.get(&n) {
            return Some(!b);
        }
        None
    }
    /// record a fact that holds on this path
    pub fn learn(&mut self, st: &mut State, c: E, val: bool, constrain: bool) {
        let tm = t();
        if tm.cval(c).is_some() {
            return;
        }
        if let Some(x) = tm.is_not(c) {
            return self.learn(st, x, !val, constrain);
        }
        let n = tm.n(c);
        if (n.op == Op::And && val) || (n.op == Op::Or && !val) {
            self.learn(st, n.a, val, constrain);
            self.learn(st, n.b, val, constrain);
            st.known.insert(c, val);
            return;
        }
        st.known.insert(c, val);
        if constrain {
            let f = if val { c } else { tm.not(c) };
            if !st.pc.contains(&f) {
                st.pc.push(f);
            }
        }
        if n.op == Op::Eq && val {
            let (k, x) = if tm.cval(n.a).is_some() { (n.a, n.b) } else { (n.b, n.a) };
            if tm.cval(k).is_some() && tm.cval(x).is_none() {
                st.eqs.insert(x, k);
                st.submemo.clear();
            }
        }
    }
    /// constraints of the path that share symbols (transitively) with c
    fn slice(&self, st: &State, c: E) -> Vec<E> {
        let tm = t();
        let mut syms: std::collections::HashSet<u32> = tm.symset(c).iter().copied().collect();
        let mut inn = vec![false; st.pc.len()];
        let mut out = vec![c];
        loop {
            let mut more = false;
            for (i, &p) in st.pc.iter().enumerate() {
                if inn[i] {
                    continue;
                }
                let ss = tm.symset(p);
                if ss.iter().any(|s| syms.contains(s)) {
                    inn[i] = true;
                    more = true;
                    syms.extend(ss.iter().copied());
                    out.push(p);
                }
            }
            if !more {
                break;
            }
        }
        out
    }
    /// is pc /\ c satisfiable?  Some(model) / None, or Err on unknown
    pub fn feasible(&mut self, st: &mut State, c: E) -> Result<Option<Rc<MRef>>, ()> {
        if let Some(v) = t().cval(c) {
            if v == 0 {
                return Ok(None);
            }
        }
        let mut cons = self.slice(st, c);
        // models of other paths often do
        if st.model_ok {
            for i in 0..self.recent.len() {
                let r = self.recent[i].clone();
                if cons.iter().all(|&e| r.eval(e) == 1) {
                    self.st.model_hits += 1;
                    let mut m = st.model.m.clone();
                    let mut syms: Vec<u32> = Vec::new();
                    for &e in &cons {
                        syms.extend_from_slice(&t().symset(e));
                    }
                    for s in syms {
                        m.v.insert(s, r.m.get(s));
                    }
                    return Ok(Some(MRef::new(m)));
                }
            }
        }
        cons.sort_unstable();
        cons.dedup();
        let res = match self.cache.get(&cons) {
            Some(r) => {
                self.st.cache_hits += 1;
                r.clone()
            }
            None => {
                let r = match self.z.check(&cons) {
                    Res::Sat(m) => Some(Some(m)),
                    Res::Unsat => Some(None),
                    Res::Unknown => None,
                };
                self.cache.insert(cons.clone(), r.clone());
                r
            }
        };
        match res {
            Some(Some(m)) => {
                let mut b = st.model.m.clone();
                for (k, v) in m.v {
                    b.v.insert(k, v);
                }
                let r = MRef::new(b);
                self.recent.insert(0, r.clone());
                self.recent.truncate(6);
                Ok(Some(r))
            }
            Some(None) => Ok(None),
            None => Err(()),
        }
    }
    pub fn decide(&mut self, st: &mut State, c: E) -> Result<bool, Stop> {
        if let Some(b) = self.known(st, c) {
            return Ok(b);
        }
        let c2 = self.simp(st, c);
        if let Some(b) = self.known(st, c2) {
            st.known.insert(c, b);
            return Ok(b);
        }
        let c0 = c;
        let c = c2;
        self.st.branch_queries += 1;
        let nc = t().not(c);
        if st.model_ok {
            let mv = st.model.eval(c) == 1;
            let other = if mv { nc } else { c };
            match self.feasible(st, other) {
                Ok(None) => {
                    self.learn(st, c, mv, false);
                }
                Ok(Some(m)) => {
                    let mut alt = Box::new(st.clone());
                    alt.submemo.clear();
                    alt.model = m;
                    self.learn(&mut alt, c, !mv, true);
                    self.fork(st, alt);
                    self.learn(st, c, mv, true);
                }
                Err(()) => {
                    let mut alt = Box::new(st.clone());
                    alt.submemo.clear();
                    alt.model_ok = false;
                    self.learn(&mut alt, c, !mv, true);
                    self.fork(st, alt);
                    self.learn(st, c, mv, true);
                }
            }
            st.known.insert(c0, mv);
            Ok(mv)
        } else {
            let a = self.feasible(st, c);
            let b = self.feasible(st, nc);
            let (va, vb) = (!matches!(a, Ok(None)), !matches!(b, Ok(None)));
            if !va && !vb {
                return Err(Stop::Infeasible);
            }
            let take = va;
            if va && vb {
                let mut alt = Box::new(st.clone());
                alt.submemo.clear();
                self.learn(&mut alt, c, false, true);
                self.fork(st, alt);
            }
            self.learn(st, c, take, true);
            st.known.insert(c0, take);
            Ok(take)
        }
    }
    fn fork(&mut self, st: &mut State, mut alt: Box<State>) {
        self.st.forks += 1;
        st.forks += 1;
        alt.forks += 1;
        if self.o.profile {
            *self.forksites.entry((st.fr.f, st.fr.blk, st.fr.ip)).or_insert(0) += 1;
        }
        self.work.push(alt);
    }
    /// a concrete value for v (forking over all the others)
    pub fn conc(&mut self, st: &mut State, v: &V, w: u16) -> Result<u64, Stop> {
        match v {
            V::I(x) => Ok(*x),
            V::S(e) => {
                let e = self.simp(st, *e);
                if let Some(c) = t().cval(e) {
                    return Ok(c);
                }
                // prefer values already chosen by the model
                let x = st.model.eval(e) as u64;
                let k = t().con(x, w);
                let c = t().eq(e, k);
                if self.decide(st, c)? {
                    return Ok(x);
                }
                // only reachable when the model is not trusted: retry
                Err(Stop::Unsupported("concretisation without a model".into()))
            }
            _ => unsup("aggregate concretised"),
        }
    }

    // ------------------------------------------------------------- outcomes
    pub fn values(&self, st: &State, m: &MRef) -> Vec<(String, u64, u16)> {
        st.reqs
            .iter()
            .map(|&s| {
                let si = &t().syms[s as usize];
                (si.name.clone(), m.m.get(s), si.w)
            })
            .collect()
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        let mut v = vec![self.m.funcs[st.fr.f as usize].name.clone()];
        for f in st.frames.iter().rev().take(40) {
            v.push(self.m.funcs[f.f as usize].name.clone());
        }
        v
    }
    pub fn record(&mut self, st: &State, m: &MRef, kind: &str, label: &str, detail: String) {
        let n = self.viol_labels.entry(format!("{}:{}", kind, label)).or_insert(0);
        *n += 1;
        if *n > 2 {
            return;
        }
        let obs = st.obs.iter().map(|(l, v, w)| (l.clone(), m.eval(v.e(*w)) as u64)).collect();
        let v = Violation { label: label.into(), detail, values: self.values(st, m), trace: self.backtrace(st), obs, kind: kind.into() };
        self.viol.push(v);
    }
    pub fn check(&mut self, st: &mut State, c: &V, label: &str) -> Result<(), Stop> {
        st.checks += 1;
        self.st.checks += 1;
        let ent = self.st.check_labels.entry(label.to_string()).or_insert((0, 0));
        ent.0 += 1;
        let c = match c {
            V::I(1) => {
                self.st.checks_trivial += 1;
                return Ok(());
            }
            V::I(_) => t().fls(),
            V::S(e) => *e,
            _ => return unsup("check"),
        };
        let c = self.simp(st, c);
        if let Some(true) = self.known(st, c) {
            self.st.checks_trivial += 1;
            return Ok(());
        }
        let nc = t().not(c);
        self.st.checks_solved += 1;
        self.st.check_labels.get_mut(label).unwrap().1 += 1;
        if st.model_ok && st.model.eval(nc) == 1 {
            let m = st.model.clone();
            self.record(st, &m, "check", label, String::new());
            return Err(Stop::Violated);
        }
        self.z.quick = false;
        let r = self.feasible(st, nc);
        self.z.quick = true;
        match r {
            Ok(None) => {
                self.learn(st, c, true, false);
                Ok(())
            }
            Ok(Some(m)) => {
                if !st.model_ok {
                    // the whole path has to be satisfiable
                    let mut all = st.pc.clone();
                    all.push(nc);
                    match self.z.check(&all) {
                        Res::Sat(mm) => {
                            let m = MRef::new(mm);
                            self.record(st, &m, "check", label, String::new());
                            return Err(Stop::Violated);
                        }
                        Res::Unsat => return Ok(()),
                        Res::Unknown => {
                            self.st.checks_unknown += 1;
                            return Ok(());
                        }
                    }
                }
                self.record(st, &m, "check", label, String::new());
                Err(Stop::Violated)
            }
            Err(()) => {
                self.st.checks_unknown += 1;
                *self.st.incomplete.entry(format!("solver gave no answer on check {}", label)).or_insert(0) += 1;
                Ok(())
            }
        }
    }

    // ------------------------------------------------------------ execution
    pub fn run(&mut self, entry: u32) {
        let st = self.initial(entry);
        self.work.push(Box::new(st));
        while let Some(mut st) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.o.max_secs || self.st.paths >= self.o.max_paths {
                *self.st.incomplete.entry("time or path limit".into()).or_insert(0) += 1 + self.work.len() as u64;
                break;
            }
            if self.viol.len() >= self.o.max_viol {
                break;
            }
            let r = loop {
                match self.step(&mut st) {
                    Ok(()) => {}
                    Err(e) => break e,
                }
            };
            self.st.insts += st.steps;
            self.finish(*st, r);
        }
    }
    fn finish(&mut self, st: State, r: Stop) {
        self.st.paths += 1;
        match r {
            Stop::Done => {
                self.st.done += 1;
                // reservoir of passing paths for native replay
                let k = self.o.samples;
                let n = self.st.done;
                let slot = if (self.samples.len() as usize) < k {
                    self.samples.len()
                } else {
                    (self.rnd() % n) as usize
                };
                if slot < k && st.model_ok {
                    let m = st.model.clone();
                    let obs = st.obs.iter().map(|(l, v, w)| (l.clone(), m.eval(v.e(*w)) as u64)).collect();
                    let v = Violation { label: "pass".into(), detail: String::new(), values: self.values(&st, &m), trace: vec![], obs, kind: "pass".into() };
                    if slot < self.samples.len() {
                        self.samples[slot] = v;
                    } else {
                        self.samples.push(v);
                    }
                }
            }
            Stop::Assume => self.st.assume += 1,
            Stop::Infeasible => self.st.infeasible += 1,
            Stop::Violated => {}
            Stop::Panic(s) => {
                if !st.model_ok {
                    let r = self.z.check(&st.pc);
                    match r {
                        Res::Sat(m) => {
                            let m = MRef::new(m);
                            self.record(&st, &m, "panic", &s, s.clone());
                        }
                        Res::Unsat => {}
                        Res::Unknown => *self.st.incomplete.entry("panic path not decided".into()).or_insert(0) += 1,
                    }
                    return;
                }
                let m = st.model.clone();
                self.record(&st, &m, "panic", &s, s.clone());
            }
            Stop::Ub(s) => {
                let m = st.model.clone();
                self.record(&st, &m, "ub", &s, s.clone());
            }
            Stop::Limit(s) => {
                let m = st.model.clone();
                self.record(&st, &m, "limit", &s, s.clone());
            }
            Stop::Unsupported(s) => {
                *self.st.incomplete.entry(format!("unsupported: {}", s)).or_insert(0) += 1;
                if self.o.trace {
                    eprintln!("unsupported {} at {:#?}", s, self.backtrace(&st));
                }
            }
        }
    }
    fn initial(&mut self, entry: u32) -> State {
        let mut mem = Mem::default();
        mem.alloc(Obj::new(0, Kind::Const)); // id 0: null
        // globals
        let n = self.m.globals.len();
        let mut addrs = Vec::with_capacity(n);
        for i in 0..n {
            let ty = self.m.globals[i].ty;
            let sz = self.m.size_align(ty).0;
            addrs.push(mem.alloc(Obj::new(sz, Kind::Global)));
        }
        self.m.gaddr = addrs;
        for i in 0..n {
            if let Some(v) = self.m.init_value(i) {
                let ty = self.m.globals[i].ty;
                let a = self.m.gaddr[i];
                let ok = store_ty(&mut self.m, &mut mem, a, ty, &v);
                assert!(ok);
            }
            if self.m.globals[i].konst {
                mem.get_mut(self.m.gaddr[i] >> OBJ_SHIFT).kind = Kind::Const;
            }
        }
        self.errno = mem.alloc(Obj::new(8, Kind::Global));
        let body = self.get_body(entry).expect("no body for the entry");
        let fr = Frame { f: entry, body, blk: 0, ip: 0, regs: vec![V::I(0); body.nregs as usize], allocas: vec![], dst: u32::MAX };
        State {
            frames: vec![],
            fr,
            mem,
            pc: vec![],
            known: HashMap::new(),
            eqs: HashMap::new(),
            submemo: HashMap::new(),
            model: MRef::new(Model::default()),
            model_ok: true,
            fs: BTreeMap::new(),
            fds: BTreeMap::new(),
            offs: BTreeMap::new(),
            ndesc: 0,
            count: HashMap::new(),
            reqs: vec![],
            obs: vec![],
            toks: vec![],
            steps: 0,
            checks: 0,
            forks: 0,
            out: vec![],
            threads: vec![],
            thr: 0,
            preempt: 0,
            par: vec![],
            expect_panic: false,
            yielded: false,
            dice: 0,
        }
    }

    #[inline]
    pub fn val(&self, st: &State, o: &Opd) -> V {
        match o {
            Opd::R(r) => st.fr.regs[*r as usize].clone(),
            Opd::C(v) => v.clone(),
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let body = st.fr.body;
        let from = st.fr.blk;
        let b = &body.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let p = &b.phis[0];
                let v = self.phi(st, p, from);
                st.fr.regs[p.dst as usize] = v;
            } else {
                let vs: Vec<V> = b.phis.iter().map(|p| self.phi(st, p, from)).collect();
                for (p, v) in b.phis.iter().zip(vs) {
                    st.fr.regs[p.dst as usize] = v;
                }
            }
        }
        st.fr.blk = to;
        st.fr.ip = 0;
    }
    #[inline]
    fn phi(&self, st: &State, p: &Phi, from: u32) -> V {
        for (b, o) in &p.inc {
            if *b == from {
                return self.val(st, o);
            }
        }
        panic!("phi without a matching predecessor");
    }
    pub fn push_frame(&mut self, st: &mut State, f: u32, args: &[V], dst: u32) -> Result<(), Stop> {
        let body = match self.get_body(f) {
            Some(b) => b,
            None => return unsup(format!("call of {}", self.m.funcs[f as usize].name)),
        };
        self.called[f as usize] += 1;
        let mut regs = vec![V::I(0); body.nregs as usize];
        for (p, a) in body.params.iter().zip(args) {
            regs[*p as usize] = a.clone();
        }
        if st.frames.len() > self.o.max_depth {
            return Err(Stop::Limit("recursion depth".into()));
        }
        let nf = Frame { f, body, blk: 0, ip: 0, regs, allocas: vec![], dst };
        let old = std::mem::replace(&mut st.fr, nf);
        st.frames.push(Rc::new(old));
        self.st.maxdepth = self.st.maxdepth.max(st.frames.len());
        Ok(())
    }
    fn ret(&mut self, st: &mut State, v: Option<V>) -> Result<(), Stop> {
        for a in std::mem::take(&mut st.fr.allocas) {
            st.mem.free(a);
        }
        let dst = st.fr.dst;
        match st.frames.pop() {
            Some(f) => {
                st.fr = match Rc::try_unwrap(f) {
                    Ok(f) => f,
                    Err(f) => (*f).clone(),
                };
                if dst != u32::MAX {
                    if let Some(v) = v {
                        st.fr.regs[dst as usize] = v;
                    }
                }
                Ok(())
            }
            None => crate::ext::thread_exit(self, st),
        }
    }

    /// access through an address that may be symbolic: list of (condition, address)
    pub fn cands(&mut self, st: &mut State, e: E, n: u64) -> Option<Vec<(E, u64)>> {
        let tm = t();
        let nd = tm.n(e);
        let mut out = Vec::new();
        if nd.op == Op::Ite {
            let mut stack = vec![(e, tm.tru())];
            while let Some((x, c)) = stack.pop() {
                let k = tm.n(x);
                if let Some(v) = tm.cval(x) {
                    out.push((c, v));
                } else if k.op == Op::Ite {
                    let nc = tm.not(k.a);
                    let ca = tm.and(c, k.a);
                    let cb = tm.and(c, nc);
                    stack.push((k.b, ca));
                    stack.push((k.c, cb));
                } else {
                    return None;
                }
                if out.len() + stack.len() > 40 {
                    return None;
                }
            }
            out.retain(|(c, _)| tm.cval(*c) != Some(0));
        } else {
            let (base, x) = if nd.op == Op::Add {
                match (tm.cval(nd.a), tm.cval(nd.b)) {
                    (_, Some(k)) => (k, nd.a),
                    (Some(k), _) => (k, nd.b),
                    _ => return None,
                }
            } else {
                (0, e)
            };
            let xn = tm.n(x);
            let (coef, atom) = if xn.op == Op::Mul {
                match (tm.cval(xn.a), tm.cval(xn.b)) {
                    (_, Some(k)) => (k, xn.a),
                    (Some(k), _) => (k, xn.b),
                    _ => (1, x),
                }
            } else {
                (1, x)
            };
            let i = tm.inf(atom);
            let w = tm.w(atom);
            let (lo, cnt) = if i.umax - i.umin <= 300 {
                (i.umin, i.umax - i.umin)
            } else if i.smax.wrapping_sub(i.smin) as u64 <= 300 && i.smax >= i.smin {
                (i.smin as u64, i.smax.wrapping_sub(i.smin) as u64)
            } else {
                return self.cands_sym(st, e, n);
            };
            for d in 0..=cnt {
                let v = lo.wrapping_add(d) & mask(w);
                let k = tm.con(v, w);
                let c = tm.eq(atom, k);
                let c = self.simp(st, c);
                if tm.cval(c) == Some(0) || self.known(st, c) == Some(false) {
                    continue;
                }
                out.push((c, base.wrapping_add(coef.wrapping_mul(v))));
            }
        }
        if out.is_empty() {
            return None;
        }
        // all targets must be readable
        if out.iter().any(|(_, a)| st.mem.locate(*a, n).is_none()) {
            return None;
        }
        Some(out)
    }

    /// an address that depends on a single symbol with few values
    fn cands_sym(&mut self, st: &mut State, e: E, n: u64) -> Option<Vec<(E, u64)>> {
        let tm = t();
        let ss = tm.symset(e);
        if ss.len() != 1 {
            return None;
        }
        let sy = ss[0];
        let i = &tm.syms[sy as usize];
        if i.float || i.signed || i.hi.wrapping_sub(i.lo) > 300 {
            return None;
        }
        let (lo, hi, w, se) = (i.lo, i.hi, i.w, i.e);
        let mut out = Vec::new();
        for v in lo..=hi {
            let k = tm.con(v, w);
            let c = tm.eq(se, k);
            let c = self.simp(st, c);
            if tm.cval(c) == Some(0) || self.known(st, c) == Some(false) {
                continue;
            }
            let mut m = Model { v: Default::default() };
            m.v.insert(sy, v);
            let a = tm.eval(e, &m, &mut Default::default()) as u64;
            if st.mem.locate(a, n).is_none() {
                return None;
            }
            out.push((c, a));
        }
        if out.is_empty() {
            return None;
        }
        Some(out)
    }

    fn load(&mut self, st: &mut State, ty: TyId, p: &V) -> Result<V, Stop> {
        match p {
            V::I(a) => match load_ty(&mut self.m, &st.mem, *a, ty) {
                Some(v) => Ok(v),
                None => Err(Stop::Ub(format!("invalid load at {:#x}", a))),
            },
            V::S(e) => {
                let e = self.simp(st, *e);
                if let Some(a) = t().cval(e) {
                    return self.load(st, ty, &V::I(a));
                }
                let n = self.m.size_align(ty).0;
                if self.m.width(ty) > 0 {
                    let stored = (self.m.width(ty) as u64 + 7) / 8;
                    if let Some(c) = self.cands(st, e, stored) {
                        let w = self.m.width(ty);
                        let mut acc = NONE;
                        for (cond, a) in c.iter().rev() {
                            let v = load_ty(&mut self.m, &st.mem, *a, ty).unwrap().e(w);
                            acc = if acc == NONE { v } else { t().ite(*cond, v, acc) };
                        }
                        return Ok(vt(acc));
                    }
                }
                if self.o.trace {
                    eprintln!("load at a symbolic address: {} ({} bytes)", t().show(e, 8), n);
                }
                let a = self.conc(st, &V::S(e), 64)?;
                self.load(st, ty, &V::I(a))
            }
            _ => unsup("load through an aggregate"),
        }
    }

    pub fn step(&mut self, st: &mut State) -> Result<(), Stop> {
        let body = st.fr.body;
        let line = &body.blocks[st.fr.blk as usize].code[st.fr.ip as usize];
        st.steps += 1;
        if st.steps > self.o.max_steps {
            return Err(Stop::Limit("step limit".into()));
        }
        if st.steps & 0xffff == 0 && self.t0.elapsed().as_secs_f64() > self.o.max_secs {
            return Err(Stop::Unsupported("time limit".into()));
        }
        let dst = line.dst;
        let v = match &line.i {
            Inst::Bin { k, ty, a, b } => {
                let a = self.val(st, a);
                let b = self.val(st, b);
                let (_, et) = self.m.elem(*ty);
                let w = self.m.width(et);
                match (&a, &b) {
                    (V::A(x), V::A(y)) => {
                        let mut r = Vec::with_capacity(x.len());
                        for i in 0..x.len() {
                            r.push(binop(*k, w, &x[i], &y[i])?);
                        }
                        V::A(Rc::new(r))
                    }
                    _ => binop(*k, w, &a, &b)?,
                }
            }
            Inst::FNeg { ty, a } => {
                let a = self.val(st, a);
                let (_, et) = self.m.elem(*ty);
                let w = self.m.width(et);
                lanes1(&a, &mut |x| match x {
                    V::I(v) => V::I(v ^ (1u64 << (w - 1))),
                    x => vt(t().fneg(x.e(w))),
                })
            }
            Inst::ICmp { p, ty, a, b } => {
                let a = self.val(st, a);
                let b = self.val(st, b);
                let (_, et) = self.m.elem(*ty);
                let w = self.m.width(et);
                lanes2(&a, &b, &mut |x, y| icmp(*p, w, x, y))
            }
            Inst::FCmp { p, ty, a, b } => {
                let a = self.val(st, a);
                let b = self.val(st, b);
                let (_, et) = self.m.elem(*ty);
                let w = self.m.width(et);
                lanes2(&a, &b, &mut |x, y| fcmp(*p, w, x, y))
            }
            Inst::Cast { k, from, to, a } => {
                let a = self.val(st, a);
                self.cast(*k, *from, *to, &a)?
            }
            Inst::Gep { base, off, idx } => {
                let b = self.val(st, base);
                if let V::A(_) = b {
                    return unsup("vector gep");
                }
                let mut conc = match &b {
                    V::I(x) => Some(x.wrapping_add(*off as u64)),
                    _ => None,
                };
                let mut sum = NONE;
                for (o, w, s) in idx {
                    let i = self.val(st, o);
                    match (&i, conc) {
                        (V::I(x), Some(c)) if sum == NONE => conc = Some(c.wrapping_add((sx(*x, *w)).wrapping_mul(*s) as u64)),
                        _ => {
                            if sum == NONE {
                                sum = match conc {
                                    Some(c) => t().con(c, 64),
                                    None => {
                                        let k = t().con(*off as u64, 64);
                                        let bb = b.e(64);
                                        t().add(bb, k)
                                    }
                                };
                            }
                            let mut x = i.e(*w);
                            if *w < 64 {
                                x = t().sext(x, 64);
                            }
                            let k = t().con(*s as u64, 64);
                            let x = t().mul(x, k);
                            sum = t().add(sum, x);
                        }
                    }
                }
                if sum == NONE {
                    match conc {
                        Some(c) => V::I(c),
                        None => {
                            let k = t().con(*off as u64, 64);
                            let bb = b.e(64);
                            vt(t().add(bb, k))
                        }
                    }
                } else {
                    vt(sum)
                }
            }
            Inst::Load { ty, p, atomic } => {
                if *atomic && st.thr != 0 && crate::ext::preempt(self, st)? {
                    return Ok(());
                }
                let p = self.val(st, p);
                self.load(st, *ty, &p)?
            }
            Inst::Store { ty, v, p, atomic } => {
                if *atomic && st.thr != 0 && crate::ext::preempt(self, st)? {
                    return Ok(());
                }
                let p = self.val(st, p);
                let a = self.conc(st, &p, 64)?;
                let v = self.val(st, v);
                if !store_ty(&mut self.m, &mut st.mem, a, *ty, &v) {
                    return Err(Stop::Ub(format!("invalid store at {:#x}", a)));
                }
                st.fr.ip += 1;
                return Ok(());
            }
            Inst::Alloca { size, n, align: _ } => {
                let mut sz = *size;
                if let Some((o, w)) = n {
                    let nv = self.val(st, o);
                    sz *= self.conc(st, &nv, *w)?;
                }
                let a = st.mem.alloc(Obj::new(sz, Kind::Stack));
                st.fr.allocas.push(a >> OBJ_SHIFT);
                V::I(a)
            }
            Inst::Call { f, args, tys, ret, next } => {
                let fid = match f {
                    Callee::Fn(i) => *i,
                    Callee::Ind(o) => {
                        let v = self.val(st, o);
                        let a = self.conc(st, &v, 64)?;
                        if a < FBASE || (a - FBASE) / 16 >= self.m.funcs.len() as u64 {
                            return Err(Stop::Ub(format!("call of {:#x}", a)));
                        }
                        ((a - FBASE) / 16) as u32
                    }
                };
                let av: Vec<V> = args.iter().map(|o| self.val(st, o)).collect();
                if self.handlers.len() <= fid as usize {
                    self.handlers.resize(self.m.funcs.len(), None);
                }
                let h = match self.handlers[fid as usize] {
                    Some(h) => h,
                    None => {
                        let nm = self.m.funcs[fid as usize].name.clone();
                        let h = crate::ext::resolve(&nm, self.m.funcs[fid as usize].src.is_some());
                        self.handlers[fid as usize] = Some(h);
                        h
                    }
                };
                match h {
                    Some(h) => {
                        let name: &'static str = unsafe { &*(self.m.funcs[fid as usize].name.as_str() as *const str) };
                        let c = Ctx { tys, ret: *ret, name };
                        let r = h(self, st, &av, &c)?;
                        match r {
                            Out::Val(v) => {
                                if dst != u32::MAX {
                                    st.fr.regs[dst as usize] = v;
                                }
                            }
                            Out::Void => {}
                            Out::Pushed => return Ok(()),
                        }
                        match next {
                            Some(b) => self.jump(st, *b),
                            None => st.fr.ip += 1,
                        }
                        return Ok(());
                    }
                    None => {
                        // the continuation is set up before the frame is pushed
                        if self.get_body(fid).is_none() {
                            return unsup(format!("call of {}", self.m.funcs[fid as usize].name));
                        }
                        match next {
                            Some(b) => {
                                // phis of the normal destination may use the result; they are
                                // resolved after the return through a landing pad
                                st.fr.ip += 1;
                                self.push_frame(st, fid, &av, dst)?;
                                let k = st.frames.len() - 1;
                                let fr = Rc::make_mut(&mut st.frames[k]);
                                fr.ip = INVOKE | *b;
                                return Ok(());
                            }
                            None => {
                                st.fr.ip += 1;
                                return self.push_frame(st, fid, &av, dst);
                            }
                        }
                    }
                }
            }
            Inst::Select { cty, ty, c, a, b } => {
                let c = self.val(st, c);
                match c {
                    V::I(x) => {
                        if x & 1 == 1 {
                            self.val(st, a)
                        } else {
                            self.val(st, b)
                        }
                    }
                    V::S(e) => {
                        let e = self.simp(st, e);
                        match self.known(st, e) {
                            Some(true) => self.val(st, a),
                            Some(false) => self.val(st, b),
                            None => {
                                let a = self.val(st, a);
                                let b = self.val(st, b);
                                self.ite_v(e, *ty, &a, &b)
                            }
                        }
                    }
                    V::A(cv) => {
                        let _ = cty;
                        let (_, et) = self.m.elem(*ty);
                        let a = self.val(st, a);
                        let b = self.val(st, b);
                        match (&a, &b) {
                            (V::A(x), V::A(y)) => {
                                let mut r = Vec::new();
                                for i in 0..x.len() {
                                    r.push(match &cv[i] {
                                        V::I(k) => {
                                            if k & 1 == 1 {
                                                x[i].clone()
                                            } else {
                                                y[i].clone()
                                            }
                                        }
                                        V::S(e) => self.ite_v(*e, et, &x[i], &y[i]),
                                        _ => return unsup("select"),
                                    });
                                }
                                V::A(Rc::new(r))
                            }
                            _ => return unsup("vector select"),
                        }
                    }
                }
            }
            Inst::ExtractValue { a, idx } => {
                let mut v = self.val(st, a);
                for i in idx {
                    v = match &v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => return unsup("extractvalue"),
                    };
                }
                v
            }
            Inst::InsertValue { a, v, idx } => {
                let a = self.val(st, a);
                let v = self.val(st, v);
                insert(&a, &v, idx)
            }
            Inst::ExtractElement { a, i } => {
                let a = self.val(st, a);
                let i = self.val(st, i);
                let i = self.conc(st, &i, 64)?;
                match a {
                    V::A(x) => x[i as usize].clone(),
                    _ => return unsup("extractelement"),
                }
            }
            Inst::InsertElement { a, v, i } => {
                let a = self.val(st, a);
                let v = self.val(st, v);
                let i = self.val(st, i);
                let i = self.conc(st, &i, 64)?;
                insert(&a, &v, &[i as u32])
            }
            Inst::Shuffle { n, a, b, m } => {
                let a = self.val(st, a);
                let b = self.val(st, b);
                match (&a, &b) {
                    (V::A(x), V::A(y)) => {
                        let r = m
                            .iter()
                            .map(|&k| {
                                if k < 0 {
                                    V::I(0)
                                } else if (k as u32) < *n {
                                    x[k as usize].clone()
                                } else {
                                    y[(k as u32 - n) as usize].clone()
                                }
                            })
                            .collect();
                        V::A(Rc::new(r))
                    }
                    _ => return unsup("shuffle"),
                }
            }
            Inst::Copy { a } => self.val(st, a),
            Inst::Br { t } => {
                self.jump(st, *t);
                return Ok(());
            }
            Inst::CondBr { c, t, f } => {
                let c = self.val(st, c);
                let b = match c {
                    V::I(x) => x & 1 == 1,
                    V::S(e) => self.decide(st, e)?,
                    _ => return unsup("branch"),
                };
                self.jump(st, if b { *t } else { *f });
                return Ok(());
            }
            Inst::Switch { w, v, def, cases } => {
                let v = self.val(st, v);
                let mut to = *def;
                match v {
                    V::I(x) => {
                        for (k, b) in cases {
                            if *k == x {
                                to = *b;
                                break;
                            }
                        }
                    }
                    V::S(e) => {
                        let e = self.simp(st, e);
                        // one decision per distinct target
                        let mut targets: Vec<(u32, E)> = Vec::new();
                        for (k, b) in cases {
                            let kk = t().con(*k, *w);
                            let c = t().eq(e, kk);
                            if t().cval(c) == Some(0) {
                                continue;
                            }
                            match targets.iter_mut().find(|x| x.0 == *b) {
                                Some(x) => x.1 = t().or(x.1, c),
                                None => targets.push((*b, c)),
                            }
                        }
                        for (b, c) in targets {
                            if b == *def {
                                continue;
                            }
                            if self.decide(st, c)? {
                                to = b;
                                break;
                            }
                        }
                    }
                    _ => return unsup("switch"),
                }
                self.jump(st, to);
                return Ok(());
            }
            Inst::Ret { v } => {
                let v = v.as_ref().map(|o| self.val(st, o));
                self.ret(st, v)?;
                if st.fr.ip & INVOKE != 0 {
                    let b = st.fr.ip & !INVOKE;
                    self.jump(st, b);
                }
                return Ok(());
            }
            Inst::Unreachable => return Err(Stop::Ub("unreachable executed".into())),
            Inst::Rmw { k, w, p, v } => {
                if st.thr != 0 && crate::ext::preempt(self, st)? {
                    return Ok(());
                }
                let p = self.val(st, p);
                let a = self.conc(st, &p, 64)?;
                let n = (*w as usize + 7) / 8;
                let old = match st.mem.read(a, n) {
                    Some(x) => x,
                    None => return Err(Stop::Ub(format!("invalid atomic at {:#x}", a))),
                };
                let v = self.val(st, v);
                let new = match k {
                    0 => v,
                    1 => binop(BinK::Add, *w, &old, &v)?,
                    2 => binop(BinK::Sub, *w, &old, &v)?,
                    3 => binop(BinK::And, *w, &old, &v)?,
                    4 => binop(BinK::Or, *w, &old, &v)?,
                    5 => binop(BinK::Xor, *w, &old, &v)?,
                    10 => {
                        let x = binop(BinK::And, *w, &old, &v)?;
                        binop(BinK::Xor, *w, &x, &V::I(mask(*w)))?
                    }
                    _ => {
                        let p = match k {
                            6 => Pred::Sgt,
                            7 => Pred::Slt,
                            8 => Pred::Ugt,
                            _ => Pred::Ult,
                        };
                        match icmp(p, *w, &old, &v) {
                            V::I(1) => old.clone(),
                            V::I(_) => v,
                            V::S(c) => vt(t().ite(c, old.e(*w), v.e(*w))),
                            _ => unreachable!(),
                        }
                    }
                };
                st.mem.write(a, n, &new);
                old
            }
            Inst::CmpXchg { w, p, c, n } => {
                if st.thr != 0 && crate::ext::preempt(self, st)? {
                    return Ok(());
                }
                let p = self.val(st, p);
                let a = self.conc(st, &p, 64)?;
                let sz = (*w as usize + 7) / 8;
                let old = match st.mem.read(a, sz) {
                    Some(x) => x,
                    None => return Err(Stop::Ub(format!("invalid atomic at {:#x}", a))),
                };
                let c = self.val(st, c);
                let n = self.val(st, n);
                let eq = match icmp(Pred::Eq, *w, &old, &c) {
                    V::I(x) => x == 1,
                    V::S(e) => self.decide(st, e)?,
                    _ => false,
                };
                if eq {
                    st.mem.write(a, sz, &n);
                }
                V::A(Rc::new(vec![old, V::I(eq as u64)]))
            }
            Inst::Nop => {
                st.fr.ip += 1;
                return Ok(());
            }
        };
        st.fr.regs[dst as usize] = v;
        st.fr.ip += 1;
        Ok(())
    }

    pub fn ite_v(&mut self, c: E, ty: TyId, a: &V, b: &V) -> V {
        match self.m.tys[ty as usize].clone() {
            Ty::Arr(_, e) | Ty::Vec(_, e) => match (a, b) {
                (V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.ite_v(c, e, p, q)).collect())),
                _ => panic!(),
            },
            Ty::Struct(f, _) => match (a, b) {
                (V::A(x), V::A(y)) => V::A(Rc::new((0..f.len()).map(|k| self.ite_v(c, f[k], &x[k], &y[k])).collect())),
                _ => panic!(),
            },
            _ => {
                let w = self.m.width(ty);
                vt(t().ite(c, a.e(w), b.e(w)))
            }
        }
    }

    fn bits_of(&mut self, ty: TyId, v: &V) -> E {
        match self.m.tys[ty as usize].clone() {
            Ty::Vec(_, e) | Ty::Arr(_, e) => {
                let a = match v {
                    V::A(a) => a.clone(),
                    _ => panic!(),
                };
                let mut acc = self.bits_of(e, &a[0]);
                for x in &a[1..] {
                    let h = self.bits_of(e, x);
                    acc = t().concat(h, acc);
                }
                acc
            }
            _ => v.e(self.m.width(ty)),
        }
    }
    fn from_bits(&mut self, ty: TyId, e: E) -> V {
        match self.m.tys[ty as usize].clone() {
            Ty::Vec(n, et) => {
                let w = self.m.width(et);
                V::A(Rc::new((0..n as u16).map(|k| vt(t().extract(e, k * w, w))).collect()))
            }
            _ => vt(e),
        }
    }
    fn cast(&mut self, k: CastK, from: TyId, to: TyId, a: &V) -> Result<V, Stop> {
        if k == CastK::BitCast {
            if from == to {
                return Ok(a.clone());
            }
            let vf = matches!(self.m.tys[from as usize], Ty::Vec(..));
            let vtt = matches!(self.m.tys[to as usize], Ty::Vec(..));
            if !vf && !vtt {
                return Ok(a.clone());
            }
            let b = self.bits_of(from, a);
            return Ok(self.from_bits(to, b));
        }
        let (_, ef) = self.m.elem(from);
        let (_, et) = self.m.elem(to);
        let fw = self.m.width(ef);
        let tw = self.m.width(et);
        let tm = t();
        Ok(lanes1(a, &mut |x| match x {
            V::I(v) if fw <= 64 && tw <= 64 => {
                let v = *v;
                V::I(match k {
                    CastK::Trunc | CastK::PtrToInt | CastK::IntToPtr => v & mask(tw),
                    CastK::ZExt => v,
                    CastK::SExt => sx(v, fw) as u64 & mask(tw),
                    CastK::FpTrunc | CastK::FpExt => fcvt(v, fw, tw),
                    CastK::FpToUi => f2u(v, fw, tw),
                    CastK::FpToSi => f2s(v, fw, tw),
                    CastK::UiToFp => u2f(v, tw),
                    CastK::SiToFp => i2f(sx(v, fw), tw),
                    CastK::BitCast => v,
                })
            }
            x => {
                let e = x.e(fw);
                vt(match k {
                    CastK::Trunc => tm.extract(e, 0, tw),
                    CastK::PtrToInt | CastK::IntToPtr => {
                        if tw < fw {
                            tm.extract(e, 0, tw)
                        } else {
                            tm.zext(e, tw)
                        }
                    }
                    CastK::ZExt => tm.zext(e, tw),
                    CastK::SExt => tm.sext(e, tw),
                    CastK::FpTrunc | CastK::FpExt => tm.fcvt(e, tw),
                    CastK::FpToUi => tm.f2i(e, tw, false),
                    CastK::FpToSi => tm.f2i(e, tw, true),
                    CastK::UiToFp => tm.i2f(e, tw, false),
                    CastK::SiToFp => tm.i2f(e, tw, true),
                    CastK::BitCast => e,
                })
            }
        }))
    }
}

pub const INVOKE: u32 = 1 << 31;

pub fn lanes1(a: &V, f: &mut dyn FnMut(&V) -> V) -> V {
    match a {
        V::A(x) => V::A(Rc::new(x.iter().map(|v| f(v)).collect())),
        x => f(x),
    }
}
pub fn lanes2(a: &V, b: &V, f: &mut dyn FnMut(&V, &V) -> V) -> V {
    match (a, b) {
        (V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| f(p, q)).collect())),
        _ => f(a, b),
    }
}
fn insert(a: &V, v: &V, idx: &[u32]) -> V {
    if idx.is_empty() {
        return v.clone();
    }
    match a {
        V::A(x) => {
            let mut y: Vec<V> = (**x).clone();
            y[idx[0] as usize] = insert(&x[idx[0] as usize], v, &idx[1..]);
            V::A(Rc::new(y))
        }
        _ => panic!("insert into a scalar"),
    }
}

pub fn binop(k: BinK, w: u16, a: &V, b: &V) -> Result<V, Stop> {
    use BinK::*;
    let tm = t();
    if let (V::I(x), V::I(y)) = (a, b) {
        if w <= 64 {
            let (x, y) = (*x, *y);
            let m = mask(w);
            let r = match k {
                Add => x.wrapping_add(y) & m,
                Sub => x.wrapping_sub(y) & m,
                Mul => x.wrapping_mul(y) & m,
                UDiv | URem | SDiv | SRem if y == 0 => return Err(Stop::Ub("division by zero".into())),
                UDiv => x / y,
                URem => x % y,
                SDiv => (sx(x, w).wrapping_div(sx(y, w))) as u64 & m,
                SRem => (sx(x, w).wrapping_rem(sx(y, w))) as u64 & m,
                And => x & y,
                Or => x | y,
                Xor => x ^ y,
                Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        (x << y) & m
                    }
                }
                LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                AShr => {
                    let s = (y.min(w as u64 - 1)) as u32;
                    (sx(x, w) >> s) as u64 & m
                }
                FAdd => fop(Op::FAdd, w, x, y),
                FSub => fop(Op::FSub, w, x, y),
                FMul => fop(Op::FMul, w, x, y),
                FDiv => fop(Op::FDiv, w, x, y),
                FRem => libm_eval(7, w, x, y),
            };
            return Ok(V::I(r));
        }
    }
    let x = a.e(w);
    let y = b.e(w);
    Ok(vt(match k {
        Add => tm.add(x, y),
        Sub => tm.sub(x, y),
        Mul => tm.mul(x, y),
        UDiv => tm.divrem(Op::UDiv, x, y),
        SDiv => tm.divrem(Op::SDiv, x, y),
        URem => tm.divrem(Op::URem, x, y),
        SRem => tm.divrem(Op::SRem, x, y),
        And => tm.and(x, y),
        Or => tm.or(x, y),
        Xor => tm.xor(x, y),
        Shl => tm.shl(x, y),
        LShr => tm.lshr(x, y),
        AShr => tm.ashr(x, y),
        FAdd => tm.farith(Op::FAdd, x, y),
        FSub => tm.farith(Op::FSub, x, y),
        FMul => tm.farith(Op::FMul, x, y),
        FDiv => tm.farith(Op::FDiv, x, y),
        FRem => tm.libm(7, x, y),
    }))
}

pub fn icmp(p: Pred, w: u16, a: &V, b: &V) -> V {
    if let (V::I(x), V::I(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let (sa, sb) = (sx(x, w), sx(y, w));
        return V::I(match p {
            Pred::Eq => x == y,
            Pred::Ne => x != y,
            Pred::Ugt => x > y,
            Pred::Uge => x >= y,
            Pred::Ult => x < y,
            Pred::Ule => x <= y,
            Pred::Sgt => sa > sb,
            Pred::Sge => sa >= sb,
            Pred::Slt => sa < sb,
            Pred::Sle => sa <= sb,
        } as u64);
    }
    let tm = t();
    let x = a.e(w);
    let y = b.e(w);
    vt(match p {
        Pred::Eq => tm.eq(x, y),
        Pred::Ne => {
            let e = tm.eq(x, y);
            tm.not(e)
        }
        Pred::Ugt => tm.ult(y, x),
        Pred::Uge => tm.ule(y, x),
        Pred::Ult => tm.ult(x, y),
        Pred::Ule => tm.ule(x, y),
        Pred::Sgt => tm.slt(y, x),
        Pred::Sge => tm.sle(y, x),
        Pred::Slt => tm.slt(x, y),
        Pred::Sle => tm.sle(x, y),
    })
}

pub fn fcmp(p: FPred, w: u16, a: &V, b: &V) -> V {
    if let (V::I(x), V::I(y)) = (a, b) {
        let (x, y) = (fval(*x, w), fval(*y, w));
        let u = x.is_nan() || y.is_nan();
        return V::I(match p {
            FPred::False => false,
            FPred::Oeq => x == y,
            FPred::Ogt => x > y,
            FPred::Oge => x >= y,
            FPred::Olt => x < y,
            FPred::Ole => x <= y,
            FPred::One => !u && x != y,
            FPred::Ord => !u,
            FPred::Ueq => u || x == y,
            FPred::Ugt => u || x > y,
            FPred::Uge => u || x >= y,
            FPred::Ult => u || x < y,
            FPred::Ule => u || x <= y,
            FPred::Une => u || x != y,
            FPred::Uno => u,
            FPred::True => true,
        } as u64);
    }
    let tm = t();
    let x = a.e(w);
    let y = b.e(w);
    vt(match p {
        FPred::False => tm.fls(),
        FPred::True => tm.tru(),
        FPred::Oeq => tm.fcmp(Op::FEq, x, y),
        FPred::Une => {
            let e = tm.fcmp(Op::FEq, x, y);
            tm.not(e)
        }
        FPred::Ogt => tm.fcmp(Op::FLt, y, x),
        FPred::Oge => tm.fcmp(Op::FLe, y, x),
        FPred::Olt => tm.fcmp(Op::FLt, x, y),
        FPred::Ole => tm.fcmp(Op::FLe, x, y),
        FPred::Ule => {
            let e = tm.fcmp(Op::FLt, y, x);
            tm.not(e)
        }
        FPred::Ult => {
            let e = tm.fcmp(Op::FLe, y, x);
            tm.not(e)
        }
        FPred::Uge => {
            let e = tm.fcmp(Op::FLt, x, y);
            tm.not(e)
        }
        FPred::Ugt => {
            let e = tm.fcmp(Op::FLe, x, y);
            tm.not(e)
        }
        FPred::Uno => tm.fcmp(Op::FUno, x, y),
        FPred::Ord => {
            let e = tm.fcmp(Op::FUno, x, y);
            tm.not(e)
        }
        FPred::One => {
            let u = tm.fcmp(Op::FUno, x, y);
            let e = tm.fcmp(Op::FEq, x, y);
            let r = tm.or(u, e);
            tm.not(r)
        }
        FPred::Ueq => {
            let u = tm.fcmp(Op::FUno, x, y);
            let e = tm.fcmp(Op::FEq, x, y);
            tm.or(u, e)
        }
    })
}
