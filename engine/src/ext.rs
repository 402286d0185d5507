//! Functions the IR declares but does not define: allocator, C library,
//! LLVM intrinsics, and the harness interface (`qs_*`).
use crate::exec::*;
use crate::ll::*;
use crate::mem::*;
use crate::term::*;
use crate::val::*;
use std::rc::Rc;

pub fn known(name: &str) -> bool {
    resolve(name, false).is_some()
}

fn ret(v: u64) -> R {
    Ok(Out::Val(V::I(v)))
}

pub fn resolve(name: &str, defined: bool) -> Option<Handler> {
    let h: Handler = match name {
        "qs_u" => qs_u,
        "qs_i" => qs_i,
        "qs_f" => qs_f,
        "qs_g" => qs_g,
        "qs_choose" => qs_choose,
        "qs_conc" => qs_conc,
        "qs_assume" => qs_assume,
        "qs_check" => qs_check,
        "qs_obs" => qs_obs,
        "qs_reach" => qs_reach,
        "qs_is_sym" => qs_is_sym,
        "qs_native" => |_, _, _, _| ret(0),
        "qs_tok" => qs_tok,
        "qs_untok" => qs_untok,
        "qs_note" => qs_note,
        "qs_ite" => qs_ite,
        "qs_expect_panic" => |_, st, a, _| {
            st.expect_panic = a[0].int() != 0;
            Ok(Out::Void)
        },
        "qs_yield" => qs_yield,
        "qs_par" => qs_par,
        "qs_symlen" => |_, st, _, _| ret(st.forks as u64),
        _ => {
            if name.contains("4core9panicking9panic_fmt")
                || name.contains("4core9panicking18panic_nounwind_fmt")
                || name.contains("3std9panicking")
                    && (name.contains("15panic_with_hook")
                        || name.contains("13panic_handler")
                        || name.contains("begin_panic")
                        || name.contains("10rust_panic")
                        || name.contains("20rust_panic_with_hook")
                        || name.contains("rust_panic_without_hook"))
                || name.contains("17rust_begin_unwind")
                || name.contains("5alloc5alloc18handle_alloc_error")
                || name.contains("3std7process5abort")
                || name.contains("3std7process4exit")
                || name.contains("18___rust_start_panic")
                || name == "abort"
                || name == "exit"
                || name == "_exit"
                || name == "llvm.trap"
                || name == "llvm.ubsantrap"
            {
                return Some(do_panic);
            }
            if defined {
                return None;
            }
            if name.starts_with("llvm.") {
                return llvm(name);
            }
            return libc(name);
        }
    };
    Some(h)
}

fn do_panic(_ex: &mut Ex, st: &mut State, a: &[V], c: &Ctx) -> R {
    let mut loc = String::from(c.name);
    if c.name.contains("panic_fmt") {
        if let Some(V::I(p)) = a.last() {
            let f = st.mem.read(*p, 8);
            let l = st.mem.read(*p + 8, 8);
            let li = st.mem.read(*p + 16, 4);
            let co = st.mem.read(*p + 20, 4);
            if let (Some(V::I(f)), Some(V::I(l)), Some(V::I(li)), Some(V::I(co))) = (f, l, li, co) {
                if l < 4096 {
                    if let Some(b) = st.mem.cbytes(f, l) {
                        loc = format!("{}:{}:{}", String::from_utf8_lossy(&b), li, co);
                    }
                }
            }
        }
    }
    if st.expect_panic {
        return Err(Stop::Done);
    }
    Err(Stop::Panic(loc))
}

// ------------------------------------------------------------------ harness
fn cstr(st: &State, p: &V, n: &V) -> String {
    match (p, n) {
        (V::I(p), V::I(n)) => String::from_utf8_lossy(&st.mem.cbytes(*p, *n).unwrap_or_default()).into_owned(),
        _ => "?".into(),
    }
}
fn fresh(st: &mut State, base: &str) -> String {
    let k = st.count.entry(base.to_string()).or_insert(0);
    *k += 1;
    format!("{}#{}", base, k)
}
fn mksym(ex: &mut Ex, st: &mut State, name: &str, w: u16, float: bool, signed: bool, lo: u64, hi: u64) -> E {
    let nm = fresh(st, &format!("{}[{:x}..{:x}]", name, lo, hi));
    let r = ex.rnd();
    let init = if float {
        let (a, b) = (fval(lo, w), fval(hi, w));
        let x = a + (b - a) * ((r >> 11) as f64 / (1u64 << 53) as f64);
        if w == 32 {
            (x as f32).to_bits() as u64
        } else {
            x.to_bits()
        }
    } else if signed {
        let span = (hi as i64).wrapping_sub(lo as i64) as u64;
        let d = if span == u64::MAX { r } else { r % (span + 1) };
        (lo.wrapping_add(d)) & mask(w)
    } else {
        let span = hi - lo;
        let d = if span == u64::MAX { r } else { r % (span + 1) };
        lo + d
    };
    let e = t().sym(&nm, w, float, signed, lo, hi, init);
    let id = t().n(e).k as u32;
    st.reqs.push(id);
    e
}
// qs_u(name, len, bits, lo, hi) -> u64
fn qs_u(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    let n = cstr(st, &a[0], &a[1]);
    let w = a[2].int() as u16;
    let e = mksym(ex, st, &n, w, false, false, a[3].int(), a[4].int());
    Ok(Out::Val(vt(t().zext(e, 64))))
}
// qs_i(name, len, bits, lo, hi) -> i64
fn qs_i(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    let n = cstr(st, &a[0], &a[1]);
    let w = a[2].int() as u16;
    let e = mksym(ex, st, &n, w, false, true, a[3].int(), a[4].int());
    Ok(Out::Val(vt(t().sext(e, 64))))
}
// qs_f(name, len, lo: f32, hi: f32) -> f32
fn qs_f(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    let n = cstr(st, &a[0], &a[1]);
    let e = mksym(ex, st, &n, 32, true, false, a[2].int(), a[3].int());
    Ok(Out::Val(vt(e)))
}
// qs_g(name, len, lo: i64, hi: i64, k: i32) -> f32   value n * 2^-k
fn qs_g(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    let n = cstr(st, &a[0], &a[1]);
    let e = mksym(ex, st, &n, 64, false, true, a[2].int(), a[3].int());
    let k = sx(a[4].int(), 32) as i32;
    Ok(Out::Val(vt(t().fx_sym(e, k, 32))))
}
fn qs_choose(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    let n = cstr(st, &a[0], &a[1]);
    let k = a[2].int();
    // the symbol must survive re-execution of this call
    let base = format!("{}[0..{:x}]", n, k - 1);
    let cnt = *st.count.get(&base).unwrap_or(&0) + 1;
    let nm = format!("{}#{}", base, cnt);
    let r = ex.rnd();
    let e = t().sym(&nm, 32, false, false, 0, k - 1, r % k);
    let v = ex.conc(st, &V::S(e), 32)?;
    st.count.insert(base, cnt);
    st.reqs.push(t().n(e).k as u32);
    ret(v)
}
fn qs_conc(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    let v = ex.conc(st, &a[0], 64)?;
    ret(v)
}
fn tobool(v: &V) -> V {
    match v {
        V::I(x) => V::I(x & 1),
        V::S(e) => vt(if t().w(*e) == 1 { *e } else { t().extract(*e, 0, 1) }),
        v => v.clone(),
    }
}
fn qs_assume(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    match tobool(&a[0]) {
        V::I(1) => Ok(Out::Void),
        V::I(_) => Err(Stop::Assume),
        V::S(e) => {
            let e = ex.simp(st, e);
            if let Some(v) = t().cval(e) {
                return if v == 1 { Ok(Out::Void) } else { Err(Stop::Assume) };
            }
            if st.known.get(&e) == Some(&true) {
                return Ok(Out::Void);
            }
            if st.model_ok && st.model.eval(e) == 1 {
                ex.learn(st, e, true, true);
                return Ok(Out::Void);
            }
            match ex.feasible(st, e) {
                Ok(Some(m)) => {
                    st.model = m;
                    ex.learn(st, e, true, true);
                    Ok(Out::Void)
                }
                Ok(None) => Err(Stop::Assume),
                Err(()) => {
                    st.model_ok = false;
                    ex.learn(st, e, true, true);
                    Ok(Out::Void)
                }
            }
        }
        _ => unsup("assume"),
    }
}
fn qs_check(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    let l = cstr(st, &a[1], &a[2]);
    let v = tobool(&a[0]);
    ex.check(st, &v, &l)?;
    Ok(Out::Void)
}
// qs_obs(name, len, value u64)
fn qs_obs(_ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    let l = cstr(st, &a[0], &a[1]);
    st.obs.push((l, a[2].clone(), 64));
    Ok(Out::Void)
}
fn qs_reach(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    let l = cstr(st, &a[0], &a[1]);
    *ex.st.reach.entry(l).or_insert(0) += 1;
    Ok(Out::Void)
}
fn qs_note(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    if ex.o.trace {
        let l = cstr(st, &a[0], &a[1]);
        let s = match &a[2] {
            V::I(x) => format!("{:#x}", x),
            V::S(e) => t().show(*e, 12),
            _ => "agg".into(),
        };
        eprintln!("note {} = {}  (paths {} forks {} queries {})", l, s, ex.st.paths, ex.st.forks, ex.z.queries);
    }
    Ok(Out::Void)
}
fn qs_is_sym(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    let v = ex.simpv(st, &a[0]);
    ret(matches!(v, V::S(_)) as u64)
}
/// if-then-else without a fork
fn qs_ite(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    let c = tobool(&a[0]);
    match ex.simpv(st, &c) {
        V::I(1) => Ok(Out::Val(a[1].clone())),
        V::I(_) => Ok(Out::Val(a[2].clone())),
        V::S(e) => Ok(Out::Val(vt(t().ite(e, a[1].e(64), a[2].e(64))))),
        _ => unsup("ite"),
    }
}
// qs_tok(value u64, kind) -> id: remembers a symbolic number that is printed as a placeholder
fn qs_tok(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    let k = a[1].int() as u8;
    let v = ex.simpv(st, &a[0]);
    let e = v.e(64);
    for (i, x) in st.toks.iter().enumerate() {
        if x.0 == e && x.1 == k {
            return ret(i as u64);
        }
    }
    st.toks.push((e, k));
    ret(st.toks.len() as u64 - 1)
}
// qs_untok(id, kind) -> value
fn qs_untok(_ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    let id = a[0].int() as usize;
    if id >= st.toks.len() {
        return unsup("unknown number placeholder");
    }
    Ok(Out::Val(vt(st.toks[id].0)))
}

// ------------------------------------------------------------------ threads
fn save_thread(st: &mut State) {
    let k = st.thr;
    st.threads[k].frames = std::mem::take(&mut st.frames);
    st.threads[k].top = Some(Rc::new(st.fr.clone()));
}
fn load_thread(st: &mut State, k: usize) {
    st.thr = k;
    st.frames = std::mem::take(&mut st.threads[k].frames);
    let top = st.threads[k].top.take().unwrap();
    st.fr = match Rc::try_unwrap(top) {
        Ok(f) => f,
        Err(f) => (*f).clone(),
    };
}
/// pick any runnable thread (a choice symbol, so that the replay can follow)
fn schedule(ex: &mut Ex, st: &mut State, runnable: &[usize]) -> Result<usize, Stop> {
    if runnable.len() == 1 {
        return Ok(runnable[0]);
    }
    let k = runnable.len() as u64;
    let base = format!("sched[0..{:x}]", k - 1);
    let cnt = *st.count.get(&base).unwrap_or(&0) + 1;
    let nm = format!("{}#{}", base, cnt);
    let e = t().sym(&nm, 32, false, false, 0, k - 1, 0);
    let v = ex.conc(st, &V::S(e), 32)?;
    st.count.insert(base, cnt);
    st.reqs.push(t().n(e).k as u32);
    Ok(runnable[v as usize])
}
pub fn thread_exit(ex: &mut Ex, st: &mut State) -> Result<(), Stop> {
    if st.thr == 0 {
        return Err(Stop::Done);
    }
    // every worker ended: go on with whoever is runnable
    let run: Vec<usize> = (1..st.threads.len()).filter(|&i| !st.threads[i].done && i != st.thr).collect();
    if run.is_empty() {
        let k = st.thr;
        st.threads[k].done = true;
        load_thread(st, 0);
        st.threads.clear();
        return Ok(());
    }
    let n = schedule(ex, st, &run)?;
    let k = st.thr;
    st.threads[k].done = true;
    load_thread(st, n);
    Ok(())
}
/// qs_par(n, f: extern "C" fn(*const u8, usize), ctx): run f(ctx, 0..n) as threads
/// that may be interleaved at file operations and at atomic accesses (locks too)
fn qs_par(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    let n = ex.conc(st, &a[0], 64)?;
    let f = a[1].int();
    if st.thr != 0 || !st.threads.is_empty() {
        return unsup("nested parallel region");
    }
    if n == 0 {
        return Ok(Out::Void);
    }
    let fid = ((f - FBASE) / 16) as u32;
    let body = match ex.get_body(fid) {
        Some(b) => b,
        None => return unsup("parallel body"),
    };
    let mut first = 0;
    if n > 1 {
        let run: Vec<usize> = (1..=n as usize).collect();
        first = schedule(ex, st, &run)? - 1;
    }
    st.fr.ip += 1;
    st.threads = vec![Thread::default(); n as usize + 1];
    for i in 0..n {
        let mut regs = vec![V::I(0); body.nregs as usize];
        regs[body.params[0] as usize] = a[2].clone();
        regs[body.params[1] as usize] = V::I(i);
        ex.called[fid as usize] += 1;
        st.threads[i as usize + 1].top = Some(Rc::new(Frame { f: fid, body, blk: 0, ip: 0, regs, allocas: vec![], dst: u32::MAX }));
    }
    st.thr = 0;
    save_thread(st);
    load_thread(st, first + 1);
    Ok(Out::Pushed)
}
/// a point where another thread may run; true if the caller must retry its call
pub fn preempt(ex: &mut Ex, st: &mut State) -> Result<bool, Stop> {
    if st.thr == 0 || st.yielded {
        st.yielded = false;
        return Ok(false);
    }
    let run: Vec<usize> = (1..st.threads.len()).filter(|&i| !st.threads[i].done).collect();
    if run.len() <= 1 || st.preempt == 0 {
        return Ok(false);
    }
    let mut order = vec![st.thr];
    order.extend(run.into_iter().filter(|&i| i != st.thr));
    let n = schedule(ex, st, &order)?;
    if n == st.thr {
        return Ok(false);
    }
    st.preempt -= 1;
    // the call is executed when this thread is resumed
    st.yielded = false;
    save_thread(st);
    load_thread(st, n);
    Ok(true)
}
/// waiting hands over to another thread; the wait is tried again later
fn futex(ex: &mut Ex, st: &mut State, a: &[V]) -> R {
    let op = ex.conc(st, &a[2], 64)? & 127;
    if op != 0 && op != 9 {
        return ret(0);
    }
    let p = ex.conc(st, &a[1], 64)?;
    let cur = match st.mem.read(p, 4) {
        Some(v) => ex.conc(st, &v, 32)?,
        None => return Err(Stop::Ub("futex address".into())),
    };
    if cur != ex.conc(st, &a[3], 64)? & 0xffff_ffff {
        return ret(u64::MAX);
    }
    let me = st.thr;
    let run: Vec<usize> = (1..st.threads.len()).filter(|&i| !st.threads[i].done && i != me).collect();
    if me == 0 || run.is_empty() {
        return Err(Stop::Ub("deadlock: waiting for a lock nobody can release".into()));
    }
    let n = schedule(ex, st, &run)?;
    save_thread(st);
    load_thread(st, n);
    Ok(Out::Pushed)
}
fn qs_yield(_ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    st.preempt = a[0].int() as u32;
    Ok(Out::Void)
}

// ------------------------------------------------------------------- libc
fn libc(name: &str) -> Option<Handler> {
    if name.contains("___rustc") {
        if name.contains("___rust_alloc_zeroed") {
            return Some(|ex, st, a, _| alloc(ex, st, &a[0]));
        }
        if name.contains("___rust_dealloc") {
            return Some(|ex, st, a, _| free(ex, st, &a[0]));
        }
        if name.contains("___rust_realloc") {
            return Some(|ex, st, a, _| realloc(ex, st, &a[0], &a[3], Some(&a[1])));
        }
        if name.contains("___rust_alloc_error_handler") {
            return None;
        }
        if name.contains("___rust_no_alloc_shim") {
            return Some(|_, _, _, _| Ok(Out::Void));
        }
        if name.contains("___rust_alloc") {
            return Some(|ex, st, a, _| alloc(ex, st, &a[0]));
        }
    }
    let h: Handler = match name {
        "malloc" => |ex, st, a, _| alloc(ex, st, &a[0]),
        "calloc" => |ex, st, a, _| {
            let n = binop(BinK::Mul, 64, &a[0], &a[1])?;
            alloc(ex, st, &n)
        },
        "free" => |ex, st, a, _| free(ex, st, &a[0]),
        "realloc" => |ex, st, a, _| realloc(ex, st, &a[0], &a[1], None),
        "posix_memalign" => |ex, st, a, _| {
            let n = ex.conc(st, &a[2], 64)?;
            let p = st.mem.alloc(Obj::new(n, Kind::Heap));
            st.mem.write(a[0].int(), 8, &V::I(p));
            ret(0)
        },
        "memcmp" => |ex, st, a, _| memcmp(ex, st, a, false),
        "bcmp" => |ex, st, a, _| memcmp(ex, st, a, true),
        "memcpy" | "memmove" => |ex, st, a, _| {
            copy(ex, st, &a[0], &a[1], &a[2])?;
            Ok(Out::Val(a[0].clone()))
        },
        "memset" => |ex, st, a, _| {
            let v = match &a[1] {
                V::I(x) => V::I(x & 0xff),
                V::S(e) => vt(t().extract(*e, 0, 8)),
                _ => return unsup("memset"),
            };
            fill(ex, st, &a[0], &v, &a[2])?;
            Ok(Out::Val(a[0].clone()))
        },
        "strlen" => strlen,
        "memchr" => |ex, st, a, _| memchr(ex, st, a, false),
        "memrchr" => |ex, st, a, _| memchr(ex, st, a, true),
        "atan2f" | "atan2" => |_, _, a, c| lm(0, a, c),
        "tanf" | "tan" => |_, _, a, c| lm(3, a, c),
        "sinf" | "sin" => |_, _, a, c| lm(1, a, c),
        "cosf" | "cos" => |_, _, a, c| lm(2, a, c),
        "acosf" | "acos" => |_, _, a, c| lm(4, a, c),
        "asinf" | "asin" => |_, _, a, c| lm(5, a, c),
        "atanf" | "atan" => |_, _, a, c| lm(6, a, c),
        "fmodf" | "fmod" => |_, _, a, c| lm(7, a, c),
        "powf" | "pow" => |_, _, a, c| lm(8, a, c),
        "expf" | "exp" => |_, _, a, c| lm(9, a, c),
        "logf" | "log" => |_, _, a, c| lm(10, a, c),
        "hypotf" | "hypot" => |_, _, a, c| lm(11, a, c),
        "__errno_location" => |ex, _, _, _| ret(ex.errno),
        "open64" | "open" => open,
        "close" => |_, st, a, _| {
            let fd = a[0].int() as i32;
            st.fds.remove(&fd);
            ret(0)
        },
        "dup" => |_, st, a, _| {
            let fd = a[0].int() as i32;
            dup(st, fd)
        },
        "fcntl" | "fcntl64" => |_, st, a, _| {
            // F_DUPFD_CLOEXEC
            if a[1].int() == 1030 || a[1].int() == 0 {
                let fd = a[0].int() as i32;
                return dup(st, fd);
            }
            ret(0)
        },
        "read" => read,
        "pread64" => pread,
        "readv" => |_, _, _, _| unsup("readv"),
        "lseek64" | "lseek" => lseek,
        "fstat64" => fstat,
        "write" => |ex, st, a, _| {
            let r = write(ex, st, &a[0], &a[1], &a[2])?;
            ret(r as u64)
        },
        "writev" => |ex, st, a, _| {
            let mut tot = 0i64;
            let n = ex.conc(st, &a[2], 32)?;
            for i in 0..n {
                let p = st.mem.read(a[1].int() + 16 * i, 8).unwrap();
                let l = st.mem.read(a[1].int() + 16 * i + 8, 8).unwrap();
                let r = write(ex, st, &a[0], &p, &l)?;
                if r < 0 {
                    return ret(r as u64);
                }
                tot += r;
            }
            ret(tot as u64)
        },
        "fsync" | "fdatasync" | "ftruncate64" | "fchmod" => |_, _, _, _| ret(0),
        "getrandom" => |ex, st, a, _| {
            let n = ex.conc(st, &a[1], 64)?;
            st.mem.fill(a[0].int(), &V::I(0x5a), n);
            ret(n)
        },
        "getenv" => |_, _, _, _| ret(0),
        "gettid" | "getpid" => |_, _, _, _| ret(1),
        "pthread_self" => |_, _, _, _| ret(1),
        "sched_yield" => |_, _, _, _| ret(0),
        "pthread_key_create" => |_, st, a, _| {
            st.mem.write(a[0].int(), 4, &V::I(1));
            ret(0)
        },
        "pthread_key_delete" | "pthread_setspecific" | "__cxa_thread_atexit_impl" => |_, _, _, _| ret(0),
        "poll" | "sigaction" | "signal" | "sigaltstack" | "mprotect" | "munmap" => |_, _, _, _| ret(0),
        "syscall" => |ex, st, a, _| {
            let n = ex.conc(st, &a[0], 64)?;
            match n {
                202 => futex(ex, st, a),
                318 => {
                    let k = ex.conc(st, &a[2], 64)?;
                    st.mem.fill(a[1].int(), &V::I(0x5a), k);
                    ret(k)
                }
                332 => fail(ex, st, 38), // statx: absent, fstat64 is used
                _ => unsup(format!("syscall {}", n)),
            }
        },
        "__xpg_strerror_r" => |_, st, a, _| {
            st.mem.write(a[1].int(), 4, &V::I(u32::from_le_bytes(*b"err\0") as u64));
            ret(0)
        },
        "qsym.asm" => |_, _, _, _| Ok(Out::Val(V::I(0))),
        "clock_gettime" => |_, st, a, _| {
            st.mem.write(a[1].int(), 8, &V::I(1_000_000));
            st.mem.write(a[1].int() + 8, 8, &V::I(0));
            ret(0)
        },
        _ => return None,
    };
    Some(h)
}

fn lm(id: u64, a: &[V], c: &Ctx) -> R {
    let w = if c.name.ends_with('f') { 32 } else { 64 };
    lmw(id, w, a)
}
fn lmw(id: u64, w: u16, a: &[V]) -> R {
    let two = matches!(id, 0 | 7 | 8 | 11);
    if let (V::I(x), V::I(y)) = (&a[0], if two { &a[1] } else { &V::I(0) }) {
        return ret(libm_eval(id, w, *x, *y));
    }
    let x = a[0].e(w);
    let y = if two { a[1].e(w) } else { NONE };
    Ok(Out::Val(vt(t().libm(id, x, y))))
}

const HUGE: u64 = 1 << 30;
fn alloc(ex: &mut Ex, st: &mut State, n: &V) -> R {
    let n = ex.simpv(st, n);
    match n {
        V::I(n) => {
            if n > HUGE {
                return Err(Stop::Panic(format!("allocation of more than {} bytes", HUGE)));
            }
            let p = st.mem.alloc(Obj::new(n, Kind::Heap));
            ret(p)
        }
        V::S(e) => {
            // small sizes are enumerated; a large size is kept symbolic
            let k = t().con(1024, 64);
            let big = t().ult(k, e);
            if ex.decide(st, big)? {
                let h = t().con(HUGE, 64);
                let huge = t().ult(h, e);
                if ex.decide(st, huge)? {
                    return Err(Stop::Panic(format!("allocation of more than {} bytes", HUGE)));
                }
                let p = st.mem.alloc(Obj::new(HUGE, Kind::Heap));
                return ret(p);
            }
            let n = ex.conc(st, &V::S(e), 64)?;
            let p = st.mem.alloc(Obj::new(n, Kind::Heap));
            ret(p)
        }
        _ => unsup("alloc"),
    }
}
fn free(ex: &mut Ex, st: &mut State, p: &V) -> R {
    let a = ex.conc(st, p, 64)?;
    if a == 0 {
        return Ok(Out::Void);
    }
    let ok = match st.mem.locate(a, 0) {
        Some((id, 0)) => st.mem.get(id).unwrap().kind == Kind::Heap,
        _ => false,
    };
    if !ok {
        return Err(Stop::Ub(format!("invalid free of {:#x}", a)));
    }
    st.mem.free(a >> OBJ_SHIFT);
    Ok(Out::Void)
}
fn realloc(ex: &mut Ex, st: &mut State, p: &V, n: &V, old: Option<&V>) -> R {
    let a = ex.conc(st, p, 64)?;
    if a == 0 {
        return alloc(ex, st, n);
    }
    let n = ex.simpv(st, n);
    let n = match n {
        V::I(n) => n,
        V::S(e) => {
            let i = t().inf(e);
            if i.umax - i.umin > 4096 {
                return unsup("realloc of symbolic size");
            }
            ex.conc(st, &V::S(e), 64)?
        }
        _ => return unsup("realloc"),
    };
    let _ = old;
    if n > HUGE {
        return Err(Stop::Panic(format!("allocation of more than {} bytes", HUGE)));
    }
    let id = a >> OBJ_SHIFT;
    let osz = match st.mem.get(id) {
        Some(o) if o.kind == Kind::Heap => o.size,
        _ => return Err(Stop::Ub(format!("invalid realloc of {:#x}", a))),
    };
    let q = st.mem.alloc(Obj::new(n, Kind::Heap));
    // only the materialised part has to be copied
    let have = st.mem.get(id).unwrap().data.len() as u64;
    st.mem.copy(q, a, osz.min(n).min(have));
    st.mem.free(id);
    ret(q)
}
fn memcmp(ex: &mut Ex, st: &mut State, a: &[V], eqonly: bool) -> R {
    let n = ex.conc(st, &a[2], 64)?;
    if n == 0 {
        return ret(0);
    }
    let p = ex.conc(st, &a[0], 64)?;
    let q = ex.conc(st, &a[1], 64)?;
    let (x, y) = match (st.mem.bytes(p, n), st.mem.bytes(q, n)) {
        (Some(x), Some(y)) => (x, y),
        _ => return Err(Stop::Ub("memcmp out of bounds".into())),
    };
    if eqonly {
        let mut c = t().tru();
        for (u, v) in x.iter().zip(&y) {
            let e = icmp(Pred::Eq, 8, u, v).e(1);
            c = t().and(c, e);
            if t().cval(c) == Some(0) {
                return ret(1);
            }
        }
        let nc = t().not(c);
        return Ok(Out::Val(vt(t().zext(nc, 32))));
    }
    // concrete prefix
    let mut i = 0;
    while i < x.len() {
        match (&x[i], &y[i]) {
            (V::I(u), V::I(v)) => {
                if u != v {
                    return ret((*u as i64 - *v as i64) as u64 & 0xffff_ffff);
                }
            }
            _ => break,
        }
        i += 1;
    }
    let mut acc = t().con(0, 32);
    for k in (i..x.len()).rev() {
        let eq = icmp(Pred::Eq, 8, &x[k], &y[k]).e(1);
        let u = t().zext(x[k].e(8), 32);
        let v = t().zext(y[k].e(8), 32);
        let d = t().sub(u, v);
        acc = t().ite(eq, acc, d);
    }
    Ok(Out::Val(vt(acc)))
}
fn copy(ex: &mut Ex, st: &mut State, d: &V, s: &V, n: &V) -> Result<(), Stop> {
    let n = ex.conc(st, n, 64)?;
    if n == 0 {
        return Ok(());
    }
    let d = ex.conc(st, d, 64)?;
    let s = ex.simpv(st, s);
    if let V::S(e) = &s {
        if n <= 64 {
            if let Some(c) = ex.cands(st, *e, n) {
                let mut out = Vec::new();
                for k in 0..n {
                    let mut acc = NONE;
                    for (cond, a) in c.iter().rev() {
                        let v = st.mem.read(a + k, 1).unwrap().e(8);
                        acc = if acc == NONE { v } else { t().ite(*cond, v, acc) };
                    }
                    out.push(vt(acc));
                }
                for (k, v) in out.iter().enumerate() {
                    if !st.mem.write(d + k as u64, 1, v) {
                        return Err(Stop::Ub(format!("invalid memory copy to {:#x}, {} bytes", d, n)));
                    }
                }
                return Ok(());
            }
        }
    }
    let s = ex.conc(st, &s, 64)?;
    if !st.mem.copy(d, s, n) {
        return Err(Stop::Ub(format!("invalid memory copy {:#x} <- {:#x}, {} bytes", d, s, n)));
    }
    Ok(())
}
fn fill(ex: &mut Ex, st: &mut State, d: &V, v: &V, n: &V) -> Result<(), Stop> {
    let d = ex.conc(st, d, 64)?;
    let n = ex.simpv(st, n);
    if let (V::S(e), V::I(0)) = (&n, v) {
        // zeroing an untouched large object changes nothing
        let id = d >> OBJ_SHIFT;
        if let Some(o) = st.mem.get(id) {
            if o.size >= HUGE && o.data.is_empty() && t().inf(*e).umin > 1024 {
                return Ok(());
            }
        }
    }
    let n = ex.conc(st, &n, 64)?;
    if !st.mem.fill(d, v, n) {
        return Err(Stop::Ub(format!("invalid memory fill {:#x}, {} bytes", d, n)));
    }
    Ok(())
}
fn strlen(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    let p = ex.conc(st, &a[0], 64)?;
    let mut n = 0;
    loop {
        let b = match st.mem.read(p + n, 1) {
            Some(b) => b,
            None => return Err(Stop::Ub("strlen out of bounds".into())),
        };
        let z = match icmp(Pred::Eq, 8, &b, &V::I(0)) {
            V::I(x) => x == 1,
            V::S(e) => ex.decide(st, e)?,
            _ => false,
        };
        if z {
            return ret(n);
        }
        n += 1;
    }
}
fn memchr(ex: &mut Ex, st: &mut State, a: &[V], rev: bool) -> R {
    let p = ex.conc(st, &a[0], 64)?;
    let n = ex.conc(st, &a[2], 64)?;
    let c = match &a[1] {
        V::I(x) => V::I(x & 0xff),
        V::S(e) => vt(t().extract(*e, 0, 8)),
        _ => return unsup("memchr"),
    };
    for k in 0..n {
        let k = if rev { n - 1 - k } else { k };
        let b = match st.mem.read(p + k, 1) {
            Some(b) => b,
            None => return Err(Stop::Ub("memchr out of bounds".into())),
        };
        let z = match icmp(Pred::Eq, 8, &b, &c) {
            V::I(x) => x == 1,
            V::S(e) => ex.decide(st, e)?,
            _ => false,
        };
        if z {
            return ret(p + k);
        }
    }
    ret(0)
}

// -------------------------------------------------------------------- files
fn fail(ex: &Ex, st: &mut State, errno: u64) -> R {
    st.mem.write(ex.errno, 4, &V::I(errno));
    Ok(Out::Val(V::I(u64::MAX)))
}
fn fail32(ex: &Ex, st: &mut State, errno: u64) -> R {
    st.mem.write(ex.errno, 4, &V::I(errno));
    Ok(Out::Val(V::I(0xffff_ffff)))
}
fn newfd(st: &State) -> i32 {
    let mut k = 3;
    while st.fds.contains_key(&k) {
        k += 1;
    }
    k
}
fn open(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    let p = a[0].int();
    let mut n = 0;
    while let Some(V::I(b)) = st.mem.read(p + n, 1) {
        if b == 0 {
            break;
        }
        n += 1;
    }
    let path = String::from_utf8_lossy(&st.mem.cbytes(p, n).unwrap_or_default()).into_owned();
    let fl = a[1].int();
    let wr = fl & 3 != 0;
    if path == "/dev/full" {
        let k = newfd(st);
        st.fds.insert(k, Fd { file: path, pos: V::I(0), write: wr, append: false, desc: 0 });
        return ret(k as u64);
    }
    if path.is_empty() || path.ends_with('/') || path.starts_with("missing/") {
        return fail32(ex, st, 2);
    }
    let dir = path == "." || path == "dir";
    if dir && wr {
        return fail32(ex, st, 21);
    }
    if !dir && !st.fs.contains_key(&path) {
        if fl & 0o100 == 0 {
            return fail32(ex, st, 2);
        }
        st.fs.insert(path.clone(), Rc::new(Obj::new(0, Kind::Heap)));
    } else if fl & 0o1000 != 0 && wr {
        st.fs.insert(path.clone(), Rc::new(Obj::new(0, Kind::Heap)));
    } else if fl & 0o300 == 0o300 {
        return fail32(ex, st, 17);
    }
    st.ndesc += 1;
    let d = st.ndesc;
    st.offs.insert(d, V::I(0));
    let k = newfd(st);
    st.fds.insert(k, Fd { file: path, pos: V::I(0), write: wr, append: fl & 0o2000 != 0, desc: d });
    ret(k as u64)
}
fn dup(st: &mut State, fd: i32) -> R {
    match st.fds.get(&fd).cloned() {
        Some(f) => {
            let k = newfd(st);
            st.fds.insert(k, f);
            ret(k as u64)
        }
        None => ret(0xffff_ffff),
    }
}
fn read_at(ex: &mut Ex, st: &mut State, file: &str, pos: &V, buf: &V, n: &V) -> Result<Option<u64>, Stop> {
    let o = match st.fs.get(file) {
        Some(o) => o.clone(),
        None => return Ok(None),
    };
    let len = o.size;
    let pos = ex.simpv(st, pos);
    let pos = match &pos {
        V::I(x) => *x,
        V::S(e) => {
            let k = t().con(len, 64);
            let ge = t().ule(k, *e);
            if ex.decide(st, ge)? {
                return Ok(Some(0));
            }
            ex.conc(st, &pos, 64)?
        }
        _ => 0,
    };
    if pos >= len {
        return Ok(Some(0));
    }
    let rem = len - pos;
    let n = ex.simpv(st, n);
    let k = match &n {
        V::I(x) => (*x).min(rem),
        V::S(e) => {
            let r = t().con(rem, 64);
            let ge = t().ule(r, *e);
            if ex.decide(st, ge)? {
                rem
            } else {
                ex.conc(st, &n, 64)?
            }
        }
        _ => 0,
    };
    if k == 0 {
        return Ok(Some(0));
    }
    let b = ex.conc(st, buf, 64)?;
    let (id, off) = match st.mem.locate(b, k) {
        Some(x) => x,
        None => return Err(Stop::Ub("read beyond a buffer".into())),
    };
    let dst = st.mem.get_mut(id);
    for i in 0..k as usize {
        let v = o.byte(pos as usize + i);
        dst.write(off + i, 1, &v);
    }
    // keep multi-byte terms whole
    if !o.sym.is_empty() {
        for i in 0..k as usize {
            let p = pos as usize + i;
            if p < o.sym.len() && o.sym[p].0 != NONE {
                dst.set_sym(off + i, o.sym[p].0, o.sym[p].1);
            }
        }
    }
    Ok(Some(k))
}
fn read(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    if preempt(ex, st)? {
        return Ok(Out::Pushed);
    }
    let fd = a[0].int() as i32;
    let f = match st.fds.get(&fd) {
        Some(f) => f.clone(),
        None => return fail(ex, st, 9),
    };
    if f.file == "." || f.file == "dir" {
        return fail(ex, st, 21);
    }
    let pos = st.offs.get(&f.desc).cloned().unwrap_or(V::I(0));
    match read_at(ex, st, &f.file, &pos, &a[1], &a[2])? {
        Some(k) => {
            let np = binop(BinK::Add, 64, &pos, &V::I(k))?;
            st.offs.insert(f.desc, np);
            ret(k)
        }
        None => ret(0),
    }
}
fn pread(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    if preempt(ex, st)? {
        return Ok(Out::Pushed);
    }
    let fd = a[0].int() as i32;
    let f = match st.fds.get(&fd) {
        Some(f) => f.clone(),
        None => return fail(ex, st, 9),
    };
    match read_at(ex, st, &f.file, &a[3], &a[1], &a[2])? {
        Some(k) => ret(k),
        None => ret(0),
    }
}
fn lseek(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    if preempt(ex, st)? {
        return Ok(Out::Pushed);
    }
    let fd = a[0].int() as i32;
    let f = match st.fds.get(&fd) {
        Some(f) => f.clone(),
        None => return fail(ex, st, 9),
    };
    let base = match a[2].int() {
        0 => V::I(0),
        1 => st.offs.get(&f.desc).cloned().unwrap_or(V::I(0)),
        _ => V::I(st.fs.get(&f.file).map_or(0, |o| o.size)),
    };
    let np = binop(BinK::Add, 64, &base, &a[1])?;
    let np = ex.simpv(st, &np);
    let neg = icmp(Pred::Slt, 64, &np, &V::I(0));
    let neg = match neg {
        V::I(x) => x == 1,
        V::S(e) => ex.decide(st, e)?,
        _ => false,
    };
    if neg {
        return fail(ex, st, 22);
    }
    st.offs.insert(f.desc, np.clone());
    Ok(Out::Val(np))
}
fn fstat(ex: &mut Ex, st: &mut State, a: &[V], _c: &Ctx) -> R {
    let fd = a[0].int() as i32;
    let f = match st.fds.get(&fd) {
        Some(f) => f.clone(),
        None => return fail32(ex, st, 9),
    };
    let p = a[1].int();
    let size = st.fs.get(&f.file).map_or(0, |o| o.size);
    let mode = if f.file == "." || f.file == "dir" { 0o040755 } else { 0o100644 };
    st.mem.fill(p, &V::I(0), 144);
    st.mem.write(p + 24, 4, &V::I(mode));
    st.mem.write(p + 48, 8, &V::I(size));
    ret(0)
}
fn write(ex: &mut Ex, st: &mut State, fd: &V, buf: &V, n: &V) -> Result<i64, Stop> {
    let fd = fd.int() as i32;
    let n = ex.conc(st, n, 64)?;
    let p = ex.conc(st, buf, 64)?;
    if fd == 1 || fd == 2 {
        return Ok(n as i64);
    }
    let f = match st.fds.get(&fd) {
        Some(f) => f.clone(),
        None => return Ok(-1),
    };
    if f.file == "/dev/full" && n > 0 {
        st.mem.write(ex.errno, 4, &V::I(28));
        return Ok(-1);
    }
    let bytes = match st.mem.bytes(p, n) {
        Some(b) => b,
        None => return Err(Stop::Ub("write beyond a buffer".into())),
    };
    let syms: Vec<(E, u8)> = if n > 0 {
        let (id, off) = st.mem.locate(p, n).unwrap();
        let o = st.mem.get(id).unwrap();
        (0..n as usize).map(|k| if off + k < o.sym.len() { o.sym[off + k] } else { (NONE, 0) }).collect()
    } else {
        vec![]
    };
    let pos = st.offs.get(&f.desc).cloned().unwrap_or(V::I(0));
    let mut pos = ex.conc(st, &pos, 64)?;
    let o = Rc::make_mut(st.fs.get_mut(&f.file).unwrap());
    if f.append {
        pos = o.size;
    }
    o.size = o.size.max(pos + n);
    for (k, b) in bytes.iter().enumerate() {
        o.write(pos as usize + k, 1, b);
        if syms[k].0 != NONE {
            o.set_sym(pos as usize + k, syms[k].0, syms[k].1);
        }
    }
    st.offs.insert(f.desc, V::I(pos + n));
    Ok(n as i64)
}

// ---------------------------------------------------------- LLVM intrinsics
fn llvm(name: &str) -> Option<Handler> {
    let s = &name[5..];
    let nop: Handler = |_, _, _, _| Ok(Out::Void);
    for p in ["lifetime.", "assume", "experimental.noalias", "dbg.", "prefetch", "x86.sse2.pause", "invariant.", "donothing", "sideeffect", "pseudoprobe", "var.annotation", "x86.sse.sfence", "x86.sse2.mfence"] {
        if s.starts_with(p) {
            return Some(nop);
        }
    }
    let has = |p: &str| s.starts_with(p);
    let h: Handler = if has("memcpy.") || has("memmove.") {
        |ex, st, a, _| {
            copy(ex, st, &a[0], &a[1], &a[2])?;
            Ok(Out::Void)
        }
    } else if has("memset.") {
        |ex, st, a, _| {
            fill(ex, st, &a[0], &a[1], &a[2])?;
            Ok(Out::Void)
        }
    } else if has("threadlocal.address") || has("expect.") || has("launder.") || has("strip.") || has("ssa.copy") || has("ptr.annotation") {
        |_, _, a, _| Ok(Out::Val(a[0].clone()))
    } else if has("is.constant") {
        |_, _, _, _| ret(0)
    } else if has("objectsize") {
        |_, _, _, _| ret(u64::MAX)
    } else if has("umin.") {
        |ex, _, a, c| mm(ex, a, c, Pred::Ult)
    } else if has("umax.") {
        |ex, _, a, c| mm(ex, a, c, Pred::Ugt)
    } else if has("smin.") {
        |ex, _, a, c| mm(ex, a, c, Pred::Slt)
    } else if has("smax.") {
        |ex, _, a, c| mm(ex, a, c, Pred::Sgt)
    } else if has("ucmp.") || has("scmp.") {
        cmp3
    } else if has("abs.") {
        |ex, _, a, c| {
            let w = ew(ex, c.tys[0]);
            l1(a, |x| {
                let neg = icmp(Pred::Slt, w, x, &V::I(0));
                let m = binop(BinK::Sub, w, &V::I(0), x)?;
                Ok(selv(w, &neg, &m, x))
            })
        }
    } else if has("usub.sat") {
        |ex, _, a, c| {
            let w = ew(ex, c.tys[0]);
            l2(a, |x, y| {
                let lt = icmp(Pred::Ult, w, x, y);
                let d = binop(BinK::Sub, w, x, y)?;
                Ok(selv(w, &lt, &V::I(0), &d))
            })
        }
    } else if has("uadd.sat") {
        |ex, _, a, c| {
            let w = ew(ex, c.tys[0]);
            l2(a, |x, y| {
                let d = binop(BinK::Add, w, x, y)?;
                let lt = icmp(Pred::Ult, w, &d, x);
                Ok(selv(w, &lt, &V::I(mask(w)), &d))
            })
        }
    } else if has("ssub.sat") || has("sadd.sat") {
        |ex, _, a, c| {
            let w = ew(ex, c.tys[0]);
            let sub = c.name.contains("ssub");
            l2(a, |x, y| {
                let (o, d) = overflow(if sub { BinK::Sub } else { BinK::Add }, true, w, x, y)?;
                let neg = icmp(Pred::Slt, w, x, &V::I(0));
                let s = selv(w, &neg, &V::I(1u64 << (w - 1)), &V::I(mask(w) >> 1));
                Ok(selv(w, &o, &s, &d))
            })
        }
    } else if s.contains(".with.overflow.") {
        |ex, _, a, c| {
            let w = ew(ex, c.tys[0]);
            let s = &c.name[5..];
            let k = match &s[1..4] {
                "add" => BinK::Add,
                "sub" => BinK::Sub,
                _ => BinK::Mul,
            };
            let (o, r) = overflow(k, s.starts_with('s'), w, &a[0], &a[1])?;
            Ok(Out::Val(V::A(Rc::new(vec![r, o]))))
        }
    } else if has("fshl.") || has("fshr.") {
        fsh
    } else if has("ctlz.") || has("cttz.") || has("ctpop.") || has("bswap.") || has("bitreverse.") {
        bitops
    } else if has("fabs.") {
        |ex, _, a, c| {
            let w = ew(ex, c.tys[0]);
            l1(a, |x| {
                Ok(match x {
                    V::I(v) => V::I(v & (mask(w) >> 1)),
                    x => vt(t().fabs(x.e(w))),
                })
            })
        }
    } else if has("copysign.") {
        |ex, _, a, c| {
            let w = ew(ex, c.tys[0]);
            l2(a, |x, y| {
                if let (V::I(p), V::I(q)) = (x, y) {
                    let s = 1u64 << (w - 1);
                    return Ok(V::I((p & !s) | (q & s)));
                }
                let tm = t();
                let (x, y) = (x.e(w), y.e(w));
                let fr = tm.frange(y);
                let ax = tm.fabs(x);
                if !fr.nan && fr.lo > 0.0 {
                    return Ok(vt(ax));
                }
                if !fr.nan && fr.hi < 0.0 {
                    return Ok(vt(tm.fneg(ax)));
                }
                let sg = tm.extract(y, w - 1, 1);
                let n = tm.fneg(ax);
                Ok(vt(tm.ite(sg, n, ax)))
            })
        }
    } else if has("sqrt.") {
        |ex, _, a, c| {
            let w = ew(ex, c.tys[0]);
            l1(a, |x| {
                Ok(match x {
                    V::I(v) => V::I(fop(Op::FSqrt, w, *v, 0)),
                    x => vt(t().fsqrt(x.e(w))),
                })
            })
        }
    } else if has("sin.") {
        |ex, _, a, c| lmw(1, ew(ex, c.tys[0]), a)
    } else if has("cos.") {
        |ex, _, a, c| lmw(2, ew(ex, c.tys[0]), a)
    } else if has("tan.") {
        |ex, _, a, c| lmw(3, ew(ex, c.tys[0]), a)
    } else if has("pow.") {
        |ex, _, a, c| lmw(8, ew(ex, c.tys[0]), a)
    } else if has("exp.") {
        |ex, _, a, c| lmw(9, ew(ex, c.tys[0]), a)
    } else if has("log.") {
        |ex, _, a, c| lmw(10, ew(ex, c.tys[0]), a)
    } else if has("floor.") || has("ceil.") || has("trunc.") || has("round.") || has("rint.") || has("nearbyint.") || has("roundeven.") {
        |ex, _, a, c| {
            let w = ew(ex, c.tys[0]);
            let s = &c.name[5..];
            let k = if s.starts_with("floor") {
                0
            } else if s.starts_with("ceil") {
                1
            } else if s.starts_with("trunc") {
                2
            } else if s.starts_with("round.") {
                3
            } else {
                4
            };
            l1(a, |x| {
                Ok(match x {
                    V::I(v) => V::I(fround(k, *v, w)),
                    x => vt(t().fround(k, x.e(w))),
                })
            })
        }
    } else if has("fptosi.sat") || has("fptoui.sat") {
        |ex, _, a, c| {
            let fw = ew(ex, c.tys[0]);
            let w = ew(ex, c.ret);
            let sg = c.name.contains("fptosi");
            l1(a, |x| {
                Ok(match x {
                    V::I(v) => V::I(if sg { f2s(*v, fw, w) } else { f2u(*v, fw, w) }),
                    x => vt(t().f2i(x.e(fw), w, sg)),
                })
            })
        }
    } else if has("fma.") || has("fmuladd.") {
        |ex, _, a, c| {
            let w = ew(ex, c.tys[0]);
            if c.name.contains("fmuladd") {
                let m = lanes2(&a[0], &a[1], &mut |x, y| binop(BinK::FMul, w, x, y).unwrap());
                return Ok(Out::Val(lanes2(&m, &a[2], &mut |x, y| binop(BinK::FAdd, w, x, y).unwrap())));
            }
            unsup("fma")
        }
    } else if has("minnum.") || has("maxnum.") || has("minimumnum") || has("maximumnum") {
        |ex, _, a, c| {
            let w = ew(ex, c.tys[0]);
            let mn = c.name.contains(".min");
            l2(a, |x, y| {
                let lt = if mn { fcmp(FPred::Olt, w, x, y) } else { fcmp(FPred::Ogt, w, x, y) };
                let r = selv(w, &lt, x, y);
                // a NaN operand is ignored
                let xn = fcmp(FPred::Uno, w, x, x);
                let yn = fcmp(FPred::Uno, w, y, y);
                let r = selv(w, &xn, y, &r);
                Ok(selv(w, &yn, x, &r))
            })
        }
    } else if has("x86.sse.cmp.ps") || has("x86.sse2.cmp.pd") || has("x86.sse.cmp.ss") {
        |ex, _, a, c| {
            let w = ew(ex, c.tys[0]);
            let p = match a[2].int() & 7 {
                0 => FPred::Oeq,
                1 => FPred::Olt,
                2 => FPred::Ole,
                3 => FPred::Uno,
                4 => FPred::Une,
                5 => FPred::Uge,
                6 => FPred::Ugt,
                _ => FPred::Ord,
            };
            Ok(Out::Val(lanes2(&a[0], &a[1], &mut |x, y| match fcmp(p, w, x, y) {
                V::I(b) => V::I(if b == 1 { mask(w) } else { 0 }),
                v => vt(t().sext(v.e(1), w)),
            })))
        }
    } else if has("x86.sse.movmsk") || has("x86.sse2.pmovmskb") || has("x86.sse2.movmsk") {
        |ex, _, a, c| {
            let w = ew(ex, c.tys[0]);
            match &a[0] {
                V::A(v) => {
                    let mut acc = NONE;
                    for x in v.iter() {
                        let b = t().extract(x.e(w), w - 1, 1);
                        acc = if acc == NONE { b } else { t().concat(b, acc) };
                    }
                    Ok(Out::Val(vt(t().zext(acc, 32))))
                }
                _ => unsup("movmsk"),
            }
        }
    } else if has("vector.reduce.") {
        reduce
    } else if has("load.relative") {
        |ex, st, a, _| {
            let b = ex.conc(st, &a[0], 64)?;
            let o = ex.conc(st, &a[1], 64)?;
            let v = match st.mem.read(b.wrapping_add(o), 4) {
                Some(V::I(v)) => sx(v, 32),
                _ => return unsup("load.relative"),
            };
            ret(b.wrapping_add(v as u64))
        }
    } else if has("ptrmask") {
        |_, _, a, _| Ok(Out::Val(binop(BinK::And, 64, &a[0], &a[1])?))
    } else if has("stacksave") || has("returnaddress") || has("frameaddress") {
        |_, _, _, _| ret(0)
    } else if has("stackrestore") {
        nop
    } else {
        return None;
    };
    Some(h)
}
fn ew(ex: &Ex, ty: TyId) -> u16 {
    let (_, e) = ex.m.elem(ty);
    ex.m.width(e)
}
fn l1(a: &[V], f: impl Fn(&V) -> Result<V, Stop>) -> R {
    Ok(Out::Val(match &a[0] {
        V::A(x) => V::A(Rc::new(x.iter().map(|v| f(v)).collect::<Result<Vec<_>, _>>()?)),
        x => f(x)?,
    }))
}
fn l2(a: &[V], f: impl Fn(&V, &V) -> Result<V, Stop>) -> R {
    Ok(Out::Val(match (&a[0], &a[1]) {
        (V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| f(p, q)).collect::<Result<Vec<_>, _>>()?)),
        (x, y) => f(x, y)?,
    }))
}
pub fn selv(w: u16, c: &V, a: &V, b: &V) -> V {
    match c {
        V::I(1) => a.clone(),
        V::I(_) => b.clone(),
        V::S(e) => vt(t().ite(*e, a.e(w), b.e(w))),
        _ => panic!(),
    }
}
fn mm(ex: &mut Ex, a: &[V], c: &Ctx, p: Pred) -> R {
    let w = ew(ex, c.tys[0]);
    l2(a, |x, y| {
        let k = icmp(p, w, x, y);
        Ok(selv(w, &k, x, y))
    })
}
fn cmp3(ex: &mut Ex, _st: &mut State, a: &[V], c: &Ctx) -> R {
    let w = ew(ex, c.tys[0]);
    let rw = ew(ex, c.ret);
    let sg = c.name.contains("scmp");
    l2(a, |x, y| {
        let lt = icmp(if sg { Pred::Slt } else { Pred::Ult }, w, x, y);
        let eq = icmp(Pred::Eq, w, x, y);
        let r = selv(rw, &eq, &V::I(0), &V::I(1));
        Ok(selv(rw, &lt, &V::I(mask(rw)), &r))
    })
}
pub fn overflow(k: BinK, signed: bool, w: u16, x: &V, y: &V) -> Result<(V, V), Stop> {
    let r = binop(k, w, x, y)?;
    if let (V::I(p), V::I(q)) = (x, y) {
        if w <= 64 {
            let o = if signed {
                let (p, q) = (sx(*p, w) as i128, sx(*q, w) as i128);
                let z = match k {
                    BinK::Add => p + q,
                    BinK::Sub => p - q,
                    _ => p * q,
                };
                let h = 1i128 << (w - 1);
                z < -h || z >= h
            } else {
                let (p, q) = (*p as i128, *q as i128);
                let z = match k {
                    BinK::Add => p + q,
                    BinK::Sub => p - q,
                    _ => {
                        let z = (p as u128).wrapping_mul(q as u128);
                        return Ok((V::I((z >> w != 0) as u64), r));
                    }
                };
                z < 0 || z >> w != 0
            };
            return Ok((V::I(o as u64), r));
        }
    }
    let tm = t();
    // ranges decide most cases
    let (ex, ey) = (x.e(w), y.e(w));
    let (ix, iy) = (tm.inf(ex), tm.inf(ey));
    if w <= 64 {
        let none = if signed {
            let h = 1i128 << (w - 1);
            let (a, b, c, d) = (ix.smin as i128, ix.smax as i128, iy.smin as i128, iy.smax as i128);
            let (lo, hi) = match k {
                BinK::Add => (a + c, b + d),
                BinK::Sub => (a - d, b - c),
                _ => {
                    let v = [a * c, a * d, b * c, b * d];
                    (*v.iter().min().unwrap(), *v.iter().max().unwrap())
                }
            };
            lo >= -h && hi < h
        } else {
            match k {
                BinK::Add => (ix.umax as u128 + iy.umax as u128) >> w == 0,
                BinK::Sub => ix.umin >= iy.umax,
                _ => ix.umax.checked_mul(iy.umax).map_or(false, |z| w == 64 || z >> w == 0),
            }
        };
        if none {
            return Ok((V::I(0), r));
        }
    }
    let o = match (k, signed) {
        (BinK::Add, false) => tm.ult(r.e(w), ex),
        (BinK::Sub, false) => tm.ult(ex, ey),
        (BinK::Mul, _) => {
            if w > 64 {
                return unsup("128-bit multiplication overflow");
            }
            let w2 = w * 2;
            let (p, q, z) = if signed {
                (tm.sext(ex, w2), tm.sext(ey, w2), tm.sext(r.e(w), w2))
            } else {
                (tm.zext(ex, w2), tm.zext(ey, w2), tm.zext(r.e(w), w2))
            };
            let full = tm.mul(p, q);
            let e = tm.eq(full, z);
            tm.not(e)
        }
        (_, true) => {
            let w2 = w + 1;
            if w > 63 {
                // sign rule
                let z = tm.con(0, w);
                let sx_ = tm.slt(ex, z);
                let sy = tm.slt(ey, z);
                let sr = tm.slt(r.e(w), z);
                let same = if k == BinK::Add {
                    tm.eq(sx_, sy)
                } else {
                    let e = tm.eq(sx_, sy);
                    tm.not(e)
                };
                let ch = tm.eq(sr, sx_);
                let ch = tm.not(ch);
                tm.and(same, ch)
            } else {
                let p = tm.sext(ex, w2);
                let q = tm.sext(ey, w2);
                let full = if k == BinK::Add { tm.add(p, q) } else { tm.sub(p, q) };
                let z = tm.sext(r.e(w), w2);
                let e = tm.eq(full, z);
                tm.not(e)
            }
        }
        _ => return unsup("overflow"),
    };
    Ok((vt(o), r))
}
fn fsh(ex: &mut Ex, st: &mut State, a: &[V], c: &Ctx) -> R {
    let w = ew(ex, c.tys[0]);
    let left = c.name.contains("fshl");
    if let V::A(_) = a[0] {
        return unsup("vector funnel shift");
    }
    let s = ex.conc(st, &a[2], w)? % w as u64;
    if let (V::I(x), V::I(y)) = (&a[0], &a[1]) {
        let cat = ((*x as u128) << w) | *y as u128;
        let r = if left { (cat << s) >> w } else { cat >> s };
        return ret(r as u64 & mask(w));
    }
    let tm = t();
    let cat = tm.concat(a[0].e(w), a[1].e(w));
    let lo = if left { w as u64 - s } else { s };
    Ok(Out::Val(vt(tm.extract(cat, lo as u16, w))))
}
fn bitops(ex: &mut Ex, _st: &mut State, a: &[V], c: &Ctx) -> R {
    let w = ew(ex, c.tys[0]);
    let n = c.name.to_string();
    l1(&a[..1], |x| {
        let s = &n[5..];
        if let V::I(v) = x {
            let v = *v;
            return Ok(V::I(if s.starts_with("ctlz") {
                if v == 0 {
                    w as u64
                } else {
                    v.leading_zeros() as u64 - (64 - w as u64)
                }
            } else if s.starts_with("cttz") {
                if v == 0 {
                    w as u64
                } else {
                    v.trailing_zeros() as u64
                }
            } else if s.starts_with("ctpop") {
                v.count_ones() as u64
            } else if s.starts_with("bswap") {
                v.swap_bytes() >> (64 - w)
            } else {
                v.reverse_bits() >> (64 - w)
            }));
        }
        let tm = t();
        let e = x.e(w);
        let bit = |k: u16| t().extract(e, k, 1);
        Ok(vt(if s.starts_with("bswap") {
            let mut acc = tm.extract(e, 0, 8);
            for k in 1..w / 8 {
                let b = tm.extract(e, 8 * k, 8);
                acc = tm.concat(acc, b);
            }
            acc
        } else if s.starts_with("ctpop") {
            let mut acc = tm.con(0, w);
            for k in 0..w {
                let b = tm.zext(bit(k), w);
                acc = tm.add(acc, b);
            }
            acc
        } else if s.starts_with("ctlz") {
            let mut acc = tm.con(w as u64, w);
            for k in 0..w {
                let v = tm.con((w - 1 - k) as u64, w);
                acc = tm.ite(bit(k), v, acc);
            }
            acc
        } else if s.starts_with("cttz") {
            let mut acc = tm.con(w as u64, w);
            for k in (0..w).rev() {
                let v = tm.con(k as u64, w);
                acc = tm.ite(bit(k), v, acc);
            }
            acc
        } else {
            let mut acc = bit(0);
            for k in 1..w {
                acc = tm.concat(acc, bit(k));
            }
            acc
        }))
    })
}
fn reduce(ex: &mut Ex, _st: &mut State, a: &[V], c: &Ctx) -> R {
    let s = c.name["llvm.vector.reduce.".len()..].to_string();
    let (acc0, vec, w) = if s.starts_with("fadd") || s.starts_with("fmul") {
        (Some(a[0].clone()), &a[1], ew(ex, c.tys[1]))
    } else {
        (None, &a[0], ew(ex, c.tys[0]))
    };
    let v = match vec {
        V::A(v) => v.clone(),
        _ => return unsup("reduce"),
    };
    let mut acc = acc0;
    for x in v.iter() {
        acc = Some(match acc {
            None => x.clone(),
            Some(p) => {
                let k = s.split('.').next().unwrap();
                match k {
                    "add" => binop(BinK::Add, w, &p, x)?,
                    "mul" => binop(BinK::Mul, w, &p, x)?,
                    "and" => binop(BinK::And, w, &p, x)?,
                    "or" => binop(BinK::Or, w, &p, x)?,
                    "xor" => binop(BinK::Xor, w, &p, x)?,
                    "fadd" => binop(BinK::FAdd, w, &p, x)?,
                    "fmul" => binop(BinK::FMul, w, &p, x)?,
                    "umax" | "umin" | "smax" | "smin" => {
                        let pr = match k {
                            "umax" => Pred::Ugt,
                            "umin" => Pred::Ult,
                            "smax" => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        let cc = icmp(pr, w, &p, x);
                        selv(w, &cc, &p, x)
                    }
                    _ => return unsup("reduce"),
                }
            }
        });
    }
    Ok(Out::Val(acc.unwrap()))
}
