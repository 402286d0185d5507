//! qsym: solver-based checking of the real code.
//! usage: qsym --ir FILE --z3 LIB --entry NAME --out FILE [options]
#![allow(dead_code, static_mut_refs)]
mod exec;
mod ext;
mod ll;
mod mem;
mod term;
mod val;
mod z3;
use std::collections::HashMap;
use std::time::Instant;

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            '\n' => r += "\\n",
            c if (c as u32) < 32 => r += &format!("\\u{:04x}", c as u32),
            c => r.push(c),
        }
    }
    r + "\""
}
fn viol(v: &exec::Violation) -> String {
    let vals: Vec<String> = v.values.iter().map(|(n, x, w)| format!("[{},\"{}\",{}]", js(n), x, w)).collect();
    let tr: Vec<String> = v.trace.iter().map(|s| js(s)).collect();
    let obs: Vec<String> = v.obs.iter().map(|(n, x)| format!("[{},\"{}\"]", js(n), x)).collect();
    format!(
        "{{\"kind\":{},\"label\":{},\"detail\":{},\"values\":[{}],\"trace\":[{}],\"obs\":[{}]}}",
        js(&v.kind),
        js(&v.label),
        js(&v.detail),
        vals.join(","),
        tr.join(","),
        obs.join(",")
    )
}

fn main() {
    // deep recursion in the term simplifier needs stack
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let mut a: HashMap<String, String> = HashMap::new();
    let mut flags = Vec::new();
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        if let Some(k) = x.strip_prefix("--") {
            if matches!(k, "trace" | "profile") {
                flags.push(k.to_string());
            } else {
                a.insert(k.to_string(), it.next().unwrap_or_default());
            }
        }
    }
    let num = |k: &str, d: f64| a.get(k).and_then(|x| x.parse::<f64>().ok()).unwrap_or(d);
    term::init();
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&a["ir"]).expect("cannot read the IR");
    let m = ll::Module::load(text);
    let mut z = z3::open(&a["z3"]);
    z.timeout_ms = num("timeout", 20000.0) as u32;
    let entry = match m.fmap.get(&a["entry"]) {
        Some(e) => *e,
        None => {
            eprintln!("no function {}", a["entry"]);
            return 3;
        }
    };
    let seed = num("seed", 1.0) as u64;
    let mut ex = exec::Ex {
        m,
        z,
        work: vec![],
        st: exec::Stats::default(),
        o: exec::Opts {
            max_steps: num("steps", 20e6) as u64,
            max_paths: num("paths", 1e6) as u64,
            max_secs: num("secs", 600.0),
            max_viol: num("viol", 6.0) as usize,
            seed,
            trace: flags.contains(&"trace".to_string()),
            samples: num("samples", 3.0) as usize,
            max_depth: num("depth", 600.0) as usize,
            profile: flags.contains(&"profile".to_string()),
            shards: 1,
            shard: 0,
        },
        handlers: vec![],
        viol: vec![],
        viol_labels: HashMap::new(),
        samples: vec![],
        cache: HashMap::new(),
        recent: vec![],
        t0,
        bodies: vec![],
        called: vec![],
        prof: HashMap::new(),
        rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
        errno: 0,
        forksites: HashMap::new(),
    };
    ex.run(entry);
    let (facts, proved, groups) = ex.z.confirm();
    let s = &ex.st;
    let mut fns: Vec<String> = Vec::new();
    for (i, n) in ex.called.iter().enumerate() {
        if *n > 0 {
            fns.push(js(&ex.m.funcs[i].name));
        }
    }
    let map = |m: &std::collections::BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    let labels = s.check_labels.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(",");
    let out = format!(
        "{{\"entry\":{},\"paths\":{},\"done\":{},\"assume\":{},\"infeasible\":{},\"forks\":{},\"insts\":{},\"checks\":{},\"checks_trivial\":{},\"checks_solved\":{},\"checks_unknown\":{},\"branch_queries\":{},\"cache_hits\":{},\"model_hits\":{},\"facts\":[{},{},{}],\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_secs\":{:.3},\"max_query_ms\":{},\"secs\":{:.3},\"terms\":{},\"z3\":{},\"incomplete\":{{{}}},\"reach\":{{{}}},\"labels\":{{{}}},\"functions\":[{}],\"violations\":[{}],\"samples\":[{}]}}",
        js(&a["entry"]),
        s.paths,
        s.done,
        s.assume,
        s.infeasible,
        s.forks,
        s.insts,
        s.checks,
        s.checks_trivial,
        s.checks_solved,
        s.checks_unknown,
        s.branch_queries,
        s.cache_hits,
        s.model_hits,
        facts,
        proved,
        groups,
        ex.z.queries,
        ex.z.n_sat,
        ex.z.n_unsat,
        ex.z.n_unknown,
        ex.z.secs,
        ex.z.max_ms,
        t0.elapsed().as_secs_f64(),
        term::t().nodes.len(),
        js(&ex.z.version),
        map(&s.incomplete),
        map(&s.reach),
        labels,
        fns.join(","),
        ex.viol.iter().map(viol).collect::<Vec<_>>().join(","),
        ex.samples.iter().map(viol).collect::<Vec<_>>().join(",")
    );
    if let Some(f) = a.get("out") {
        std::fs::write(f, out).unwrap();
    } else {
        println!("{}", out);
    }
    if ex.o.profile {
        let mut v: Vec<_> = ex.forksites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("forks {:6} {} block {} ip {}", n, ex.m.funcs[k.0 as usize].name, k.1, k.2);
        }
        let mut c: Vec<_> = ex.called.iter().enumerate().filter(|x| *x.1 > 0).collect();
        c.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (i, n) in c.iter().take(15) {
            eprintln!("calls {:8} {}", n, ex.m.funcs[*i].name);
        }
    }
    0
}
