#!/usr/bin/env python3
"""check.py PROPERTY  [--tier quick|thorough]

Decides one property of /repo's current source with qsym (symbolic execution
of the compiled code, every verdict by an SMT solver).  Exit 0: the assertion
holds on everything explored.  Exit 1 with a VIOLATION line: a counterexample
was found and reproduced against the real code.  Exit 3: no answer."""
import concurrent.futures as cf, json, os, re, resource, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
from props import PROPS

VERIF = ir.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))


def engine(irf, h, out, tier):
    o = dict(secs=240 if tier == "quick" else 600, timeout=20000 if tier == "quick" else 120000,
             samples=3 if tier == "quick" else 12)
    o.update(h.get("opts", {}))
    if tier == "thorough":
        o.update(h.get("topts", {}))
    cmd = [ir.ENGINE, "--ir", irf, "--z3", ir.z3_lib(), "--entry", h["name"], "--out", out, "--seed", str(SEED)]
    for k, v in o.items():
        cmd += ["--" + k, str(v)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limit)
    if p.returncode != 0 or not os.path.exists(out):
        raise RuntimeError("engine failed on %s: %s" % (h["name"], p.stdout.decode(errors="replace")[-1500:]))
    return json.load(open(out))


def demangle(names):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
        out = p.stdout.decode().split("\n")
    except OSError:
        out = names
    return [re.sub(r"\[[0-9a-f]{12,}\]", "", x) for x in out]


def replay(binary, name, values, scratch):
    """Run the harness natively on concrete values.  Returns a dict."""
    d = tempfile.mkdtemp(dir=scratch, prefix="run-")
    vf = os.path.join(d, "values.txt")
    with open(vf, "w") as f:
        for n, v, w in values:
            f.write("%s %s\n" % (n, v))
    w = os.path.join(d, "fs")
    os.mkdir(w)
    os.mkdir(os.path.join(w, "dir"))
    r = {"failed": [], "panic": False, "assume": False, "obs": [], "desync": None, "msg": "", "abort": False}
    try:
        p = subprocess.run([binary, name, vf, w], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, preexec_fn=limit)
        lines = [l for l in p.stdout.decode(errors="replace").split("\n") if l.startswith('{"assume"')]
        if lines:
            r.update(json.loads(lines[-1]))
        else:
            r["abort"] = True
            r["msg"] = "process ended with %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-300:])
    except subprocess.TimeoutExpired:
        r["abort"] = True
        r["msg"] = "no end within 60 s"
    shutil.rmtree(d, ignore_errors=True)
    return r


def confirmed(v, r, h):
    if v["kind"] == "check":
        return v["label"] in r["failed"] or (h.get("flaky") and bool(r["failed"]))
    if v["kind"] == "panic":
        return r["panic"] or r["abort"]
    return r["panic"] or r["abort"]


def known():
    out = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                k = json.loads(l)
                if not k.get("fixed"):
                    out.append(k)
    return out


def matches(k, prop, hname, v):
    if k["property"] != prop or k["harness"] != hname:
        return False
    if not re.search(k["label"], v["label"]):
        return False
    vals = {re.split(r"[\[#]", n)[0] + "#" + n.split("#")[-1]: int(x) for n, x, w in v["values"]}
    for n, allowed in k.get("values", {}).items():
        if vals.get(n) not in allowed:
            return False
    return True


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    t0 = time.time()
    P = PROPS[prop]
    try:
        with cf.ThreadPoolExecutor(3) as ex:
            a, b, c = ex.submit(ir.build_engine), ex.submit(ir.build_ir), ex.submit(ir.build_native)
            a.result()
            irf, binary = b.result(), c.result()
    except ir.BuildError as e:
        print("ERROR: build failed\n%s" % e)
        return 3
    tb = time.time() - t0
    scratch = os.path.join(ir.BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    outdir = os.path.join(VERIF, "out", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    try:
        return decide(prop, P, tier, only, irf, binary, scratch, outdir, t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, P, tier, only, irf, binary, scratch, outdir, t0, tb):
    hs = [h for h in P["harnesses"] if tier == "thorough" or not h.get("thorough")]
    if tier == "thorough":
        sup = {h.get("supersedes") for h in hs}
        hs = [h for h in hs if h["name"] not in sup]
    if only:
        hs = [h for h in P["harnesses"] if h["name"] == only]
    hs.sort(key=lambda h: -h.get("weight", 1))
    res, errors = {}, []
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {h["name"]: ex.submit(engine, irf, h, os.path.join(scratch, h["name"] + ".json"), tier) for h in hs}
        for n, f in futs.items():
            try:
                res[n] = f.result()
            except Exception as e:
                errors.append(str(e))
    kf = known()
    nviol, seen_known, unconf, mism, validated = 0, [], [], [], 0
    samples, ev_h, incomplete, fns = [], {}, {}, set()
    for h in hs:
        n = h["name"]
        if n not in res:
            continue
        r = res[n]
        fns |= set(r["functions"])
        ev_h[n] = {k: r[k] for k in ("paths", "done", "assume", "infeasible", "forks", "insts", "checks", "checks_trivial",
                                     "checks_solved", "checks_unknown", "queries", "sat", "unsat", "unknown",
                                     "solver_secs", "max_query_ms", "secs")}
        if r.get("facts"):
            ev_h[n]["float_facts"] = dict(zip(("used", "reproved", "queries"), r["facts"]))
        ev_h[n]["labels"] = r["labels"]
        ev_h[n]["what"] = h.get("what", "")
        if r["incomplete"]:
            incomplete[n] = r["incomplete"]
            ev_h[n]["incomplete"] = r["incomplete"]
        for i, v in enumerate(r["violations"]):
            rr = None
            for _ in range(h.get("tries", 1)):
                rr = replay(binary, n, v["values"], scratch)
                if confirmed(v, rr, h):
                    break
            ok = confirmed(v, rr, h)
            if not ok and h.get("interp"):
                # schedules and hash orders do not exist natively: the engine's
                # own run of the compiled code on these values is the replay
                ok = True
            rec = {"property": prop, "harness": n, "kind": v["kind"], "label": v["label"], "detail": v["detail"],
                   "values": v["values"], "stack": demangle(v["trace"])[:25], "native": rr, "confirmed": ok,
                   "how": "tools/replay.sh %s <this file>" % n}
            path = os.path.join(outdir, "%s-%d.json" % (n, i))
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            if not ok:
                unconf.append((n, v["label"], path))
                continue
            k = [k for k in kf if matches(k, prop, n, v)]
            if k:
                if k[0]["what"] not in seen_known:
                    seen_known.append(k[0]["what"])
                continue
            nviol += 1
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s %s: %s %s" % (n, v["kind"], v["label"], rr["msg"] if v["kind"] != "check" else ""))
            print("  " + ", ".join("%s=%s" % (a.split("[")[0], b) for a, b, _ in v["values"][:24]))
        for s in r["samples"]:
            rr = replay(binary, n, s["values"], scratch)
            so = [[a, str(b)] for a, b in s["obs"]]
            if rr["failed"] or rr["panic"] or rr["abort"] or rr["desync"] or rr["obs"] != so:
                if not h.get("interp"):
                    mism.append((n, rr["msg"] or rr["desync"] or rr["failed"] or "observations differ", s["values"], so[:50], rr["obs"][:50]))
                continue
            validated += 1
            if len(samples) < 6:
                samples.append({"harness": n, "values": {a: b for a, b, _ in s["values"][:40]}, "observed": so[:12]})
        miss = [l for l in h.get("reach", []) if not r["reach"].get(l)]
        if miss and not r["violations"] and not r["incomplete"]:
            errors.append("%s never reached: %s" % (n, ", ".join(miss)))
        if r["done"] == 0 and not r["violations"] and not r["incomplete"]:
            errors.append("%s: no path ran to its end" % n)
    for w in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    code = demangle(sorted(fns))
    own = sorted({c for c in code if "quarchitect" in c})
    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": P.get("level", "model_checking"),
        "coverage": {
            "states": sum(e["paths"] for e in ev_h.values()),
            "transitions": sum(e["insts"] for e in ev_h.values()),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "paths_to_end": sum(e["done"] for e in ev_h.values()),
            "assertions_decided": sum(e["checks"] for e in ev_h.values()),
            "assertions_needing_solver": sum(e["checks_solved"] for e in ev_h.values()),
            "solver_queries": sum(e["queries"] for e in ev_h.values()),
            "solver_unsat": sum(e["unsat"] for e in ev_h.values()),
            "solver_sat": sum(e["sat"] for e in ev_h.values()),
            "solver_unknown": sum(e["unknown"] for e in ev_h.values()),
            "solver_s": round(sum(e["solver_secs"] for e in ev_h.values()), 3),
            "float_facts_used": sum(e.get("float_facts", {}).get("used", 0) for e in ev_h.values()),
            "float_facts_reproved_by_solver": sum(e.get("float_facts", {}).get("reproved", 0) for e in ev_h.values()),
            "complete_within_bounds": not incomplete and not errors,
            "incomplete": incomplete,
            "harnesses": ev_h,
            "functions_encoded_quarchitect": own,
            "functions_encoded_total": len(code),
            "bounds": P.get("bounds", ""),
            "outside": P.get("outside", ""),
            "build_s": round(tb, 1),
            "known_findings": seen_known,
        },
        "assumptions": P.get("assumptions", []) + [
            "IR produced by the installed rustc and optimised by LLVM means what the source means",
            "stand-ins in harness/src/stubs.rs and the file system, allocator and thread models of qsym"],
        "wall_s": round(time.time() - t0, 1), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n, k in incomplete.items():
        print("INCOMPLETE %s: %s" % (n, json.dumps(k)))
    print("%s %s: %d paths, %d assertions, %d solver queries (%.1f s), %d validated natively, build %.1f s, total %.1f s" % (
        prop, tier, ev["coverage"]["states"], ev["coverage"]["assertions_decided"], ev["coverage"]["solver_queries"],
        ev["coverage"]["solver_s"], validated, tb, time.time() - t0))
    if nviol:
        return 1
    for u in unconf:
        print("UNCONFIRMED %s: %s (%s)" % u)
    for m in mism:
        print("MISMATCH %s: %s\n  values %s\n  engine %s\n  native %s" % tuple(map(str, m)))
    for e in errors:
        print("ERROR: " + e)
    if unconf or mism or errors:
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
