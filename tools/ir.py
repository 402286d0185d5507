"""Regenerates, from /repo's current source, the LLVM IR that qsym executes
and the native replay binary.  Outputs are cached under build/ by a hash of
everything they are made from."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
ENGINE = os.path.join(BUILD, "engine/release/qsym")

ENV = dict(os.environ)
ENV.update({
    "PATH": "/usr/local/bin:/root/.cargo/bin:" + os.environ.get("PATH", ""),
    "RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
    "RUSTC_WRAPPER": "", "CARGO_INCREMENTAL": "0",
})
for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_PROFILE_DEV_DEBUG"):
    ENV.pop(k, None)


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=900):
    p = subprocess.run(cmd, env=env or ENV, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd)[:400], p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout.decode(errors="replace")


def tree_hash():
    h = hashlib.sha256()
    files = []
    for root, pats in ((REPO, ("src", "Cargo.toml", "build.rs")), (VERIF, ("harness", "tools/ir.py"))):
        for p in pats:
            full = os.path.join(root, p)
            if os.path.isfile(full):
                files.append(full)
            for d, dirs, fs in os.walk(full):
                dirs[:] = [x for x in dirs if x != "target"]
                files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_engine():
    with Lock("engine"):
        sh(["cargo", "build", "--release", "--offline", "--quiet", "--target-dir", os.path.join(BUILD, "engine")],
           cwd=os.path.join(VERIF, "engine"))
    return ENGINE


def z3_lib():
    for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so",
              "/usr/lib/x86_64-linux-gnu/libz3.so"):
        if os.path.exists(p):
            return p
    raise BuildError("libz3 not found")


def llvm():
    root = sh(["rustc", "--print", "sysroot"]).strip()
    return root, os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin")


# library function (crate hashes normalised to "C") -> stand-in in harness/src/stubs.rs
STUBS = [
    (r"^_RNvNtNtC3std2io5stdio6__print$|^_RNvNtNtC3std2io5stdio6_print$", "qs_stub_print"),
    (r"^_RNvNtNtC3std2io5stdio7__?eprint$|^_RNvNtNtC3std2io5stdio8__?_eprint$", "qs_stub_eprint"),
    (r"^_RNvXs\d*_NtNtNtC4core3num11float_parsefNtNtNtB\w+_3str6traits7FromStr8from_str$|^_RNvXs\d*_NtNtC4core3num11float_parsefNtNtNtB\w+_3str6traits7FromStr8from_str$", "qs_stub_f32_from_str"),
    (r"^_RNvXs\w*_NtNtC4core3num11float_parsedNtNtNtB\w+_3str6traits7FromStr8from_str$", "qs_stub_f64_from_str"),
    (r"^_RNvXs\w*_NtNtC4core3fmt5floatfNtB\w+_7Display3fmt$", "qs_stub_f32_display"),
    (r"^_RNvXs\w*_NtNtC4core3fmt5floatfNtB\w+_5Debug3fmt$", "qs_stub_f32_debug"),
    (r"^_RNvXs\w*_NtNtC3std4hash6randomNtB\w+_13DefaultHasherNtNtC4core4hash6Hasher6finish$", "qs_stub_finish"),
] + [
    (r"^_RNvXs\w*_NtC4core3num%sNtNtNtB\w+_3str6traits7FromStr8from_str$" % c, "qs_stub_%s_from_str" % t)
    for c, t in (("l", "i32"), ("x", "i64"), ("m", "u32"), ("j", "usize"), ("a", "i8"), ("s", "i16"), ("i", "isize"),
                 ("n", "i128"), ("h", "u8"), ("t", "u16"), ("y", "u64"), ("o", "u128"))
] + [
    (r"^_RNvM\w*NtNtNtC4core3fmt3num3imp%s4_fmt$" % c, "qs_stub_%s_digits" % t)
    for c, t in (("m", "u32"), ("y", "u64"), ("j", "usize"), ("h", "u8"), ("t", "u16"))
] + [
    (r"^_RNvX(?:s\w*_)?NtNtNtC4core3fmt3num3imp%sNtB\w+_7Display3fmt$" % c, "qs_stub_%s_display" % t)
    for c, t in (("l", "i32"), ("x", "i64"), ("m", "u32"), ("j", "usize"), ("h", "u8"), ("a", "i8"), ("s", "i16"), ("i", "isize"),
                 ("t", "u16"), ("y", "u64"))
] + [
    (r"^_RNvXs\w*_NtNtC4core3fmt3num%sNtB\w+_5Debug3fmt$" % c, "qs_stub_%s_debug" % t)
    for c, t in (("l", "i32"), ("x", "i64"), ("m", "u32"), ("j", "usize"), ("h", "u8"))
]
STUBS = [(re.compile(a), b) for a, b in STUBS]
# functions the engine gives a meaning of its own: bodies are dropped
INTERCEPT = re.compile(
    r"^_RNvNtC4core9panicking(9panic_fmt|19panic_nounwind_fmt)$|^_RNvNtC5alloc5alloc18handle_alloc_error$"
    r"|^_RNvNtC3std7process(5abort|4exit)$|^_RNvNtC3std9panicking\w+$")


def norm(n):
    n = re.sub(r"(\.llvm)?\.\d+$", "", n)
    return re.sub(r"Cs[0-9A-Za-z]*_", "C", n)


SYM = re.compile(r'@"?([A-Za-z_][\w.$]*)"?')
DEF = re.compile(r'^define [^@]*@"?([\w.$]+)"?\(')


def rewrite(src, dst):
    defs = {}
    with open(src) as f:
        lines = f.readlines()
    for l in lines:
        if l.startswith("define "):
            m = DEF.match(l)
            if m:
                defs[m.group(1)] = norm(m.group(1))
    redir, drop, missing = {}, set(), []
    for n, k in defs.items():
        for rx, st in STUBS:
            if rx.match(k):
                redir[n] = st
        if INTERCEPT.match(k):
            drop.add(n)
    used = set(redir.values())
    missing = [b for _, b in STUBS if b not in used]
    for n in redir:
        if redir[n] not in defs:
            raise BuildError("stand-in %s is not in the IR" % redir[n])
    rx = re.compile("@(" + "|".join(re.escape(n) for n in sorted(redir, key=len, reverse=True)) + r")\b(?![.$])") if redir else None
    out, i, n = [], 0, len(lines)
    while i < n:
        l = lines[i]
        if l.startswith("define "):
            m = DEF.match(l)
            name = m.group(1) if m else ""
            body = [l]
            while lines[i].rstrip() != "}":
                i += 1
                body.append(lines[i])
            i += 1
            if name in drop:
                h = re.sub(r"^define (internal |hidden |private |linkonce_odr |weak_odr |available_externally |dso_local |unnamed_addr )*", "declare ", l)
                h = h[: h.rindex("{")]
                h = re.sub(r" (unnamed_addr|local_unnamed_addr)", "", h)
                h = re.sub(r" #\d+", "", h)
                h = re.sub(r" !\w+ !\d+", "", h)
                h = re.sub(r" personality.*$", "", h.rstrip())
                h = re.sub(r" (comdat(\([^)]*\))?|align \d+)\s*$", "", h.rstrip())
                out.append(h.rstrip() + "\n")
                continue
            if not name.startswith("qs_stub_") and rx:
                head = body[0]
                tail = [rx.sub(lambda m: "@" + redir[m.group(1)], x) if "@" in x else x for x in body[1:]]
                body = [head] + tail
            out += body
            continue
        if rx and l.startswith("@") and "@" in l[1:]:
            l = l[0] + rx.sub(lambda m: "@" + redir[m.group(1)], l[1:])
        out.append(l)
        i += 1
    with open(dst, "w") as f:
        f.writelines(out)
    return sorted(used), missing


def build_ir():
    """Returns the path of the IR for the current tree."""
    key = tree_hash()
    out = os.path.join(BUILD, "ir", key + ".ll")
    with Lock("ir"):
        if os.path.exists(out):
            return out
        os.makedirs(os.path.join(BUILD, "ir"), exist_ok=True)
        root, bindir = llvm()
        tgt = os.path.join(BUILD, "sym")
        env = dict(ENV)
        env.update({"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "-C linker-plugin-lto -C no-prepopulate-passes -Z inline-mir=no"})
        # cargo prints the artifacts, so that stale ones are not picked up
        log = sh(["cargo", "build", "--release", "--offline", "--target-dir", tgt, "--message-format=json", "--lib"],
                 env=env, cwd=os.path.join(VERIF, "harness/sym"))
        rlibs = []
        import json
        for l in log.splitlines():
            if l.startswith("{"):
                m = json.loads(l)
                if m.get("reason") == "compiler-artifact":
                    rlibs += [f for f in m["filenames"] if f.endswith(".rlib")]
        tmp = tempfile.mkdtemp(dir=BUILD, prefix="tmp-ir-")
        try:
            bcs = []
            for i, r in enumerate(rlibs):
                d = os.path.join(tmp, "r%d" % i)
                os.mkdir(d)
                sh([bindir + "/llvm-ar", "x", r], cwd=d)
                bcs += sorted(glob.glob(d + "/*.o"))
            std = sorted(glob.glob(root + "/lib/rustlib/x86_64-unknown-linux-gnu/lib/*.rlib"))
            for r in std:
                b = os.path.basename(r)
                if not re.match(r"lib(core|alloc|std|hashbrown|memchr|std_detect|cfg_if|rustc_demangle|adler2?|miniz_oxide)-", b):
                    continue
                d = os.path.join(tmp, b)
                os.mkdir(d)
                sh([bindir + "/llvm-ar", "x", r], cwd=d)
                for o in sorted(glob.glob(d + "/*.o")):
                    bc = o + ".bc"
                    p = subprocess.run([bindir + "/llvm-objcopy", "--dump-section=.llvmbc=" + bc, o, "/dev/null"],
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    if p.returncode == 0 and os.path.exists(bc) and os.path.getsize(bc) > 0:
                        bcs.append(bc)
            sh([bindir + "/llvm-link", "-o", tmp + "/all.bc"] + bcs, timeout=600)
            names = sorted(set(re.findall(r"\bh_[a-z0-9_]+", open(os.path.join(VERIF, "harness/src/lib.rs")).read())))
            keep = names + sorted(set(x for _, x in STUBS)) + ["malloc", "free"]
            sh([bindir + "/opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(keep),
                "-strip-debug", tmp + "/all.bc", "-o", tmp + "/red.bc"])
            sh([bindir + "/llvm-dis", tmp + "/red.bc", "-o", tmp + "/red.ll"])
            used, missing = rewrite(tmp + "/red.ll", tmp + "/rw.ll")
            sh([bindir + "/opt", "-passes=internalize,default<O2>", "-internalize-public-api-list=" + ",".join(names),
                "-vectorize-loops=false", "-vectorize-slp=false", tmp + "/rw.ll", "-o", tmp + "/fin.bc"])
            sh([bindir + "/llvm-dis", tmp + "/fin.bc", "-o", tmp + "/fin.ll"])
            with open(tmp + "/stubs.txt", "w") as f:
                f.write("used: %s\nnot referenced: %s\n" % (" ".join(used), " ".join(missing)))
            shutil.copy(tmp + "/stubs.txt", out + ".stubs")
            if os.environ.get("QS_KEEP"):
                shutil.copy(tmp + "/red.ll", os.path.join(BUILD, "red.ll"))
            # keep only the newest few
            old = sorted(glob.glob(os.path.join(BUILD, "ir", "*.ll")), key=os.path.getmtime)
            for o in old[:-3]:
                os.unlink(o)
            os.replace(tmp + "/fin.ll", out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def build_native():
    key = tree_hash()
    out = os.path.join(BUILD, "replay", key)
    with Lock("native"):
        if os.path.exists(out):
            return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        env = dict(ENV)
        env["RUSTC_BOOTSTRAP"] = "1"
        tgt = os.path.join(BUILD, "native")
        sh(["cargo", "build", "--release", "--offline", "--quiet", "--target-dir", tgt],
           env=env, cwd=os.path.join(VERIF, "harness/native"))
        for o in glob.glob(os.path.join(BUILD, "replay", "*")):
            os.unlink(o)
        shutil.copy(os.path.join(tgt, "release/qreplay"), out + ".tmp")
        os.replace(out + ".tmp", out)
    return out


if __name__ == "__main__":
    t = time.time()
    build_engine()
    print("engine %.1f" % (time.time() - t))
    t = time.time()
    print(build_ir(), "%.1f" % (time.time() - t))
    t = time.time()
    print(build_native(), "%.1f" % (time.time() - t))
