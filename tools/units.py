"""Builds: the engine, and each unit = LLVM IR of the real code + a native program for replay."""
import os, re, shutil, subprocess, threading

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SYMX_REPO", "/repo")
BUILD = os.environ.get("SYMX_BUILD", os.path.join(VERIF, "build"))
H = os.path.join(VERIF, "harness")


class BuildError(Exception):
    pass


def _env():
    if _env.c is None:
        o = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout.decode()
        e = dict(x.split("=", 1) for x in o.split("\0") if "=" in x)
        e.setdefault("RUSTUP_TOOLCHAIN", "stable")
        e["CARGO_NET_OFFLINE"] = "true"
        e.pop("CARGO_TARGET_DIR", None)
        e.pop("RUSTFLAGS", None)
        _env.c = e
    return _env.c


_env.c = None


def sh(cmd, cwd=None, env=None, timeout=800):
    e = dict(_env())
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str), executable="/bin/bash" if isinstance(cmd, str) else None)
    o = r.stdout.decode(errors="replace")
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (cmd, o[-3000:]))
    return o


def symx():
    return os.path.join(BUILD, "engine/release/symx")


_locks = {}
_ll = threading.Lock()


def once(f):
    done = {}

    def g(*a):
        with _ll:
            l = _locks.setdefault((f.__name__, a), threading.Lock())
        with l:
            if a not in done:
                done[a] = f(*a)
            return done[a]
    return g


@once
def build_engine():
    sh(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "symx"), env={"CARGO_TARGET_DIR": os.path.join(BUILD, "engine")})


@once
def sysroot():
    return sh(["rustc", "--print", "sysroot"]).strip()


def llvm_dis(bc, ll):
    sh([sysroot() + "/lib/rustlib/x86_64-unknown-linux-gnu/bin/llvm-dis", bc, "-o", ll])


@once
def native_obj():
    os.makedirs(BUILD, exist_ok=True)
    o = os.path.join(BUILD, "symx_native.o")
    sh(["clang-14", "-O1", "-c", "-I" + H + "/include", H + "/native/symx_native.c", "-o", o])
    return o


@once
def build_rust(crate):
    t = os.path.join(BUILD, "t-" + crate)
    d = os.path.join(H, crate)
    if REPO != "/repo":  # development aid: same harness against a scratch copy
        d2 = os.path.join(BUILD, "h-" + crate)
        shutil.rmtree(d2, ignore_errors=True)
        shutil.copytree(d, d2)
        p = os.path.join(d2, "Cargo.toml")
        s = open(p).read().replace("/repo/", REPO + "/").replace("\"../", "\"" + H + "/")
        open(p, "w").write(s)
        d = d2
    deps = os.path.join(t, "release/deps")
    for f in os.listdir(deps) if os.path.isdir(deps) else []:
        if f.startswith("h" + crate) and f.endswith(".ll"):
            os.remove(os.path.join(deps, f))
    cll, cobj = [], []
    for f in sorted(os.listdir(d)):
        if f.endswith(".c"):  # references written in C
            b = os.path.join(BUILD, crate + "-" + f[:-2])
            fl = ["-O1", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-I" + H + "/include"]
            sh(["clang-14"] + fl + ["-c", "-emit-llvm", os.path.join(d, f), "-o", b + ".bc"])
            sh(["clang-14"] + fl + ["-c", os.path.join(d, f), "-o", b + ".o"])
            llvm_dis(b + ".bc", b + ".ll")
            cll.append(b + ".ll")
            cobj.append(b + ".o")
    # touching main.rs makes cargo emit the IR again
    os.utime(os.path.join(d, "src/main.rs"))
    if os.path.exists(os.path.join(d, "build.rs")):
        os.utime(os.path.join(d, "build.rs"))
    sh(["cargo", "rustc", "--offline", "--release", "-q", "--", "-Awarnings", "--emit=llvm-ir,link", "-C", "link-arg=" + native_obj()] + [y for x in cobj for y in ("-C", "link-arg=" + x)], cwd=d, env={"CARGO_TARGET_DIR": t})
    ll = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("h" + crate) and f.endswith(".ll")]
    if len(ll) != 1:
        raise BuildError("expected one .ll, got %s" % ll)
    return dict(name=crate, ll=ll + cll, native=[os.path.join(t, "release/h" + crate)])


@once
def build_rust_lib(crate):
    """a crate of harnesses as a static library, and its IR"""
    t = os.path.join(BUILD, "t-" + crate)
    d = os.path.join(H, crate)
    if REPO != "/repo":
        d2 = os.path.join(BUILD, "h-" + crate)
        shutil.rmtree(d2, ignore_errors=True)
        shutil.copytree(d, d2)
        p = os.path.join(d2, "Cargo.toml")
        x = open(p).read().replace("/repo/", REPO + "/")
        open(p, "w").write(x)
        d = d2
    deps = os.path.join(t, "release/deps")
    for f in os.listdir(deps) if os.path.isdir(deps) else []:
        if f.startswith("h" + crate) and f.endswith(".ll"):
            os.remove(os.path.join(deps, f))
    os.utime(os.path.join(d, "src/lib.rs"))
    sh(["cargo", "rustc", "--offline", "--release", "-q", "--lib", "--", "-Awarnings", "--emit=llvm-ir,link"], cwd=d, env={"CARGO_TARGET_DIR": t})
    ll = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("h" + crate) and f.endswith(".ll")]
    if len(ll) != 1:
        raise BuildError("expected one .ll, got %s" % ll)
    return ll[0], os.path.join(t, "release/libh%s.a" % crate)


def apart(ll, other, out):
    """rename what both define, for putting two modules side by side"""
    defs = lambda t: set(re.findall(r'^(?:@|define [^@\n]*@)("[^"]*"|[\w.$-]+)', t, re.M))
    t = open(ll, errors="replace").read()
    both = defs(t) & defs(open(other, errors="replace").read())
    if both:
        t = re.sub(r'@("[^"]*"|[\w.$-]+)', lambda m: ("@b2." + m.group(1).strip('"')) if m.group(1) in both else m.group(0), t)
    with open(out, "w") as f:
        f.write(t)


@once
def build_c(name):
    src = os.path.join(H, "c", name + ".c")
    d = os.path.join(BUILD, "c-" + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    inc = ["-w", "-I" + H + "/include", "-I" + REPO + "/rt", "-U_FORTIFY_SOURCE"]
    # `@static NAME function`: the file-level static variable that a function of rt.c uses
    for nm, fn in re.findall(r"@static (\w+) (\w+)", open(src).read()):
        rt = re.sub(r"/\*.*?\*/|//[^\n]*", "", open(REPO + "/rt/rt.c").read(), flags=re.S)
        body = re.search(r"^\w[^\n;]*\b%s\([^\n]*\{\n.*?^\}" % fn, rt, re.S | re.M)
        vars_ = [v for v in re.findall(r"^static [\w ]*?(\w+)(?: = [^;]*)?;", rt, re.M) if body and re.search(r"\b%s\b" % v, body.group(0))]
        if len(vars_) == 1:
            inc = inc + ["-D%s=%s" % (nm, vars_[0])]
    flags = ["-O1", "-fno-inline", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-c", "-emit-llvm"]
    sh(["clang-14"] + flags + inc + [src, "-o", d + "/h.bc"])
    llvm_dis(d + "/h.bc", d + "/h.ll")
    txt = open(src).read()
    ents = sorted(set(re.findall(r"^void (h_\w+)\(", txt, re.M)))
    with open(d + "/main.c", "w") as f:
        f.write("#include <string.h>\n#include <stdlib.h>\n#include <stdint.h>\n")
        for e in ents:
            f.write("void %s(uint64_t, uint64_t);\n" % e)
        f.write("int main(int c, char **v) { uint64_t a = c > 2 ? strtoull(v[2], 0, 10) : 0, b = c > 3 ? strtoull(v[3], 0, 10) : 0;\n")
        for e in ents:
            f.write("  if (!strcmp(v[1], \"%s\")) { %s(a, b); return 0; }\n" % (e, e))
        f.write("  return 97; }\n")
    with open(d + "/gc.c", "w") as f:
        f.write("#include <stdlib.h>\nvoid *GC_malloc(size_t n) { return calloc(1, n); }\n")
    sh(["/usr/lib/llvm-18/bin/clang", "-O1", "-g", "-fsanitize=address", "-Wno-int-conversion"] + inc + [src, d + "/main.c", H + "/native/symx_native.c", d + "/gc.c", "-lm", "-o", d + "/native"])
    return dict(name="c-" + name, ll=[d + "/h.ll"], native=[d + "/native"])


def build(name):
    kind, _, x = name.partition(":")
    return {"rust": build_rust, "c": build_c, "llrl": build_llrl}[kind](x)



@once
def build_llrl0():
    """the compiler itself, from the current tree"""
    t = os.path.join(BUILD, "t-llrl0")
    sh(["cargo", "build", "--release", "--offline", "-q", "-p", "llrl0"], cwd=REPO, env={"CARGO_TARGET_DIR": t, "RUSTFLAGS": "-Awarnings", "CARGO_PROFILE_RELEASE_OPT_LEVEL": "0"})
    return os.path.join(t, "release/llrl0")


@once
def rt_bc():
    o = os.path.join(BUILD, "rt.bc")
    sh(["clang-14", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w", "-c", "-emit-llvm", "-I" + REPO + "/rt", "-U_FORTIFY_SOURCE", REPO + "/rt/rt.c", "-o", o])
    return o


def split_modules(text, d):
    """the LLVM modules that llrl0 -v prints after its optimizer ran, in order"""
    parts = re.split(r"^### (.*)$", text, flags=re.M)
    n = 0
    out = []
    for i in range(1, len(parts), 2):
        if parts[i].strip() == "optimized":
            n += 1
            p = os.path.join(d, "g%d.ll" % n)
            with open(p, "w") as f:
                f.write(parts[i + 1])
            out.append(p)
    return out


@once
def build_llrl(name):
    """name[.backend]: harness/llrl/<name>.llrl compiled by llrl0; IR of the program, std and the C runtime"""
    name, _, be = name.partition(".")
    be = be or "llvm"
    comp = build_llrl0()
    nat = native_obj()
    d = os.path.join(BUILD, "l-" + name + "-" + be)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copy(os.path.join(H, "llrl", name + ".llrl"), d)
    for x in os.listdir(os.path.join(H, "llrl")):
        if x.endswith(".llrl"):
            shutil.copy(os.path.join(H, "llrl", x), d)
    csrc = os.path.join(H, "llrl", name + ".c")
    extra, copts, over, rust = [], [], [], None
    if os.path.exists(csrc):
        inc = ["-w", "-I" + H + "/include", "-I" + H + "/llrl"]
        # `@override`: the C part defines functions of libc, and those of the runtime under the name h_NAME
        over = re.search(r"@override ([\w ]*)", open(csrc).read())
        over = over.group(1).split() if over else []
        rto = [x for x in over if x.startswith("llrt_")]
        rust = re.search(r"@rust (\w+)", open(csrc).read())
        sh(["clang-14", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-c", "-emit-llvm"] + ["-Dh_%s=%s" % (x, x) for x in rto] + inc + [csrc, "-o", d + "/c.bc"])
        sh(["clang-14", "-O1", "-c"] + inc + [csrc, "-o", d + "/c.o"])
        extra, copts = [d + "/c.bc"], ["-c", d + "/c.o"]
        if rto:
            copts += ["-c=-Wl,--allow-multiple-definition"] + ["-c=-Wl,--defsym=%s=h_%s" % (x, x) for x in rto]
    if rust:
        rust = build_rust_lib(rust.group(1))
        copts = copts + ["-c", rust[1], "-c=-lpthread", "-c=-ldl"]
    r = subprocess.run([comp, "-v", "-b", "llvm", "-o", "prog", "-c", nat] + [x for q in ("xten1", "llrl1") for x in ("-p", q + ":" + os.path.join(REPO, q))] + copts + [name], cwd=d, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    err = r.stderr.decode(errors="replace")
    if r.returncode != 0 or not os.path.exists(d + "/prog"):
        raise BuildError("llrl0 %s: %s" % (name, "\n".join(re.findall(r"^(?:~|std/|llrl1/|xten1/|Failed|/usr/bin/ld: .*undefined|thread|error|warning: rel).*$", err, re.M)[-20:]) or err[-1500:]))
    gs = split_modules(err, d)
    if over:
        extra = ["-override=" + x for x in extra]
    sh(["llvm-link-14"] + gs + [rt_bc()] + extra + ["-o", d + "/all.bc"])
    sh(["opt-14", "-passes=internalize,globaldce,function(sroa,early-cse,instsimplify,simplifycfg),always-inline,cgscc(inline),function(simplifycfg),globaldce", "-internalize-public-api-list=llrl_main", d + "/all.bc", "-o", d + "/h.bc"])
    llvm_dis(d + "/h.bc", d + "/h.ll")
    for g in gs:
        os.remove(g)
    os.remove(d + "/all.bc")
    lls = [d + "/h.ll"]
    if rust:
        apart(rust[0], d + "/h.ll", d + "/rust.ll")
        lls.append(d + "/rust.ll")
    return dict(name="l-" + name, ll=lls, native=[d + "/prog"])
