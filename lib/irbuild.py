"""Compile the harness crate (and with it /repo's crate and std) to LLVM IR and prepare it for symex."""
import glob, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(VERIF, "harness")
SEC = os.path.join(VERIF, "harness-sec")  # the same with the real cryptography, for native runs
IDEAL = os.path.join(VERIF, "harness-ideal")  # feature set S: the DNSSEC harness over ideal cryptography
REPO = "/repo"
TARGET = "x86_64-unknown-linux-gnu"

# bodies replaced by declarations: everything that only runs once a panic is certain, and the
# environment the engine models itself (see DESIGN.md, "Modelled environment")
CUT = [
    re.compile(r"^_R\w*?Nt?C\w+?_4core9panicking"),
    re.compile(r"_4core9panicking"),
    re.compile(r"rust_begin_unwind$"),
    re.compile(r"_3std2io5stdio6__print$|_3std2io5stdio7__eprint$"),
    re.compile(r"_5alloc5alloc18handle_alloc_error"),
    re.compile(r"_5alloc7raw_vec17capacity_overflow$|_5alloc7raw_vec12handle_error$"),
    re.compile(r"_3std7process5abort$"),
    re.compile(r"_3std9panicking|_3std3sys9backtrace|_3std5panic|_3std6thread(?!5local)|_3std2rt|_3std12backtrace_rs|_3std9backtrace"),
    re.compile(r"19hashmap_random_keys$"),
    re.compile(r"_4core4hash3sip.*(13new_with_keys|6Hasher5write|6Hasher9write_str|6Hasher6finish|E5reset)"),
    re.compile(r"___rustc.*(rust_alloc|rust_realloc|rust_dealloc|rust_alloc_zeroed|no_alloc_shim)"),
    re.compile(r"_4core6option(13unwrap_failed|13expect_failed)$|_4core6result13unwrap_failed$"),
    re.compile(r"_4core5slice5index.*(_fail|_error)"),
    re.compile(r"_4core3str16slice_error_fail"),
]
NORETURN_ONLY = True


class BuildError(Exception):
    pass


def toolbin():
    root = subprocess.run(["rustc", "+stable", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
    return os.path.join(root, "lib/rustlib", TARGET, "bin")


def run(cmd, log, **kw):
    t = time.time()
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    with open(log, "a") as f:
        f.write("$ %s  [%.1fs, rc %d]\n%s%s\n" % (" ".join(cmd)[:400], time.time() - t, r.returncode, r.stdout[-4000:], r.stderr[-8000:]))
    return r


def cargo_env(ir):
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    if ir:
        env["RUSTC_BOOTSTRAP"] = "1"
        env["RUSTFLAGS"] = ("--emit=llvm-bc -Ccodegen-units=1 -Copt-level=2 -Cno-prepopulate-passes -Zinline-mir=no "
                            "-Coverflow-checks=on -Cdebug-assertions=off -Cdebuginfo=0 -Cpanic=abort -Csymbol-mangling-version=v0 -Ctarget-cpu=x86-64")
    return env


def forget(tdir):
    """the crates under test are always compiled again, whatever their time stamps say"""
    for pat in ("maybe-dns-*", "harness-*", "harness_sec-*", "harness-sec-*"):
        for d in glob.glob(os.path.join(tdir, "**", ".fingerprint", pat), recursive=True):
            shutil.rmtree(d, ignore_errors=True)


def build_ir(key, features, entries, log):
    """returns path of the .ll; entries: list of exported harness functions"""
    os.makedirs(BUILD, exist_ok=True)
    tdir = os.path.join(BUILD, "ir-target")
    forget(tdir)
    r = run(["cargo", "build", "--offline", "--lib", "--target", TARGET, "-Zbuild-std=std,panic_abort", "-Zbuild-std-features=", "--message-format=json", "--target-dir", tdir]
            + (["--features", ",".join(features)] if features else []), log, cwd=IDEAL if key == "S" else HARNESS, env=cargo_env(True))
    if r.returncode != 0:
        raise BuildError("cargo build (IR) failed, see " + log + "\n" + r.stderr[-3000:])
    deps = os.path.join(tdir, TARGET, "debug/deps")
    arts = {}
    for l in r.stdout.splitlines():
        if l.startswith("{"):
            for fn in json.loads(l).get("filenames", []):
                fn = os.path.basename(fn)
                if fn.startswith("lib") and fn.endswith((".rlib", ".rmeta")):
                    fn = fn[3:].rsplit(".", 1)[0]
                    arts.setdefault(fn.rsplit("-", 1)[0], []).append(fn)
    bcs = []
    for crate in ("harness", "maybe_dns", "core", "alloc", "std", "hashbrown", "memchr", "ring", "modular_bitfield", "untrusted", "getrandom", "spin", "once_cell",
                  "idealcore", "rsa", "dsa", "crrl", "md5", "sha1", "signature", "base64"):
        c = [os.path.join(deps, a + ".bc") for a in arts.get(crate, [])]
        c = [a for a in c if os.path.exists(a)]
        if c:
            bcs.append(c[-1])
        elif crate in ("harness", "maybe_dns", "core", "alloc", "std"):
            raise BuildError("no bitcode for " + crate)
    tb = toolbin()
    base = os.path.join(BUILD, "ir-" + key)
    def must(cmd):
        r = run(cmd, log)
        if r.returncode != 0:
            raise BuildError(" ".join(cmd[:1]) + " failed, see " + log + "\n" + r.stderr[-2000:])
    must([tb + "/llvm-link", "-o", base + ".all.bc"] + bcs)
    must([tb + "/opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries), base + ".all.bc", "-o", base + ".g.bc"])
    must([tb + "/llvm-dis", base + ".g.bc", "-o", base + ".g.ll"])
    cut(base + ".g.ll", base + ".c.ll")
    must([tb + "/opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries), base + ".c.ll", "-o", base + ".c.bc"])
    must([tb + "/llvm-dis", base + ".c.bc", "-o", base + ".c.ll"])
    must([tb + "/opt", "-passes=default<O2>,globaldce", "-vectorize-loops=false", "-vectorize-slp=false", base + ".c.bc", "-o", base + ".o.bc"])
    must([tb + "/llvm-dis", base + ".o.bc", "-o", base + ".ll"])
    linked = []
    with open(base + ".c.ll") as f:
        for l in f:
            if l.startswith("define "):
                m = re.search(r'@"?([\w.$]+)"?\(', l)
                if m and "9maybe_dns" in m.group(1):
                    linked.append(m.group(1))
    for ext in (".all.bc", ".g.bc", ".g.ll", ".c.ll", ".c.bc", ".o.bc"):
        try:
            os.unlink(base + ext)
        except OSError:
            pass
    return base + ".ll", linked


def cut(src, dst):
    name = re.compile(r'@"?([\w.$]+)"?\(')
    with open(src) as f, open(dst, "w") as o:
        it = iter(f)
        for l in it:
            if l.startswith("define "):
                m = name.search(l)
                n = m.group(1) if m else ""
                if any(c.search(n) for c in CUT):
                    head = l.rstrip().rstrip("{").rstrip()
                    head = re.sub(r"^define (internal |private |hidden |linkonce_odr |weak_odr |dso_local |protected )*", "declare ", head)
                    head = re.sub(r" personality ptr @[\w.$]+", "", head)
                    head = re.sub(r" (comdat(\([^)]*\))?|unnamed_addr|local_unnamed_addr|align \d+ (?=#)|section \"[^\"]*\")", lambda k: "" if not k.group(1).startswith(("unnamed", "local")) else " " + k.group(1), head)
                    head = re.sub(r" !\w+ !\d+", "", head)
                    o.write(head + "\n")
                    for b in it:
                        if b.startswith("}"):
                            break
                    continue
            o.write(l)


if __name__ == "__main__":
    ents = re.findall(r"pub extern \"C\" fn (h_\w+)", "".join(open(f).read() for f in glob.glob(HARNESS + "/src/*.rs"))) or ["h_packet"]
    t = time.time()
    f = {"F": ["mdns", "dnssec"], "D": [], "S": []}[sys.argv[1]]
    print(build_ir(sys.argv[1], f, ents, "/tmp/irbuild.log")[0], time.time() - t)
