"""Build the verification variants of circom from /repo's current working tree."""
import lzma, os, re, subprocess, sys, glob, shutil, fcntl, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
CARGO_HOME = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))


class BuildError(Exception):
    pass


def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def cargo_env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = e.get("VERIF_TOOLCHAIN", "stable")
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = "--cap-lints=allow"
    e.pop("CARGO_TARGET_DIR", None)
    return e


def registry_crate(name):
    c = sorted(glob.glob(os.path.join(CARGO_HOME, "registry/src/*/", name)))
    if not c:
        raise BuildError("crate source %s not in the cargo registry" % name)
    return c[0]


def bigint_version():
    with open(os.path.join(REPO, "Cargo.lock")) as f:
        m = re.search(r'name = "num-bigint-dig"\nversion = "([^"]+)"', f.read())
    return m.group(1) if m else "0.8.4"


def vendor_bigint():
    """copy num-bigint-dig out of the registry under another name"""
    ver = bigint_version()
    dst = os.path.join(BUILD, "vendor", "num-bigint-real-" + ver)
    if not os.path.exists(os.path.join(dst, ".done")):
        src = registry_crate("num-bigint-dig-" + ver)
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(src, dst)
        toml = open(os.path.join(src, "Cargo.toml")).read()
        toml = toml.replace('name = "num-bigint-dig"', 'name = "num-bigint-real"', 1)
        # keep only what is needed to build the library
        toml = re.sub(r"\[\[bench\]\][^\[]*", "", toml)
        toml = re.sub(r"\[dev-dependencies\.[^\]]*\][^\[]*", "", toml)
        if "[workspace]" not in toml:
            toml += "\n[workspace]\n"
        open(os.path.join(dst, "Cargo.toml"), "w").write(toml)
        open(os.path.join(dst, ".done"), "w").write("ok")
    return dst


def shim_dirs():
    real = vendor_bigint()
    d = os.path.join(BUILD, "shim")
    for c in ("bigint-shim", "threadpool-shim"):
        for root, _, files in os.walk(os.path.join(VERIF, "engine", c)):
            for fn in files:
                p = os.path.join(root, fn)
                rel = os.path.relpath(p, os.path.join(VERIF, "engine"))
                t = open(p).read()
                t = t.replace("REAL_PATH", real)
                if fn == "Cargo.toml" and c == "bigint-shim":
                    t = re.sub(r'version = "0\.8\.4"', 'version = "%s"' % bigint_version(), t, 1)
                write_if_changed(os.path.join(d, rel), t)
    return d


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def run_cargo(args, cwd, log):
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=cargo_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    with open(log, "w") as f:
        f.write(p.stdout)
    if p.returncode != 0:
        raise BuildError("cargo %s failed (log %s):\n%s" % (" ".join(args), log, p.stdout[-3000:]))


def parser_crate():
    """the parser crate over /repo's sources.  lalrpop's translation of the grammar file is kept, keyed by the
    grammar's hash (and lalrpop's version); for any other grammar the crate is built with its own build script."""
    src = os.path.join(REPO, "parser")
    with open(os.path.join(src, "src", "lang.lalrpop"), "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()
    cached = os.path.join(VERIF, "engine", "lang", h + ".rs.xz")
    with open(os.path.join(REPO, "Cargo.lock")) as f:
        ver = 'name = "lalrpop"\nversion = "0.19.12"' in f.read()
    if not os.path.exists(cached) or not ver:
        return src
    d = os.path.join(BUILD, "parser")
    toml = open(os.path.join(src, "Cargo.toml")).read()
    toml = re.sub(r'path\s*=\s*"\.\./', 'path = "%s/' % REPO, toml)
    toml = re.sub(r"\[build-dependencies\].*?(?=\n\[|\Z)", "", toml, flags=re.S)
    toml = re.sub(r"^build\s*=.*$", 'build = "build.rs"', toml, flags=re.M)
    toml += '\n[lib]\npath = "%s/src/lib.rs"\n' % src
    write_if_changed(os.path.join(d, "Cargo.toml"), toml)
    write_if_changed(os.path.join(d, "lang.rs"), lzma.open(cached, "rt").read())
    write_if_changed(os.path.join(d, "build.rs"), """fn main() {
    let o = std::env::var("OUT_DIR").unwrap();
    std::fs::copy("lang.rs", format!("{}/lang.rs", o)).unwrap();
    println!("cargo:rerun-if-changed=lang.rs");
}
""")
    return d


def sym_circom():
    """circom itself, with the integer type and the thread pool replaced by the
    symbolic engine's; every other line is /repo's."""
    with Lock("symcircom"):
        shim = shim_dirs()
        d = os.path.join(BUILD, "symcircom")
        toml = open(os.path.join(REPO, "circom", "Cargo.toml")).read()
        toml = re.sub(r'path\s*=\s*"\.\./', 'path = "%s/' % REPO, toml)
        toml = toml.replace('"%s/parser"' % REPO, '"%s"' % parser_crate())
        toml = re.sub(r'^readme.*$', '', toml, flags=re.M)
        toml += '\n[[bin]]\nname = "symcircom"\npath = "%s/circom/src/main.rs"\n' % REPO
        toml += '\n[workspace]\n[patch.crates-io]\n'
        toml += 'num-bigint-dig = { path = "%s/bigint-shim" }\n' % shim
        toml += 'threadpool = { path = "%s/threadpool-shim" }\n' % shim
        toml += '\n[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\ncodegen-units = 16\n'
        toml += 'overflow-checks = true\ndebug-assertions = true\n'
        for c in ('num-bigint-dig', 'num-bigint-real', 'circom_algebra', 'constraint_generation',
                  'constraint_list'):
            toml += '[profile.dev.package.%s]\nopt-level = 1\n' % c
        toml += '[profile.dev.build-override]\nopt-level = 0\n'
        write_if_changed(os.path.join(d, "Cargo.toml"), toml)
        lock = os.path.join(d, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy(os.path.join(REPO, "Cargo.lock"), lock)
        t = time.time()
        run_cargo(["build", "--offline", "--bin", "symcircom", "--target-dir", os.path.join(BUILD, "target-sym")],
                  d, os.path.join(BUILD, "symcircom.log"))
        return os.path.join(BUILD, "target-sym", "debug", "symcircom")


if __name__ == "__main__":
    t = time.time()
    print(sym_circom(), "%.1fs" % (time.time() - t))
