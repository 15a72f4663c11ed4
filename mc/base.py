"""Build infrastructure: bondrewd + bondrewd-derive from /repo's working tree, the runtime
crate `rt` (/verif/rt) and generated chunks, all offline, all output below /verif/build.

/repo's own manifest names a private registry, so manifests are generated here (the sources are
read in place from /repo); every feature of both crates can be enabled."""
import concurrent.futures as cf
import hashlib, json, os, shutil, subprocess, sys, time, tomllib, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not run (exit 2): never reported as a violation."""


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
    tc = "1.98.1-x86_64-unknown-linux-gnu"
    if os.path.isdir(f"/root/.rustup/toolchains/{tc}"):
        e["RUSTUP_TOOLCHAIN"] = tc
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
            h.update(b"\0")
    return h.hexdigest()


def repo_hash():
    return tree_hash(*(f"{REPO}/{m}/{p}" for m in ("bondrewd", "bondrewd-derive")
                       for p in ("src", "Cargo.toml")), f"{REPO}/README.md")


def _val(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {_val(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(map(_val, v)) + "]"
    return json.dumps(v)


def _table(name, items):
    return f"[{name}]\n" + "".join(f"{json.dumps(k)} = {_val(v)}\n" for k, v in items.items()) + "\n"


def gen_base(root):
    """Generated manifests for the two crates of /repo."""
    for member in ("bondrewd", "bondrewd-derive"):
        m = tomllib.load(open(f"{REPO}/{member}/Cargo.toml", "rb"))
        out = _table("package", {k: v for k, v in m["package"].items()
                                 if k in ("name", "version", "edition", "rust-version")})
        out += _table("lib", {**m.get("lib", {}), "path": f"{REPO}/{member}/src/lib.rs"})
        deps = {}
        for name, dep in m.get("dependencies", {}).items():
            if name == "bondrewd-derive":
                dep = {**dep, "path": "../bondrewd-derive"}
                dep.pop("registry", None)
                dep.pop("version", None)
            deps[name] = dep
        out += _table("dependencies", deps)
        out += _table("features", m.get("features", {}))
        put(f"{root}/{member}/Cargo.toml", out)


#: feature sets: name -> features of crate bondrewd (plus "derive" always), and of bondrewd-derive
FEATS = {
    "plain": (["std", "derive"], []),
    "all": (["std", "derive", "dyn_fns", "hex_fns"], []),
    "dyn": (["std", "derive", "dyn_fns"], []),
    "hex": (["std", "derive", "hex_fns"], []),
    "nostd": (["derive"], []),
    "nostd_hex": (["derive", "hex_fns"], []),
    "nostd_all": (["derive", "dyn_fns", "hex_fns"], []),
    "nopeq": (["std", "derive", "dyn_fns", "hex_fns"], ["!default"]),
    "bare": (["std", "derive"], ["!default"]),
    "nopeq_dyn": (["std", "derive", "dyn_fns"], ["!default"]),
    "nopeq_hex": (["std", "derive", "hex_fns"], ["!default"]),
    "nostd_dyn": (["derive", "dyn_fns"], []),
    "nostd_bare": (["derive"], ["!default"]),
    "nostd_nopeq_dyn": (["derive", "dyn_fns"], ["!default"]),
    "nostd_nopeq_hex": (["derive", "hex_fns"], ["!default"]),
    "nostd_nopeq": (["derive", "dyn_fns", "hex_fns"], ["!default"]),
}
#: the same with the macro built as in a release build, where its own arithmetic wraps around
RELEASE = "plain@release"



class Hang(CheckError):
    """rustc, and with it the derive, did not come to an end (or crashed)."""


class Endless(Exception):
    """The declaration the derive does not come to an end with."""

    def __init__(self, decl, feats, why):
        super().__init__(why)
        self.decl, self.feats = decl, feats


#: once an endless declaration is found, the other compilations are given up
FOUND = []


class BuildError(CheckError):
    """The crates do not compile with this feature set."""


#: a rustc or explorer run that takes longer than this does not end
RUSTC_TIMEOUT, EXPLORE_TIMEOUT = (240, 300) if TIER != "thorough" else (1200, 3600)


class Base:
    """The compiled crates for one feature set."""

    def __init__(self, feats):
        self.feats = feats
        self.root = os.path.join(BUILD, "base-" + feats)
        os.makedirs(self.root, exist_ok=True)
        self.lock = open(os.path.join(self.root, ".lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        try:
            self._build()
        finally:
            fcntl.flock(self.lock, fcntl.LOCK_UN)

    def _build(self):
        ws = self.root
        gen_base(ws)
        bf, df = FEATS[self.feats.split("@")[0]]
        p = f"{ws}/bondrewd/Cargo.toml"
        t = open(p).read()
        if "!default" in df:
            t2 = t.replace('"path" = "../bondrewd-derive"', '"default-features" = false, "path" = "../bondrewd-derive"')
            put(p, t2)
        put(f"{ws}/rt/Cargo.toml", f'''[package]
name = "rt"
version = "0.1.0"
edition = "2021"
[lib]
path = "{VERIF}/rt/src/lib.rs"
[dependencies]
bondrewd = {{ path = "../bondrewd", default-features = false, features = {json.dumps(bf)} }}
''')
        put(f"{ws}/Cargo.toml", '''[workspace]
members = ["bondrewd", "bondrewd-derive", "rt"]
resolver = "2"
[profile.dev]
debug = 0
[profile.dev.package.rt]
opt-level = 3
overflow-checks = true
''' + ("""[profile.dev.build-override]
overflow-checks = false
debug-assertions = false
""" if self.feats.endswith("@release") else ""))
        shutil.copyfile(f"{VERIF}/mc/Cargo.lock", f"{ws}/Cargo.lock")
        stamp = f"{ws}/stamp"
        self.hash = hashlib.sha256((repo_hash() + tree_hash(f"{VERIF}/rt/src") + self.feats).encode()).hexdigest()
        e = env()
        e["CARGO_TARGET_DIR"] = f"{ws}/target"
        if not os.path.exists(stamp) or open(stamp).read() != self.hash:
            # do not rely on mtimes to notice a change of the working tree
            subprocess.run(["cargo", "clean", "--offline", "-p", "bondrewd", "-p", "bondrewd-derive", "-p", "rt"],
                           cwd=ws, env=e, capture_output=True)
        r = subprocess.run(["cargo", "build", "--offline", "-p", "rt", "--message-format=json"],
                           cwd=ws, env=e, capture_output=True, text=True)
        if r.returncode != 0:
            msgs = []
            for line in r.stdout.splitlines():
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                if j.get("reason") == "compiler-message" and j["message"]["level"] == "error":
                    msgs.append(j["message"]["rendered"])
            raise BuildError("cannot build bondrewd from " + REPO + "\n" + "\n".join(msgs) + r.stderr[-3000:])
        self.art = {}
        for line in r.stdout.splitlines():
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if j.get("reason") == "compiler-artifact":
                n = j["target"]["name"].replace("-", "_")
                if n in ("bondrewd", "bondrewd_derive", "rt"):
                    for f in j["filenames"]:
                        if f.endswith((".rlib", ".so")):
                            self.art[n] = f
        if set(self.art) != {"bondrewd", "bondrewd_derive", "rt"}:
            raise CheckError(f"missing artifacts: {self.art}")
        put(stamp, self.hash)

    def rustc(self, src, out, extra=(), cap="allow", name="chunk", timeout=None):
        """Compile src to the binary out. Returns (ok, list of JSON diagnostics)."""
        a = ["rustc", "--edition", "2021", "--crate-name", name, src, "-o", out,
             "--extern", f"bondrewd={self.art['bondrewd']}", "--extern", f"rt={self.art['rt']}",
             "-L", f"dependency={self.root}/target/debug/deps", "--error-format=json", *(["--cap-lints", cap] if cap else []),
             "-C", "debuginfo=0", "-C", "overflow-checks=on", "-C", "debug-assertions=on", *extra]
        p = subprocess.Popen(a, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        end = time.time() + (timeout or RUSTC_TIMEOUT)
        while True:
            try:
                stderr = p.communicate(timeout=0.5)[1]
                break
            except subprocess.TimeoutExpired:
                if time.time() > end or FOUND:
                    p.kill()
                    p.communicate()
                    if FOUND:
                        raise FOUND[0]
                    raise Hang(f"rustc (or the derive) does not finish within {timeout or RUSTC_TIMEOUT} s on {src}")
        if p.returncode < 0:
            raise Hang(f"rustc (or the derive) ends with signal {-p.returncode} on {src}")
        diags = []
        for line in stderr.splitlines():
            try:
                diags.append(json.loads(line))
            except ValueError:
                diags.append({"level": "raw", "rendered": line, "message": line, "spans": []})
        return p.returncode == 0, diags

    def endless(self, decls, workdir, tag, head, via, seconds=25):
        """Halve the declarations down to the one rustc does not come to an end with, and raise it."""
        src = os.path.join(workdir, f"{tag}-endless.rs")

        def hangs(ds):
            put(src, head + "".join(f"mod m{i} {{ use {via} as bondrewd; use {via}::*;\n{d}\n}}\n" for i, d in enumerate(ds)))
            try:
                self.rustc(src, src + ".out", ("--emit=metadata",), timeout=seconds)
            except Hang as e:
                return str(e)
            return ""
        while len(decls) > 1:
            half = decls[:len(decls) // 2]
            decls = half if hangs(half) else decls[len(half):]
        why = hangs(decls)
        if why:
            FOUND.append(Endless(decls[0], self.feats, why.split(" on /")[0]))
            raise FOUND[0]
