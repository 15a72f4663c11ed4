"""Compile a universe of declarations in parallel chunks, run the explorer on each, aggregate."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, time, tempfile
import base, model
from base import CheckError
from accept import HEAD


class Result:
    def __init__(self):
        self.programs = self.states = self.transitions = self.traces = self.cut = 0
        self.viols = []          # dicts: prog, decl, op, input, expected, got
        self.compile_fail = []   # dicts: prog, decl, errors
        self.samples = []

    def merge(self, o):
        self.programs += o.programs
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.cut += o.cut
        self.viols += o.viols
        self.compile_fail += o.compile_fail
        self.samples += o.samples[:2]


def _feats(name):
    on, opts = base.FEATS[name.split("@")[0]]
    return {s for s, f in (("dyn", "dyn_fns"), ("hex", "hex_fns")) if f in on} | ({"nopeq"} if "!default" in opts else set())


def run_chunk(b, types, modes, level, workdir, tag, attrs="", place=None):
    try:
        return _run_chunk(b, types, modes, level, workdir, tag, attrs, place)
    except base.Hang:
        b.endless(["\n".join(model.render(d) for d in model.deps(t)) for t in types], workdir, tag, attrs + HEAD, "rt::bondrewd")
        raise


def _run_chunk(b, types, modes, level, workdir, tag, attrs, place):
    res = Result()
    todo = list(types)
    exe = os.path.join(workdir, f"{tag}.bin")
    srcp = os.path.join(workdir, f"{tag}.rs")
    for attempt in range(8):
        if not todo:
            return res
        *libs, use = model.chunk_source(todo, _feats(b.feats), attrs, place)
        spans, extra, ok = {}, (), True
        for x in libs:
            p = os.path.join(workdir, f"{tag}-decls.rs")
            base.put(p, x.text())
            spans[p] = x.spans
            # --crate-name of its own, and metadata and code for the program behind
            lib = os.path.join(workdir, f"libdecls_{tag}.rlib")
            ok, diags = b.rustc(p, lib, ("--crate-type", "lib"), name=f"decls_{tag}")
            extra = ("--extern", f"decls={lib}")
            if not ok:
                break
        if ok:
            base.put(srcp, use.text())
            spans[srcp] = use.spans
            ok, diags = b.rustc(srcp, exe, extra)
        if ok:
            break
        bad = {}
        other = []
        for d in diags:
            if d.get("level") != "error":
                continue
            hit = None
            for sp in d.get("spans", []):
                s = sp
                while s is not None:
                    for lo, hi, n in spans.get(s["file_name"], ()):
                        if lo <= s["line_start"] <= hi:
                            hit = n
                            break
                    if hit:
                        break
                    e = s.get("expansion")
                    s = e["span"] if e else None
                if hit:
                    break
            if hit:
                bad.setdefault(hit, []).append(d.get("rendered") or d.get("message"))
            elif not d.get("message", "").startswith("aborting"):
                other.append(d.get("rendered") or d.get("message"))
        if not bad:
            raise CheckError("chunk does not compile and the errors name no declaration:\n" + "\n".join(other)[:4000]
                             + "\n".join(str(d.get("rendered"))[:500] for d in diags[:5] if d.get("level") == "raw"))
        by = {t.name: t for t in todo}
        allt = {d.name: d for t in todo for d in model.deps(t)}
        dropped = set()
        for n, errs in bad.items():
            for t in todo:
                if t.name == n or any(d.name == n for d in model.deps(t)):
                    dropped.add(t.name)
            tt = by.get(n) or allt.get(n)
            res.compile_fail.append({"prog": n, "decl": "\n".join(model.render(d) for d in model.deps(tt)) if tt else n,
                                     "errors": [e[:1500] for e in errs[:3]]})
        todo = [t for t in todo if t.name not in dropped]
    else:
        raise CheckError("chunk still does not compile after dropping the failing declarations")
    try:
        r = subprocess.run([exe, modes, str(level)], capture_output=True, text=True, timeout=base.EXPLORE_TIMEOUT)
    except subprocess.TimeoutExpired as e:
        dec = lambda x: x.decode(errors="replace") if isinstance(x, bytes) else x or ""
        r = subprocess.CompletedProcess(e.cmd, "endless", dec(e.stdout), dec(e.stderr))
    os.unlink(exe)
    done = False
    for line in r.stdout.splitlines():
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j["ev"] == "viol":
            res.viols.append(j)
        elif j["ev"] == "sample":
            res.samples.append(j["text"])
        elif j["ev"] == "stats":
            done = True
            res.programs += j["programs"]
            res.states += j["states"]
            res.transitions += j["transitions"]
            res.traces += j["traces"]
            res.cut += j["cut"]
    if not done:
        # the real code took the process down (stack overflow, abort) or does not return: the last
        # program named is it
        names = re.findall(r"^@(\w+)$", r.stderr, re.M)
        t = next((t for t in todo if names and t.name == names[-1]), None)
        if t is None or r.returncode == -9:
            raise CheckError(f"explorer died: rc={r.returncode} {r.stderr[-2000:]} {r.stdout[-500:]}")
        res.viols.append({"prog": t.name, "decl": "\n".join(model.render(d) for d in model.deps(t)), "op": "process", "input": "", "expected": "the operations return",
                          "got": f"exit status {r.returncode}: " + r.stderr[-300:]})
    return res


def explore(types, modes, level=0, feats="plain", chunk=120, jobs=None, keep=None, tag="x", attrs="", place=None):
    b = base.Base(feats)
    workdir = keep or tempfile.mkdtemp(prefix=f"chk-{tag}-", dir=_mk(os.path.join(base.BUILD, "work")))
    # small spaces are spread over the processors as well
    chunk = max(12, min(chunk, -(-len(types) // base.NPROC)))
    chunks = [types[i:i + chunk] for i in range(0, len(types), chunk)]
    # balance: round-robin instead of contiguous blocks
    k = max(1, len(chunks))
    chunks = [types[i::k] for i in range(k)]
    res = Result()
    try:
        with cf.ThreadPoolExecutor(jobs or base.NPROC) as ex:
            for r in ex.map(lambda a: run_chunk(b, a[1], modes, level, workdir, f"c{a[0]}", attrs, place), enumerate(chunks)):
                res.merge(r)
    finally:
        if not keep:
            shutil.rmtree(workdir, ignore_errors=True)
    return res


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d
