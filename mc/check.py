"""check.py Cxx            decide one property (tier from VERIF_TIER), write evidence/Cxx.json
   check.py --replay FILE  run a recorded violation again
   check.py --setup        build the crates once (setup_cmd)
exit status: 0 held on everything explored, 1 violated, 2 the check itself could not run"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import base, model, run, universe, rules, accept
from model import F, V, Struct, Enum, PrimEnum, Equiv  # noqa: replay files are expressions over these

FULL = base.TIER == "thorough"
EVID = os.path.join(base.VERIF, "evidence")
REPLAY = os.path.join(EVID, "replay")
KNOWN = os.path.join(base.VERIF, "known-findings.txt")


# ---------------------------------------------------------------- stages

def every(k, off=0):
    """every k-th declaration in the quick tier, all of them in the thorough one"""
    return lambda types: types if FULL else types[off::k]


def only(pred):
    return lambda types: [t for t in types if pred(t)]


def both(f, g):
    return lambda types: g(f(types))


class X:
    """Explore the transition systems of a space of declarations in lockstep with the model."""

    def __init__(self, space, modes, pick=None, feats="plain", level=(0, 1), wide=False, crate_attrs="", place=None):
        self.space, self.modes, self.pick, self.feats, self.level = space, modes, pick, feats, level
        self.wide = wide          # the thorough space in the quick tier as well
        self.crate_attrs = crate_attrs
        self.place = place        # where the declarations stand (model.PLACES)

    def run(self, chk):
        types = getattr(universe, self.space)(FULL or self.wide)
        if self.pick:
            types = self.pick(types)
        lv = self.level[1] if FULL else self.level[0]
        r = run.explore(types, self.modes, lv, self.feats, tag=chk.pid, attrs=self.crate_attrs, place=self.place)
        chk.programs += r.programs
        chk.states += r.states
        chk.transitions += r.transitions
        chk.traces += r.traces
        chk.samples += r.samples[:3]
        by = {}
        for t in types:
            for d in model.deps(t):
                by.setdefault(d.name, t)
            by[t.name] = t
        if isinstance(types[0], Equiv):
            for t in types:
                by[t.name] = t
        for v in r.viols:
            t = by.get(v["prog"])
            chk.violation(dict(kind="explore", space=self.space, modes=self.modes, level=lv, feats=self.feats, attrs=self.crate_attrs, place=self.place,
                               prog=v["prog"], decl=v["decl"], op=v["op"], input=v["input"], expected=v["expected"], got=v["got"], type=repr(t)))
        for v in r.compile_fail:
            t = by.get(v["prog"])
            chk.violation(dict(kind="explore", space=self.space, modes=self.modes, level=lv, feats=self.feats, attrs=self.crate_attrs, place=self.place,
                               prog=v["prog"], decl=v["decl"], op="derive", input="", expected="the declaration is accepted and its code compiles",
                               got="\n".join(v["errors"]), type=repr(t)))
        chk.bounds.append(f"{self.space}{'' if not self.pick or FULL else ' (selection)'}: {len(types)} declarations, modes {self.modes}, level {lv}, features {self.feats}{' ' + self.crate_attrs.strip() if self.crate_attrs else ''}{', used from outside: ' + self.place if self.place else ''}"
                          + (f"; {r.cut} write histories cut off below the first layer" if r.cut else ""))


class Each(X):
    """As X, with one violation for each declaration that says which variants (or fields) fail: what a
    declaration that is a known finding is identified by."""

    def run(self, chk):
        mine = Check(chk.pid)
        super().run(mine)
        by = {}
        for v in mine.viols:
            by.setdefault((v["prog"], v["op"] == "derive"), []).append(v)
        for vs in by.values():
            what = sorted({v["input"].split("(")[0] for v in vs})
            chk.violation(dict(vs[0], op=vs[0]["op"] if vs[0]["op"] == "derive" else self.modes, input=", ".join(what)))
        for a in ("programs", "states", "transitions", "traces", "samples", "bounds"):
            setattr(chk, a, getattr(chk, a) + getattr(mine, a))


class A:
    """Decide the acceptance of every declaration of a space."""

    def __init__(self, space, pred=None, feats="plain"):
        self.space, self.pred, self.feats = space, pred, feats

    def run(self, chk):
        decls = rules.ALL[self.space](FULL)
        if self.pred:
            decls = [d for d in decls if self.pred(d)]
        errs, rounds = accept.judge(decls, self.feats)
        chk.states += len(decls)
        chk.transitions += rounds
        for d, e in zip(decls, errs):
            acc = not e
            if d.want is None:
                continue
            if acc == d.want:
                # an accepted declaration's size constants were evaluated against the model's
                chk.traces += acc and d.size is not None
                chk.rejected += not acc
                continue
            chk.violation(dict(kind="accept", space=self.space, feats=self.feats, prog="T", decl=d.src, op=d.rule, input="", want=d.want, size=d.size,
                               expected="accepted" + (f" with BIT_SIZE {d.size[1]} and BYTE_SIZE {d.size[2]}" if d.size else "") if d.want else "a compile error",
                               got="accepted" if acc else "\n".join(e[:2])))
        k = next((d for d in decls if d.want is False), None)
        for d in (decls[len(decls) // 2], k):
            if d:
                chk.samples.append(f"{d.rule}: {d.src.replace(chr(10), ' ')} -> {'accepted' if d.want else 'rejected'}")
        chk.bounds.append(f"rules.{self.space}: {len(decls)} declarations, each accepted or rejected by the real derive, features {self.feats}")


class Bare:
    """The declarations and what is derived from them compile without std and without unsafe code. The
    crate brings its own panic handler, so nothing it depends on may link std either."""
    HEAD = ("#![no_std]\n#![forbid(unsafe_code)]\n#![crate_type = \"lib\"]\n"
            "#![allow(dead_code, deprecated, unused, non_camel_case_types, overlapping_range_endpoints, unreachable_patterns)]\n"
            "#[panic_handler]\nfn stop(_: &core::panic::PanicInfo) -> ! { loop {} }\n")

    def __init__(self, space, feats):
        self.space, self.feats = space, feats

    def run(self, chk):
        types = getattr(universe, self.space)(FULL)
        decls = [accept.D("no_std", "\n".join(model.render(d) for d in model.deps(t)), True) for t in types]
        b = base.Base(self.feats)
        # bondrewd itself, with nothing derived
        probe = os.path.join(b.root, "probe.rs")
        base.put(probe, self.HEAD + "extern crate bondrewd;\n")
        ok, diags = b.rustc(probe, probe + ".out", ("--emit=metadata",))
        chk.states += 1
        if not ok:
            chk.violation(dict(kind="build", feats=self.feats, prog="bondrewd", decl=self.HEAD + "extern crate bondrewd;", op="no_std", input=self.feats,
                               expected="a crate without std that brings its own panic handler can use bondrewd", got="\n".join(str(d.get("rendered")) for d in diags)[:1500]))
            return
        errs, rounds = accept.judge(decls, self.feats, head=self.HEAD, via="::bondrewd")
        chk.states += len(decls)
        chk.transitions += rounds
        for d, e in zip(decls, errs):
            if e:
                chk.violation(dict(kind="accept", space=self.space, feats=self.feats, prog="T", decl=d.src, op="no_std", input="", want=True, size=None, head=self.HEAD, via="::bondrewd",
                                   expected="compiles with #![no_std] and #![forbid(unsafe_code)]", got="\n".join(e[:2])))
        chk.bounds.append(f"{self.space}: {len(types)} declarations compiled under #![no_std] #![forbid(unsafe_code)] with an own panic handler, features {self.feats}")


class Errors:
    """The values of the error types: what they print, convert to, and (with std) are."""

    def __init__(self, feats):
        self.feats = feats

    def run(self, chk):
        b = base.Base(self.feats)
        src = os.path.join(base.VERIF, "mc", "errors.rs")
        exe = os.path.join(b.root, f"errors-{chk.pid}")
        on = base.FEATS[self.feats][0]
        cfgs = [x for f, c in (("std", "with_std"), ("dyn_fns", "with_dyn"), ("hex_fns", "with_hex")) if f in on for x in ("--cfg", c)]
        ok, diags = b.rustc(src, exe, cfgs)
        v = dict(kind="errors", feats=self.feats, prog="errors", decl=f"features {on}")
        if not ok:
            chk.violation(dict(v, op="types", input=self.feats, expected="the error types offer Display, Debug, From and with std std::error::Error",
                               got="\n".join(str(d.get("rendered")) for d in diags)[:1500]))
            return
        r = base.subprocess.run([exe], capture_output=True, text=True, timeout=base.EXPLORE_TIMEOUT)
        os.unlink(exe)
        done = False
        for line in r.stdout.splitlines():
            w = line.split("\t")
            if w[0] == "BAD":
                chk.violation(dict(v, op=w[1], input=w[2], expected=w[3], got=w[4]))
            elif w[0] == "DONE":
                done = True
                chk.states += int(w[1])
                chk.transitions += int(w[2])
        if not done:
            chk.violation(dict(v, op="Display", input=self.feats, expected="the operations return", got=r.stderr[-500:]))
        chk.bounds.append(f"error types: all values over an alphabet of numbers and all characters below 256, features {self.feats}")


class Builds:
    """Both crates compile with every feature set (the working tree that does not compile with the
    default ones cannot be checked at all)."""

    def run(self, chk):
        base.Base("plain")
        for f in base.FEATS:
            chk.states += 1
            chk.transitions += 1
            try:
                base.Base(f)
            except base.BuildError as e:
                chk.violation(dict(kind="build", feats=f, prog="bondrewd", decl=f"features {base.FEATS[f]}", op="build", input=f, expected="bondrewd and bondrewd-derive compile", got=str(e)[:1500]))
        chk.bounds.append(f"both crates built with each of {len(base.FEATS)} feature sets")


# ---------------------------------------------------------------- the properties

def fields_of(t):
    return [f for v in t.variants for f in v.fields] if t.is_enum else t.fields


def signed(t):
    return any(isinstance(f.ty, str) and f.ty[0] == "i" for f in fields_of(t))



def holds_nested(t):
    return any(not isinstance(f.ty, (str, PrimEnum)) for f in fields_of(t))


def holds_array(t):
    return any(f.arr for f in t.fields)


def holds_prim(t):
    return any(isinstance(f.ty, PrimEnum) for f in t.fields)


def captures(t):
    return t.is_enum and any(f.capture for f in fields_of(t))


NOT_IDS = ("id", "invalid", "capture")
CHECKS = {
    "C01": [X("scalars", "into"), X("cells", "into"), X("small_pairs", "into", level=(1, 2)), X("mixed", "into"), X("arrays", "into"), X("nested", "into"), X("prims", "into"), X("sequences", "into"), X("combos", "into"), X("large", "into"), X("roles", "into", every(3, 1))],
    "C02": [X("scalars", "round"), X("cells", "round", every(2)), X("small_pairs", "round", level=(1, 2)), X("mixed", "round"), X("arrays", "round"), X("nested", "round"),
            X("enums", "round"), X("id_cells", "round", every(2)), X("enum_ids", "round"), X("enum_fields", "round"), X("variants", "round"), X("prims", "round"), X("sequences", "round"), X("enum_combos", "round"), X("combos", "round"), X("large", "round"), X("roles", "round", every(2))],
    "C03": [X("scalars", "reads"), X("cells", "reads"), X("id_cells", "reads", every(2, 1)), X("small_pairs", "reads", level=(2, 2)), X("mixed", "reads"), X("arrays", "reads"), X("nested", "reads"), X("prims", "reads"), X("variants", "reads", every(3)), X("sequences", "reads"), X("enum_combos", "reads"), X("combos", "reads"), X("large", "reads"), X("roles", "reads", every(3))],
    "C04": [X("scalars", "writes"), X("cells", "writes"), X("small_pairs", "writes", level=(1, 2)), X("mixed", "writes"), X("arrays", "writes"), X("nested", "writes"),
            X("enums", "writes"), X("id_cells", "writes", every(2)), X("enum_fields", "writes"), X("variants", "writes"), X("prims", "writes"), X("sequences", "writes"), X("enum_combos", "writes"), X("combos", "writes"), X("large", "writes"), X("roles", "writes", every(2))],
    "C05": [X("enums", "into,round,reads,writes,ids,sizes"), X("id_cells", "into,round,reads,writes,ids,sizes"), X("enum_ids", "into,round,reads,ids"), X("enum_fields", "into,round,reads,writes,ids"), X("variants", "into,round,reads,writes,ids,sizes"),
            X("variant_modes", "into,round,reads,writes,ids,sizes"), Each("variant_directions", "round"), X("enum_combos", "into,round,reads,writes,ids,sizes", wide=True), X("combos", "into,round,reads,writes,ids,sizes", only(lambda t: t.is_enum)), X("large", "into,round,reads,writes,ids,sizes", only(lambda t: t.is_enum))],
    "C06": [X("captures", "into,round,reads,writes,ids"), X("id_cells", "into,round,reads,writes,ids", only(captures)), X("enum_ids", "into,round,reads,ids", only(captures)), X("variants", "into,round,reads,ids", only(captures)), X("enum_combos", "into,round,reads,writes,ids", only(captures)), X("combos", "into,round,reads,writes,ids", only(captures)), X("large", "into,round,reads,writes,ids", only(captures)), A("ids", lambda d: d.rule.startswith("capture"))],
    "C07": [X("prim_enums", ""), X("prims", "into,round,reads,writes"), X("cells", "into,round,reads,writes", both(only(holds_prim), every(2))), A("prim")],
    "C08": [X("small_pairs", "hex", every(4), "all"), X("mixed", "hex", every(2), "all"), X("enums", "hex", every(2), "all"), X("variants", "hex", every(6, 1), "all"), X("scalars", "hex", every(40, 7), "hex"),
            X("nested", "hex", every(20), "all"), X("fills", "hex", every(8), "nostd_hex"), X("roles", "hex", every(20), "all"), X("enum_combos", "hex", every(5), "hex"), X("combos", "hex", every(16, 3), "hex"), X("large", "hex", every(10, 4), "hex"), Errors("all"), Errors("hex")],
    "C09": [X("scalars", "slices", every(20, 3), "dyn"), X("mixed", "slices", every(2), "dyn"), X("enums", "slices", None, "dyn"), X("id_cells", "slices", every(8), "dyn"), X("enum_ids", "slices", every(3, 1), "dyn"), X("variants", "slices", every(4, 2), "dyn"),
            X("roles", "slices", every(3), "dyn"), X("fills", "slices", every(3), "dyn"), X("nested", "slices", every(10), "dyn"), X("arrays", "slices", every(12), "dyn"), X("enum_combos", "slices", every(2), "dyn"), X("sequences", "slices", every(12, 5), "dyn"), X("combos", "slices", every(6, 1), "dyn"), X("large", "slices", every(4, 2), "dyn"), Errors("dyn")],
    "C10": [X("scalars", "sizes", every(8)), X("cells", "sizes", every(12)), X("arrays", "sizes", every(2)), X("nested", "sizes", every(2)), X("roles", "sizes", every(2)), X("enums", "sizes"), X("id_cells", "sizes", every(4)), X("enum_fields", "sizes"), X("variants", "sizes"), X("enum_combos", "sizes"), X("sequences", "sizes"), X("combos", "sizes"), X("large", "sizes", every(2)),
            X("fills", "into,round,reads,writes,sizes"), A("lengths", lambda d: d.want)],
    "C11": [X("roles", "into,round,reads,writes,sizes,total"), X("role_cells", "into,round,reads,writes,sizes,total"), X("variants", "into,round,reads,writes,sizes,total", only(lambda t: any(f.reserve or f.read_only or f.redundant for f in fields_of(t)))), X("sequences", "into,round,reads,writes,sizes,total", both(only(lambda t: any(f.reserve or f.read_only for f in fields_of(t))), every(2))), X("combos", "into,round,reads,writes,sizes,total", only(lambda t: any(f.reserve or f.read_only or f.redundant for f in fields_of(t)))), X("large", "into,round,reads,writes,sizes,total", only(lambda t: not t.is_enum and any(f.reserve or f.read_only or f.redundant for f in t.fields)))],
    "C12": [X("arrays", "into,round,reads,writes,sizes"), X("cells", "into,reads,writes", both(only(holds_array), every(3, 1))), X("arrays", "into,reads,writes", every(9, 4), wide=True), X("combos", "into,round,reads,writes", only(lambda t: any(f.arr and f.name == "f" for f in fields_of(t)))), X("large", "into,round,reads,writes", only(lambda t: not t.is_enum and any(f.arr and f.arr[1] > 3 for f in t.fields))), X("forms", "into,round,reads,writes,sizes")],
    "C13": [X("nested", "into,round,reads,writes,sizes"), X("cells", "into,reads,writes", both(only(holds_nested), every(2))), X("nested", "into,reads,writes", every(5, 2), wide=True), X("combos", "into,round,reads,writes,sizes", only(holds_nested)), X("large", "into,round,reads,writes,sizes", only(holds_nested)), X("forms", "into,round,reads,writes,sizes", only(holds_nested)), X("enum_fields", "into,round,reads,writes"), A("kinds", lambda d: "nested" in d.rule or d.rule == "struct_size")],
    "C14": [A("lengths", feats=f) for f in ("plain", base.RELEASE)] + [A("kinds", feats=f) for f in ("plain", base.RELEASE)] + [A("prim", feats=f) for f in ("plain", base.RELEASE)]
           + [A("ids", lambda d: not d.rule.startswith("ids"), f) for f in ("plain", base.RELEASE)] + [A("contexts", feats=f) for f in ("plain", base.RELEASE)],
    "C15": [X("scalars", "total", every(4, 1)), X("cells", "total", every(4, 1)), X("mixed", "total"), X("arrays", "total", every(4, 1)), X("nested", "total", every(3)), X("enums", "total"), X("id_cells", "total", every(3)), X("enum_ids", "total", every(2)),
            X("enum_fields", "total"), X("variants", "total", every(2)), X("roles", "total", every(3, 1)), X("prims", "total", every(2)), X("enum_combos", "total"), X("combos", "total", every(2)), X("large", "total", every(2, 1)), X("small_pairs", "total", level=(2, 2))],
    "C16": [X("equivs", "", every(2))],
    "C17": [X("enums", "peq", None, "all"), X("id_cells", "peq", every(2), "all"), X("enum_ids", "peq", None, "dyn"), X("captures", "peq", every(2), "plain"), X("variants", "peq", every(2, 1), "all"), X("enum_combos", "peq", None, "all"), X("combos", "peq", both(only(lambda t: t.is_enum), every(6, 1)), "all"), X("large", "peq", only(lambda t: t.is_enum), "plain"), X("enum_ids", "peq", every(3, 1), "hex"), X("prim_enums", "", only(lambda t: t.partial_eq), "all")],
    "C18": [Builds()] + [X("features", "into,round,reads,writes,sizes,ids" + (",dyn" if "dyn" in run._feats(f) else "") + (",hex" if "hex" in run._feats(f) else "") + ("" if "nopeq" in run._feats(f) else ",peq"), None, f, (0, 0),
                                  crate_attrs="#![forbid(unsafe_code)]") for f in base.FEATS]
           + [X("features", "into,round,reads,writes,sizes,ids,peq", None, base.RELEASE, (0, 0))] + [Errors(f) for f in base.FEATS] + [Bare("features", f) for f in base.FEATS if f.startswith("nostd")],
    "C19": [X("scalars", "slice_fields", every(8, 5), "dyn"), X("cells", "slice_fields", every(9, 5), "dyn"), X("mixed", "slice_fields", every(2, 1), "dyn"), X("enums", "slice_fields", every(2), "dyn"), X("id_cells", "slice_fields", every(5), "dyn"), X("enum_fields", "slice_fields", None, "dyn"), X("variants", "slice_fields", every(4, 1), "dyn"),
            X("roles", "slice_fields", every(4), "dyn"), X("role_cells", "slice_fields", every(4, 3), "dyn"), X("nested", "slice_fields", every(8, 3), "dyn"), X("arrays", "slice_fields", every(8, 3), "dyn"), X("prims", "slice_fields", every(6), "dyn"), X("enum_combos", "slice_fields", every(2), "dyn"), X("sequences", "slice_fields", every(10, 3), "dyn"), X("combos", "slice_fields", every(6, 5), "dyn"), X("large", "slice_fields", every(5, 3), "dyn")],
    "C20": [X("scalars", "checked", every(16, 5), "dyn"), X("cells", "checked", every(12, 7), "dyn"), X("mixed", "checked", every(2), "dyn"), X("enums", "checked", every(2, 1), "dyn"), X("id_cells", "checked", every(10, 3), "dyn"), X("enum_fields", "checked", every(2), "dyn"), X("variants", "checked", every(4, 3), "dyn"),
            X("roles", "checked", every(5), "dyn"), X("role_cells", "checked", every(8, 1), "dyn"), X("nested", "checked", every(10, 3), "dyn"), X("arrays", "checked", every(10, 3), "dyn"), X("prims", "checked", every(8), "dyn"), X("enum_combos", "checked", every(3), "dyn"), X("sequences", "checked", every(14, 3), "dyn"), X("combos", "checked", every(8, 3), "dyn"), X("large", "checked", every(6, 1), "dyn")],
    "C21": [A(r, feats=f) for r in ("enforce", "enforced") for f in ("plain", base.RELEASE)],
    "C22": [A(r, feats=f) for r in ("ranges", "clashes") for f in ("plain", base.RELEASE)],
    "C23": [A("ids", lambda d: d.rule.startswith(("ids", "id ", "invalid")), f) for f in ("plain", base.RELEASE)] + [ X("enum_ids", "ids,sizes", None, level=(0, 1)), X("id_cells", "ids,sizes"), X("variants", "ids,sizes"), X("enum_combos", "ids,sizes"), X("large", "ids,sizes", only(lambda t: t.is_enum))],
    "C24": [X("signs", "into,round,reads,writes"), X("cells", "into,reads,writes", both(only(signed), every(3))),
            X("arrays", "into,round,reads,writes", both(only(signed), every(2))), X("enums", "into,round,reads,writes", only(signed)), X("variants", "into,round,reads,writes", both(only(signed), every(4, 1))),
            X("roles", "into,round,reads,writes", both(only(signed), every(3, 2))), X("combos", "into,round,reads,writes", only(signed)), X("large", "into,round,reads,writes", only(signed))],
    "C26": [X("features", "into,round,reads,writes,sizes,ids,dyn,hex,peq", None if p == "crate" else every(2, k % 2), "all", (0, 0), place=p) for k, p in enumerate(model.PLACES)]
           + [A("visible", feats="all"), X("features", "into,reads,writes,ids,peq", every(4, 1), "nostd_all", (0, 0), place="crate"), X("prim_enums", "", every(6, 1), "plain", place="crate"), X("prim_enums", "", every(12, 1), "plain", place="names")],
    "C25": [X("spellings", "into,round,reads,writes,ids,dyn", None, "all"), X("forms", "into,reads,sizes", every(2))],
}


# ---------------------------------------------------------------- driver

class Check:
    def __init__(self, pid):
        self.pid = pid
        self.programs = self.states = self.transitions = self.traces = self.rejected = 0
        self.samples, self.bounds, self.viols = [], [], []

    def violation(self, v):
        v["property"] = self.pid
        self.viols.append(v)


def key(v):
    """identifies what failed: the declaration (without its generated name), the operation, the input"""
    d = re.sub(r"\b([A-Z][a-z]*)\d+[a-z]{0,3}\d?\b", "T", v["decl"])
    return hashlib.sha256(f"{d}|{v['op']}|{v['input']}".encode()).hexdigest()[:16]


def known(pid):
    """known-findings.txt: `finding: property=<id> key=<key> <text>` (open), `fixed: ...` (suppresses nothing)"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\w+) key=(\w+) (.*)", line)
            if m and m[1] == pid:
                out[m[2]] = m[3].strip()
    return out


def report(chk):
    kf = known(chk.pid)
    new = []
    seen = set()
    for v in chk.viols:
        k = key(v)
        if k in kf:
            if k not in seen:
                print(f"KNOWN-FINDING: property={chk.pid} {kf[k]}")
            seen.add(k)
        else:
            new.append(v)
    chk.found, chk.viols = len(chk.viols) - len(new), new
    shutil.rmtree(os.path.join(REPLAY, chk.pid), ignore_errors=True)
    if not new:
        return 0
    os.makedirs(os.path.join(REPLAY, chk.pid), exist_ok=True)
    # one line per kind of operation, the smallest declarations first
    new.sort(key=lambda v: len(v["decl"]) + len(v["input"]))
    shown = {}
    for v in new:
        kind = re.sub(r"_.*", "", v["op"]) if v["kind"] == "explore" else v["op"]
        if shown.setdefault((kind, v["kind"]), 0) < 2 and sum(shown.values()) < 12:
            shown[(kind, v["kind"])] += 1
            path = os.path.join(REPLAY, chk.pid, f"{sum(shown.values())}.json")
            with open(path, "w") as f:
                json.dump({**v, "key": key(v)}, f, indent=1)
            print(f"VIOLATION property={chk.pid} replay={path}")
            print("  " + v["decl"].replace("\n", "\n  "))
            print(f"  {v['op']} {v['input']}\n  expected: {v['expected']}\n  got:      {v['got'][:600]}")
    print(f"{len(new)} violations in all; run one again with: python3 mc/check.py --replay <file>")
    return 1


def run_check(pid):
    t0 = time.time()
    chk = Check(pid)
    feats = sorted({st.feats for st in CHECKS[pid] if hasattr(st, "feats")})
    broken = set()

    def prepare(f):
        try:
            base.Base(f)
        except base.BuildError:
            if f == "plain" or pid != "C18":
                raise
            broken.add(f)  # reported by Builds
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(prepare, feats))
    for st in CHECKS[pid]:
        t1 = time.time()
        if getattr(st, "feats", None) in broken:
            continue
        try:
            st.run(chk)
        except base.Endless as e:
            chk.violation(dict(kind="endless", feats=e.feats, prog="T", decl=e.decl, op="derive", input="", expected="the derive comes to an end", got=str(e)))
            chk.bounds.append("given up at a declaration the derive does not come to an end with")
            break
        if os.environ.get("VERIF_TIMES"):
            print(f"  {time.time() - t1:6.1f} s  {chk.bounds[-1]}")
    rc = report(chk)
    cov = dict(states=chk.states, transitions=chk.transitions, traces_validated_against_impl=chk.traces, samples=chk.samples[:12],
               exhaustive=True, bounds=chk.bounds)
    if chk.programs:
        cov["programs"] = chk.programs
    if chk.rejected:
        cov["declarations_rejected_as_specified"] = chk.rejected
    if chk.found:
        cov["known_findings"] = chk.found
    ev = dict(property=pid, tier="thorough" if FULL else "quick", seed=base.SEED, level="model_checking", coverage=cov,
              assumptions=["rustc and the operations of the generated code on one buffer are deterministic",
                           "declaration spaces and value/buffer alphabets are bounded as listed in coverage.bounds and DESIGN.md"],
              wall_s=round(time.time() - t0, 2), violations=len(chk.viols))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {'violated' if rc else 'held'}; states {chk.states}, transitions {chk.transitions}, lockstep traces {chk.traces}, {ev['wall_s']} s")
    return rc


def replay(path):
    v = json.load(open(path))
    if v["kind"] == "accept":
        d = accept.D(v["op"], v["decl"], v["want"], v["size"])
        errs, _ = accept.judge([d], v["feats"], head=v.get("head", accept.HEAD), via=v.get("via", "rt::bondrewd"))
        print(v["decl"], "\n->", "accepted" if not errs[0] else errs[0][0])
        bad = (not errs[0]) != v["want"]
    elif v["kind"] == "endless":
        try:
            accept.judge([accept.D("derive", v["decl"], None)], v["feats"])
            bad = False
        except base.Endless as e:
            print(v["decl"], "\n->", e)
            bad = True
    elif v["kind"] == "build":
        chk = Check("C18")
        Builds().run(chk)
        if v["op"] == "no_std" and not chk.viols:
            Bare("features", v["feats"]).run(chk)
        for x in chk.viols:
            print(x["decl"], x["got"])
        bad = bool(chk.viols)
    elif v["kind"] == "errors":
        chk = Check(v.get("pid", "C18"))
        Errors(v["feats"]).run(chk)
        for x in chk.viols:
            print(x["op"], x["input"], x["expected"], x["got"])
        bad = bool(chk.viols)
    else:
        t = eval(v["type"])
        r = run.explore([t], v["modes"], v["level"], v["feats"], tag="replay", attrs=v.get("attrs", ""), place=v.get("place"))
        for x in r.viols + r.compile_fail:
            print(json.dumps(x, indent=1))
        bad = bool(r.viols or r.compile_fail)
    print("violated" if bad else "held")
    return int(bad)


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "--replay":
            return replay(a[1])
        if a[0] == "--setup":
            with cf.ThreadPoolExecutor(4) as ex:
                list(ex.map(base.Base, [*base.FEATS, base.RELEASE]))
            return 0
        return run_check(a[0])
    except base.CheckError as e:
        print(f"check could not run: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
