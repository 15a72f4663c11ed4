"""Which declarations are accepted: the real derive macros (and rustc on what they generate) decide
every declaration of an enumerated space; the documentation's rules say what they have to decide."""
import concurrent.futures as cf
import os, shutil, tempfile
import base, model
from base import CheckError


class D:
    """One declaration. `name` is the type whose fate counts, `pre` are supporting items that have to
    be accepted; `want`: True accept, False reject, None not specified (only recorded)."""
    __slots__ = ("rule", "src", "want", "size")

    def __init__(self, rule, src, want, size=None):
        self.rule, self.src, self.want, self.size = rule, src, want, size


HEAD = "#![allow(dead_code, deprecated, unused, non_camel_case_types, overlapping_range_endpoints, unreachable_patterns)]\nextern crate rt;\nfn main() {}\n"


def judge_chunk(b, decls, workdir, tag, head=HEAD, extra=(), via="rt::bondrewd"):
    """-> list of error texts per declaration ([] = accepted)"""
    errs = [[] for _ in decls]
    alive = list(range(len(decls)))
    srcp = os.path.join(workdir, f"{tag}.rs")
    out = os.path.join(workdir, f"{tag}.bin")
    rounds = 0
    while alive:
        rounds += 1
        text = [head]
        line = head.count("\n") + 1
        spans = []
        for i in alive:
            d = decls[i]
            s = f"mod m{i} {{ use {via} as bondrewd; use {via}::*;\n{d.src}\n"
            if d.size:
                name, bits, byts = d.size
                s += f"const _: () = assert!(<{name} as Bitfields<{byts}>>::BIT_SIZE == {bits} && <{name} as Bitfields<{byts}>>::BYTE_SIZE == {byts});\n"
            s += "}\n"
            k = s.count("\n")
            spans.append((line, line + k - 1, i))
            line += k
            text.append(s)
        with open(srcp, "w") as f:
            f.write("".join(text))
        try:
            ok, diags = b.rustc(srcp, out, ("--emit=metadata", *extra), cap=None, timeout=base.RUSTC_TIMEOUT // 3)
        except base.Hang:
            b.endless([decls[i].src for i in alive], workdir, tag, head, via)
            raise
        if ok:
            return errs, rounds
        hitany = False
        raw = []
        for d in diags:
            if d.get("level") == "raw":
                raw.append(d["rendered"])
            if d.get("level") != "error" or d.get("message", "").startswith("aborting"):
                continue
            hit = None
            for sp in d.get("spans", []):
                s = sp
                while s is not None and hit is None:
                    if s["file_name"] == srcp:
                        for lo, hi, i in spans:
                            if lo <= s["line_start"] <= hi:
                                hit = i
                    e = s.get("expansion")
                    s = e["span"] if e else None
                if hit is not None:
                    break
            if hit is None:
                raise CheckError("an error names no declaration: " + str(d.get("rendered"))[:1500])
            hitany = True
            errs[hit].append((d.get("rendered") or d["message"])[:600])
        if not hitany:
            raise CheckError("chunk does not compile: " + "\n".join(raw)[:3000])
        alive = [i for i in alive if not errs[i]]
    return errs, rounds


def judge(decls, feats="plain", chunk=150, jobs=None, head=HEAD, extra=(), via="rt::bondrewd"):
    b = base.Base(feats)
    d = os.path.join(base.BUILD, "work")
    os.makedirs(d, exist_ok=True)
    workdir = tempfile.mkdtemp(prefix="acc-", dir=d)
    k = max(1, -(-len(decls) // chunk))
    parts = [list(range(i, len(decls), k)) for i in range(k)]
    res = [None] * len(decls)
    rounds = 0
    try:
        with cf.ThreadPoolExecutor(jobs or base.NPROC) as ex:
            for part, (errs, r) in zip(parts, ex.map(lambda a: judge_chunk(b, [decls[i] for i in a[1]], workdir, f"a{a[0]}", head, extra, via), enumerate(parts))):
                rounds += r
                for i, e in zip(part, errs):
                    res[i] = e
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    return res, rounds
