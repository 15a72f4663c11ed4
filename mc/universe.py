"""The enumerated declaration spaces. Every function returns the complete list of declarations of
one bounded space; nothing is sampled. `full` selects the thorough bound."""
import dataclasses, itertools, math
import cover
from model import Spelling, F, V, Struct, Enum, PrimEnum, Equiv, WIDTH, ceil8, layout, deps, field_bits, field_attrs, place

INTS = (8, 16, 32, 64, 128)


def width_for(n):
    return next(w for w in INTS if n <= w)


class Namer:
    def __init__(self, prefix):
        self.p, self.k = prefix, 0

    def __call__(self):
        self.k += 1
        return f"{self.p}{self.k}"


MODES = [(lsb, rev) for lsb in (False, True) for rev in (False, True)]


def scalars(full=False):
    """One integer field of every length at every bit offset, between two neighbours."""
    nm = Namer("S")
    out = []
    k = 0
    for w in INTS:
        lo = 1 if full else {8: 1, 16: 9, 32: 17, 64: 33, 128: 65}[w]
        for n in range(lo, w + 1):
            for p in range(8):
                if not full and n > 40 and n % 8 not in (0, 1, 7) and (n + p) % 3:
                    continue
                for en in ("le", "be"):
                    modes = MODES if full else [MODES[(k + k // 8) % 4]]
                    for lsb, rev in modes:
                        for sg in ("ui" if full and n <= 64 else "ui"[(k // 2 + p) % 2]):
                            out.append(scalar(nm(), f"{sg}{w}", n, p, 1 + (n * 3 + p) % 8, en, lsb, rev, k % 5 == 0))
                        k += 1
    # types wider than their field needs
    if not full:
        for w in INTS[1:]:
            for n in sorted({1, 2, 3, 5, 7, 8, w // 2 - 1, w // 2, w // 4 + 1} - {0}):
                if n > w // 2:
                    continue
                for p in range(8):
                    for en in ("le", "be"):
                        lsb, rev = MODES[(k + k // 8) % 4]
                        out.append(scalar(nm(), f"{'iu'[k % 4 == 3]}{w}", n, p, 1 + (n * 3 + p) % 8, en, lsb, rev, False))
                        k += 1
    # other scalar types
    for ty, ns in (("bool", [1]), ("char", range(1, 33) if full else (1, 7, 8, 9, 15, 16, 17, 20, 21, 24, 31, 32)),
                   ("f32", [32]), ("f64", [64])):
        for n in ns:
            for p in range(8):
                for en in ("le", "be"):
                    modes = MODES if full or ty != "char" else [MODES[(k + k // 8) % 4]]
                    for lsb, rev in modes:
                        out.append(scalar(nm(), ty, n, p, 1 + (n * 3 + p) % 8, en, lsb, rev, False))
                        k += 1
    return out


def scalar(name, ty, n, p, tail, en, lsb, rev, byte_pad):
    fs = []
    if p:
        fs.append(F("a", "u8", p))
    if byte_pad:
        fs.append(F("z", "u8"))
    if ty == "bool" and n == 1:
        fs.append(F("b", ty))
    elif ty[0] == "f":
        fs.append(F("b", ty))
    else:
        fs.append(F("b", ty, n))
    fs.append(F("c", "u8", tail))
    return Struct(name, fs, endian=en, lsb0=lsb, reverse=rev)


def cells(full=False):
    """Every kind of field in every situation the generated code can tell apart: endianness, traversal,
    first and last bit within their bytes, bytes touched, bytes touched against bytes of the type. The
    fields of a structure are chosen one after the other so that each is in a situation not met before."""
    import collections
    inner = {}
    for i, t in enumerate(inner_structs(Namer("LI"), True)):
        inner.setdefault(layout(t).bits, []).append(t)
    pe = [PrimEnum("LEa", [("A", None, "unit"), ("B", None, "unit"), ("C", 5, "unit")]),
          PrimEnum("LEb", [("A", 7, "unit"), ("B", None, "unit"), ("C", 3, "unit"), ("D", None, "tuple")])]

    def size(n, s):
        b = (s % 8 + n + 7) // 8
        return b if b <= 4 else 5 if b <= 8 else 9 if b <= 16 else 17

    def rel(n, s, w):
        b = (s % 8 + n + 7) // 8
        return (b > w // 8) - (b < w // 8)

    # menu: (what makes situations of this field differ, bits, how to make it), by first bit
    menu = collections.defaultdict(list)
    for s in range(8):
        for sg in "ui":
            for w in INTS:
                for n in range(1, w + 1):
                    if not full and n > 16 and rel(n, s, w) < 0 and n % 8 not in (0, 1, 7) and n < w // 2:
                        continue
                    menu[s].append((("int", sg, s, (s + n) % 8, size(n, s), rel(n, s, w)), n, lambda sg=sg, w=w, n=n: F("", f"{sg}{w}", n)))
            for w in INTS[:4]:
                for n in range(1, w + 1):
                    if n > 40 and n % 8 not in (0, 1, 7) or n <= w // 2 and n > 8:
                        continue
                    for ln in (2, 3):
                        menu[s].append((("elem", sg if full else 0, s, n % 8, min(size(n, s), 3), (n * 5 + s) % 2 if full else 0), n * ln, lambda sg=sg, w=w, n=n, ln=ln: F("", f"{sg}{w}", n, arr=("elem", ln))))
            for w in INTS[:4]:
                for n in range(1, w + 1):
                    for ln in (2, 3):
                        menu[s].append((("block", sg if full else 0, s, n % 8, min(size(n, s), 3), min(w, 16)), n + (ln - 1) * w, lambda sg=sg, w=w, n=n, ln=ln: F("", f"{sg}{w}", n + (ln - 1) * w, arr=("block", ln))))
        for n in range(1, 33):
            menu[s].append((("char", s, (s + n) % 8, size(n, s)), n, lambda n=n: F("", "char", n)))
            if n > 6:
                menu[s].append((("char elem", s, n % 8), n * 2, lambda n=n: F("", "char", n, arr=("elem", 2))))
        for ty in ("f32", "f64"):
            menu[s].append(((ty, s), WIDTH[ty], lambda ty=ty: F("", ty)))
            menu[s].append(((ty, "elem", s), 2 * WIDTH[ty], lambda ty=ty: F("", ty, arr=("elem", 2))))
        menu[s].append((("bool", s), 1, lambda: F("", "bool")))
        for ln in (2, 5, 9):
            menu[s].append((("bool elem", s, ln), ln, lambda ln=ln: F("", "bool", 1, arr=("elem", ln))))
        for nb, ts in inner.items():
            for t in ts if full else ts[(nb + s) % len(ts):][:1]:
                menu[s].append((("nested", s, (s + nb) % 8, size(nb, s), t.lsb0, t.reverse) if full else ("nested", s, (s + nb) % 8, size(nb, s)), nb, lambda t=t, nb=nb: F("", t, nb, how="bits")))
            if nb < 20:
                t = ts[(nb + s) % len(ts)]
                menu[s].append((("nested elem", s, nb % 8, size(nb, s)), 2 * nb, lambda t=t, nb=nb: F("", t, nb, arr=("elem", 2), how="size")))
        for n in range(2, 9):
            menu[s].append((("enum", s, n), n, lambda n=n, s=s: F("", pe[(n + s) % 2 if n > 2 else 0], n)))
            menu[s].append((("enum elem", s, n), 2 * n, lambda n=n, s=s: F("", pe[(n + s) % 2 if n > 2 else 0], n, arr=("elem", 2))))
    nm = Namer("L")
    out = []
    for mode, (lsb, rev) in enumerate(MODES):
        # what is left, by first bit: situation -> ways to get there
        left = [collections.OrderedDict() for _ in range(8)]
        for s in range(8):
            for sit, n, make in menu[s]:
                # a nested type has the endianness it was declared with
                for en in ("le", "be") if "nested" not in sit[0] else ("",):
                    left[s].setdefault((sit, en), []).append((n, make))
        while any(left):
            fs, cur, en0 = [], 0, ("le", "be")[len(out) // 3 % 2]
            while len(fs) < 7 and cur < 200:
                s = cur % 8
                if not left[s]:
                    to = next((d for d in range(1, 8) if left[(cur + d) % 8]), None)
                    if to is None:
                        break
                    fs.append(F(f"p{len(fs)}", "u8", to))
                    cur += to
                    continue
                # take turns between the kinds: the situation furthest in the list by a fixed stride
                keys = list(left[s])
                sit = keys[(len(out) * 7 + len(fs) * 11) % len(keys)]
                ways = left[s].pop(sit)
                n, make = ways[(len(out) + len(fs)) % len(ways)]
                f = make()
                f.name = f"f{len(fs)}"
                if not isinstance(f.ty, Struct):
                    f.endian = sit[1] if sit[1] != en0 else None
                fs.append(f)
                cur += n
            out.append(Struct(nm(), fs[::-1] if lsb else fs, endian=en0, lsb0=lsb, reverse=rev))
    return out


def small_pairs(full=False):
    """Every pair of unsigned / signed fields with a few bits each: small enough to be explored to
    closure over all buffers."""
    nm = Namer("P")
    out = []
    lim = 6 if full else 4
    for a in range(1, lim + 1):
        for b in range(1, lim + 1):
            for tail in (0, 3) if full else (0,):
                for i, (lsb, rev) in enumerate(MODES):
                    for j, (ta, tb) in enumerate((("u8", "i8"), ("i16", "u16"), ("i8", "i32"), ("u64", "i128")) if full else (("u8", "i16"),)):
                        fs = [F("a", ta, a), F("b", tb, b)] + ([F("c", "bool"), F("d", "u8", tail)] if tail else [])
                        out.append(Struct(nm(), fs, endian=("le", "be")[(a + b + i) % 2], lsb0=lsb, reverse=rev))
    return out


def mixed(full=False):
    """Multi-field structures over a menu of field kinds: every ordered triple (quick: a covering
    subset) of kinds, so that each kind follows and precedes each other one."""
    menu = [
        lambda n: F(n, "u8", 3), lambda n: F(n, "bool"), lambda n: F(n, "i16", 11), lambda n: F(n, "u32", 17),
        lambda n: F(n, "char"), lambda n: F(n, "f32"), lambda n: F(n, "u64", 41, endian="be"),
        lambda n: F(n, "u16", endian="le"), lambda n: F(n, "i8", 5, endian="be"), lambda n: F(n, "i128", 70, endian="le"),
        lambda n: F(n, "u8", 12, arr=("block", 2)), lambda n: F(n, "u16", 9, arr=("elem", 2)), lambda n: F(n, "bool", 1, arr=("elem", 3)),
        lambda n: F(n, "u16", 2, how="byte") if False else F(n, "u32", 24, how="byte"),
    ]
    nm = Namer("M")
    out = []
    K = len(menu)
    k = 0
    for i in range(K):
        for j in range(K):
            for l in (range(K) if full else [(i * 5 + j * 3 + 1) % K]):
                lsb, rev = MODES[k % 4] if not full else MODES[(i + j + l) % 4]
                en = ("le", "be", None)[k % 3]
                if en is None:
                    lsbx = None if not lsb else True
                else:
                    lsbx = lsb
                fs = [menu[i]("fa"), menu[j]("fb"), menu[l]("fc")]
                out.append(Struct(nm(), fs, endian=en, lsb0=lsbx, reverse=rev))
                k += 1
    return out


def arrays(full=False):
    nm = Namer("A")
    out = []
    k = 0

    def add(f, p, tail, en, lsb, rev):
        fs = ([F("a", "u8", p)] if p else []) + [f] + ([F("c", "u8", tail)] if tail else [])
        out.append(Struct(nm(), fs, endian=en, lsb0=lsb, reverse=rev))

    # element arrays
    elems = [("u8", n) for n in range(1, 9)] + [("i8", n) for n in (1, 3, 7, 8)] + [("u16", n) for n in (1, 5, 8, 9, 11, 15, 16)] \
        + [("i16", n) for n in (2, 8, 10, 13, 16)] + [("u32", n) for n in (7, 17, 24, 25, 32)] + [("i32", n) for n in (8, 19, 31)] \
        + [("u64", n) for n in (33, 40, 57, 64)] + [("i64", n) for n in (3, 34)] + [("u128", n) for n in (65, 99, 128)] \
        + [("bool", 1), ("char", 21), ("char", 32), ("f32", 32), ("f64", 64)]
    for ty, n in elems:
        for ln in (1, 2, 3, 5) if full else (1, 3):
            for p in range(8):
                if not full and (p + k) % 2:
                    k += 1
                    continue
                for en in ("le", "be"):
                    for lsb, rev in (MODES if full else [MODES[(k + k // 8) % 4]]):
                        f = F("b", ty, None if ty in ("f32", "f64") else n, arr=("elem", ln))
                        add(f, p, (k % 4) * 2, en, lsb, rev)
                        k += 1
    # block arrays: every total that leaves the first element at least one bit
    for ty in ("u8", "u16", "u32", "i8", "i32", "u64"):
        w = WIDTH[ty]
        for ln in (1, 2, 3, 4) if full else (1, 2, 3):
            lo = (ln - 1) * w + 1
            hi = ln * w
            for tot in range(lo, hi + 1):
                if not full and w > 16 and tot not in (lo, lo + 1, lo + 6, lo + 7, lo + 8, hi - 9, hi - 8, hi - 7, hi - 1, hi):
                    continue
                for p in (range(8) if full else ((k * 3) % 8, (k * 5 + 2) % 8)):
                    en = ("le", "be")[k % 2]
                    lsb, rev = MODES[(k // 2) % 4]
                    add(F("b", ty, tot, arr=("block", ln)), p, (k % 3) * 3, en, lsb, rev)
                    k += 1
    # defaults, byte lengths, nested arrays, plain bit_length
    for ty in ("u8", "u16", "i32", "u64", "bool", "char", "f32"):
        for ln in (1, 2, 4):
            for kind in ("elem", "block"):
                for p in (0, 3):
                    lsb, rev = MODES[k % 4]
                    if kind == "block" and ty in ("bool", "char", "f32"):
                        continue
                    w = WIDTH[ty]
                    if ty in ("u16", "i32", "u64"):
                        n = w if kind == "elem" else w * ln - 8
                        add(F("b", ty, n, arr=(kind, ln), how="byte"), p, 5, ("le", "be")[k % 2], lsb, rev)
                    add(F("b", ty, None, arr=(kind, ln)), p, 5, ("le", "be")[k % 2], lsb, rev)
                    k += 1
    # the total length of an array by bit_length, split evenly between its elements
    for ty, ns in (("u8", (1, 5, 8)), ("i8", (3, 7)), ("u16", (9, 11, 16)), ("i32", (13, 31)), ("u64", (8, 33)), ("bool", (1,)), ("char", (21,))):
        for n in ns:
            for ln in (1, 2, 3) if not full else (1, 2, 3, 4, 5):
                for p in (0, 3, 6) if not full else range(8):
                    lsb, rev = MODES[k % 4]
                    add(F("b", ty, n, arr=("plain", ln)), p, (k % 3) * 3, ("le", "be")[(k // 2) % 2], lsb, rev)
                    k += 1
    return out


INNER_MENU = None


def inner_structs(nm, full=False):
    """nested types of 1..=40 bits with every traversal mode"""
    out = []
    k = 0
    for bits in (list(range(1, 25)) + [31, 32, 33, 40]) if full else (1, 2, 3, 5, 7, 8, 9, 11, 12, 15, 16, 17, 20, 24, 29, 32):
        for lsb, rev in (MODES if full else [MODES[k % 4], MODES[(k + 3) % 4]]):
            if bits <= 2:
                fs = [F("x", "u8", bits)]
            elif bits <= 9:
                fs = [F("x", "u8", bits - 2), F("y", "u8", 1), F("z", "bool")]
            else:
                fs = [F("x", "i8", 3), F("y", f"u{width_for(bits - 4)}", bits - 4), F("z", "bool")]
            out.append(Struct(nm(), fs, endian=("be", "le")[k % 2], lsb0=lsb, reverse=rev))
        k += 1
    return out


def nested(full=False):
    nm = Namer("N")
    inn = inner_structs(Namer("I"), full)
    out = []
    k = 0
    for t in inn:
        nb = layout(t).bits
        for p in range(8):
            for lsb, rev in (MODES if full else [MODES[(k + k // 8) % 4]]):
                tail = (k * 3) % 8
                n = None
                how = ("bits", "size", "bits")[k % 3]
                n = None if how == "size" else nb
                if how == "size" and k % 2:
                    n = None
                fs = ([F("a", "u8", p)] if p else []) + [F("s", t, n, how=how)] + ([F("c", "u8", tail)] if tail else [])
                out.append(Struct(nm(), fs, endian=("be", "le")[k % 2], lsb0=lsb, reverse=rev))
                k += 1
    # arrays of nested structs
    for t in inn[::1 if full else 3]:
        nb = layout(t).bits
        for ln in (1, 2, 3):
            for p in (0, 3, 5):
                lsb, rev = MODES[k % 4]
                fs = ([F("a", "u8", p)] if p else []) + [F("s", t, nb, arr=("elem", ln), how="size")] + [F("c", "u8", 4)]
                out.append(Struct(nm(), fs, endian="be", lsb0=lsb, reverse=rev))
                k += 1
    # a structure in a structure in a structure
    for t in out[5:len(out) if full else 60:7]:
        nb = layout(t).bits
        if nb > 120:
            continue
        lsb, rev = MODES[k % 4]
        out.append(Struct(nm(), [F("q", "u8", 1 + k % 7), F("deep", t, nb), F("r", "u16", 9)], endian=("le", "be")[k % 2], lsb0=lsb, reverse=rev))
        k += 1
    return out


def enums(full=False):
    """Enums over id sizes, variant counts, payload shapes and id assignments."""
    nm = Namer("E")
    out = []
    k = 0
    payloads = [
        [],
        [("u8", 3)],
        [("u8", 8)],
        [("i16", 11), ("bool", 1)],
        [("u16", 16), ("i8", 5)],
        [("u32", 17), ("bool", 1), ("u8", 2)],
        [("bool", 1)],
        [("i64", 40)],
    ]

    def fields(pl):
        return [F("xyz"[i], ty, None if ty == "bool" else n) for i, (ty, n) in enumerate(pl)]

    ids = [1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 25, 32, 33, 48, 63, 64, 65, 100, 128]
    names = ["Aa", "BeeCee", "Dd", "Ee", "Ff"]
    for idb in ids:
        for nv in (1, 2, 3, 4, 5) if full else (2, 4) if idb not in (3, 8) else (1, 2, 3, 5):
            if nv > 2 ** idb:
                continue
            for pat in range(len(payloads)) if full else ((k % 8), (k * 3 + 5) % 8):
                for lsb, rev in (MODES if full else [MODES[k % 4]]):
                    vs = [V(names[i], fields(payloads[(pat + i * 3) % len(payloads)])) for i in range(nv)]
                    out.append(Enum(nm(), vs, idb, endian=("be", "le")[(k // 3) % 2], lsb0=lsb, reverse=rev, id_byte=(idb % 8 == 0 and k % 2 == 0)))
                    k += 1
    return out


def implicit_clash(pat):
    """rustc numbers the variants without a discriminant itself and rejects duplicates"""
    seen, nxt = set(), 0
    for x in pat:
        x = nxt if x is None else x
        if x in seen:
            return True
        seen.add(x)
        nxt = x + 1
    return False


def enum_ids(full=False):
    """How ids are assigned and which variant catches: every pattern of (explicit | implicit) ids by
    attribute or discriminant, every place of `invalid`, with and without capture_id."""
    nm = Namer("G")
    out = []
    k = 0
    names = ["Aa", "BeeCee", "Dd", "Ee"]
    pats = [
        [None, None, None], [1, None, None], [None, 0, None], [None, None, 0], [2, None, 1], [None, 5, None],
        [3, 2, 1], [0, 2, 4], [7, None, 6], [None, 1, 0], [5, 6, 7], [None, None, 3], [1, 0, None],
        [None, None, None, None], [3, None, 0, None], [6, 4, 2, 0], [None, 7, None, 1],
    ]
    for pat in pats:
        for inv in (None, *range(len(pat))):
            for cap in (False, True):
                for style in ("disc", "vid") if full or k % 2 else ("vid",):
                    if style == "disc" and implicit_clash(pat):
                        continue
                    for idb in (3, 8, 11) if full else ((3, 8, 3)[k % 3],):
                        for lsb, rev in (MODES if full else [MODES[(k // 2) % 4]]):
                            vs = []
                            catch = inv if inv is not None else len(pat) - 1
                            for i, x in enumerate(pat):
                                fs = []
                                capt = cap and (i == catch or (k % 5 == 0))
                                if capt:
                                    fs.append(F("cid", f"u{width_for(idb)}", capture=True))
                                if i == 0:
                                    fs.append(F("x", "u8", 5))
                                if i == 1:
                                    fs.append(F("x", "i16", 9))
                                    fs.append(F("y", "bool"))
                                vs.append(V(names[i], fs, disc=x if style == "disc" else None, vid=x if style == "vid" else None,
                                            invalid=(inv == i), tuple=(k % 4 == 1 and bool(fs))))
                            out.append(Enum(nm(), vs, idb, endian=("be", "le")[k % 2], lsb0=lsb, reverse=rev,
                                            repr="u16" if style == "disc" and any(v.fields for v in vs) and any(v.disc is not None for v in vs) else None))
                            k += 1
    return out


def id_cells(full=False):
    """Ids of every size in every traversal and endianness, at every bit of the last byte, with payloads behind them
    that start and end at every bit; the smallest, the largest and numbers between them as ids, captured or not."""
    nm = Namer("J")
    out = []
    k = 0
    names = ["Aa", "BeeCee", "Dd", "Ee"]
    menu = [("u8", 5), ("i16", 11), ("bool", None), ("u32", 17), ("i8", 7), ("u64", 41), ("u8", 8), ("i32", 30), ("u16", 9), ("char", 21), ("i64", 53), ("u128", 70), ("f32", None)]
    for idb in range(1, 129):
        if not full and idb > 40 and idb % 8 not in (0, 1, 7) and idb % 5:
            continue
        for en in ("le", "be"):
            for lsb, rev in MODES:
                for fill in range(8) if full else (k % 8, (k * 3 + 5) % 8)[:1 + (idb <= 16)]:
                    nv = min(2 ** idb, 2 + k % 3)
                    vs = []
                    big = 0
                    for i in range(nv):
                        fs = [F("xyz"[j], ty, n, endian=None if (k + j) % 4 else ("be" if en == "le" else "le")) for j, (ty, n) in
                              enumerate(menu[(k * 5 + i * 7 + j * 3) % len(menu)] for j in range((k + i) % 3 + (i == 0)))]
                        vs.append(V(names[i], fs))
                        big = max(big, sum(field_bits(f)[0] for f in fs))
                    # the total ends at bit `fill` of its last byte
                    pad = (fill - idb - big) % 8
                    if pad:
                        v = max(vs, key=lambda v: sum(field_bits(f)[0] for f in v.fields))
                        v.fields.append(F("pad", "u8", pad))
                    # explicit ids: the largest one, one above the middle, or none
                    if k % 3 == 1:
                        vs[k // 3 % nv].vid = 2 ** idb - 1
                    elif k % 3 == 2 and nv > 1:
                        vs[0].vid, vs[1].vid = 2 ** idb - 1, 2 ** (idb - 1) - 1
                    catch = nv - 1
                    if k % 5 == 3:
                        catch = k // 5 % nv
                        vs[catch].invalid = True
                    for i, v in enumerate(vs):
                        if k % 4 == 2 and i == catch or k % 8 == 6:
                            v.fields.insert(0, F("cid", f"u{width_for(idb)}", capture=True))
                    out.append(Enum(nm(), vs, idb, endian=en, lsb0=lsb, reverse=rev, id_byte=(idb % 8 == 0 and k % 2 == 0)))
                    k += 1
    return out


def variants(full=False):
    """Attributes of single variants, and payloads taken from the spaces of structures.

    Every pattern of default_endianness and of fill_bytes over three variants; then the fields of
    structures (with their order, roles, pinned ranges, arrays, nested types, endianness, filling)
    behind the ids of enums."""
    nm = Namer("M")
    out = []
    k = 0
    for idb in (3, 8, 11, 17):
        for enum_en in (None, "le", "be"):
            for pat in itertools.product((None, "le", "be"), repeat=3):
                for lsb, rev in MODES if full else [MODES[(k + k // 4) % 4]]:
                    if not full and idb != 11 and k % 3 == 0:
                        k += 1
                        continue
                    cap = [F("cid", f"u{width_for(idb)}", capture=True, endian=(None, "be", None, "le")[k % 4])]
                    vs = [V("One", [F("x", "u16"), F("y", "i16", 11)], vid=(1, None, 2)[k % 3]),
                          V("Two", (cap if k % 2 else []) + [F("x", "u32", 19), F("z", "u16", 13, endian=(None, "be", "le")[k % 3])]),
                          V("Rest", (cap if k % 5 < 3 else []) + [F("w", "u16", 12, arr=("elem", 2))] if k % 4 else [], tuple=k % 4 == 2)]
                    for v, en in zip(vs, pat):
                        v.endian = en
                        v.tuple = v.tuple or (k % 7 == 3 and bool(v.fields))
                    if k % 3 == 1:
                        vs[k % 2].invalid = True
                    out.append(Enum(nm(), vs, idb, endian=enum_en, lsb0=lsb, reverse=rev))
                    k += 1
    for idb in (2, 8, 13):
        for pat in itertools.product((None, 0, 1, 3), repeat=3):
            for lsb, rev in MODES if full else [MODES[(k + k // 4) % 4]]:
                vs = [V("One", [F("x", "u8", 5)]), V("Two", [F("x", "i16", 11), F("y", "bool")]), V("Rest", [] if k % 3 else [F("cid", f"u{width_for(idb)}", capture=True)])]
                for v, fl in zip(vs, pat):
                    if fl is not None:
                        v.fill = ceil8(place(v.fields, idb, None, None)[0]) + fl
                out.append(Enum(nm(), vs, idb, endian=("be", "le")[k % 2], lsb0=lsb, reverse=rev))
                k += 1
    src = (mixed(False)[::2] + arrays(False)[::6] + nested(False)[::5] + roles(False)[::2] + fills(False)[::9] + prims(False)[::9] + scalars(False)[::31])
    src = [s for s in src if not s.is_enum and layout(s).bits <= 250]

    def moved(s, by):
        fs = []
        for f in s.fields:
            f = dataclasses.replace(f)
            if f.rng:
                f.rng = (f.rng[0] + by, f.rng[1] + by)
            fs.append(f)
        fill = None
        if s.fill:
            fill = ceil8(max(8 * s.fill, place(fs, by, None, None)[0]))
        return fs, fill

    for i, s in enumerate(src if full else src[::2]):
        o = src[(i * 7 + 3) % len(src)]
        idb = (1, 2, 3, 5, 8, 9, 16, 12)[k % 8]
        one, f1 = moved(s, idb)
        two, f2 = moved(o, idb)
        tup = k % 3 == 1 and not any(f.redundant or f.rng for f in one)
        vs = [V("One", one, endian=s.endian, fill=f1, tuple=tup), V("Two", two, endian=o.endian, fill=f2)] + ([V("Rest")] if idb > 1 else [])
        vs = vs[k % len(vs):] + vs[:k % len(vs)]
        for lsb, rev in MODES if full else [MODES[(k + k // 4) % 4]]:
            out.append(Enum(nm(), [dataclasses.replace(v) for v in vs], idb, endian=(None, "le", "be")[k % 3], lsb0=lsb, reverse=rev))
            k += 1
    return out


def variant_modes(full=False):
    """Variants that name the enum's own direction once more, and one-byte enums with variants in another
    byte order (there is only one)."""
    nm = Namer("Vm")
    out = []
    k = 0
    for idb in (2, 3, 8, 11):
        for lsb, rev in MODES:
            for sub in range(1, 8):
                for en in ("be", "le") if full else (("be", "le")[k % 2],):
                    vs = [V("One", [F("x", "u16", 13), F("y", "bool")]), V("Two", [F("x", "i32", 19)], tuple=k % 3 == 0), V("Rest", [F("x", "u8")] if k % 4 else [])]
                    for i, v in enumerate(vs):
                        if sub >> i & 1:
                            a = [f'read_from = "{"lsb0" if lsb else "msb0"}"'] + ["reverse"] * rev
                            v.extra = ", ".join(a[::-1] if (k + i) % 2 else a)
                    out.append(Enum(nm(), vs, idb, endian=en, lsb0=lsb, reverse=rev))
                    k += 1
    for lsb in (None, False, True):
        for sub in range(1, 8):
            vs = [V("One", [F("x", "u8", 5), F("y", "bool")]), V("Two", [F("x", "i8", 4)]), V("Rest", [F("x", "u8", 3, arr=("elem", 2))])]
            for i, v in enumerate(vs):
                v.extra = "reverse" if sub >> i & 1 else ""
            out.append(Enum(nm(), vs, 2, endian="be", lsb0=lsb))
    return out


def variant_directions(full=False):
    """Variants in another direction than their enum's (an open finding: see known-findings.txt)."""
    out = []
    for k, (lsb, rev, extra) in enumerate([(None, False, "reverse"), (None, False, 'read_from = "lsb0"'), (True, False, 'read_from = "msb0"'), (None, True, 'read_from = "lsb0"')]):
        for j in range(3) if full else (1,):
            vs = [V("Aa", [F("a", "u8"), F("b", "u16")]), V("Bb", [F("a", "u8"), F("b", "u16")]), V("Cc", [F("c", "u8")])]
            vs[j].extra = extra
            out.append(Enum(f"Vd{3 * k + j}", vs, 3, endian="be", lsb0=lsb, reverse=rev))
    return out


ENUM_CHOICES = [
    [1, 2, 3, 5, 7, 8, 9, 12, 16, 17, 24, 31, 33, 64, 70, 127, 128],                       # bits of the id
    [None, 0, 1, 3, 6],                                                                    # fill_bytes of one variant: none, as many as needed, more
    ["order", "up", "down", "gaps", "top", "some"],                                        # how the ids are given
    [1, 2, 3, 4, 6],                                                                       # how many variants
    ["last", "first", "middle", "end"],                                                    # the catch-all: by its place, or marked
    ["none", "catch", "others", "all"],                                                    # who captures the id
    [(None, None), ("le", None), ("be", None), (None, "be"), ("le", "be"), ("be", "le")],  # default_endianness of the enum, and of every other variant
    [None, False, True],                                                                   # read_from
    [0, 1, 2, 3],                                                                          # payloads: see below
    ["named", "tuple", "mixed"],
    ["attribute", "discriminant", "size"],                                                 # how ids are written; id size following from the sizes
    [False, True],                                                                         # reverse
]


def enum_combos(full=False):
    """Enums: for any three (thorough: four) of the choices above, every combination of their values."""
    nm = Namer("Cn")
    out = []
    pe = PrimEnum("CnEa", [("A", None, "unit"), ("B", 5, "unit"), ("C", None, "unit")])
    inn = Struct("CnIa", [F("x", "u8", 3), F("y", "i16", 10)], endian="be", lsb0=True)
    menus = [
        [[("bool", None)], [], [("u8", 5)], [], [("bool", None), ("u8", 2)], []],
        [[("u8", None)], [("i16", 11), ("bool", None)], [], [("u32", 17), ("u8", 6)], [("i8", 7)], [("u64", 41)]],
        [[("u16", 9, ("elem", 2))], [("u8", 13, ("block", 2)), ("i8", 4)], [(pe, 3), (inn, 13)], [("char", 21)], [], [("f32", None), ("bool", None)]],
        [[("u16", None), ("u32", None)], [("i128", 90)], [("u8", 3), ("u16", None), ("u8", 5)], [], [("u64", None)], [("u8", None), ("i32", 30)]],
    ]
    for k, row in enumerate(cover.rows([len(c) for c in ENUM_CHOICES], 4 if full else 3)):
        idb, fill, ids, nv, place_, cap, (en, ven), lsb, menu, form, style, rev = (c[i] for c, i in zip(ENUM_CHOICES, row))
        nv = min(nv, 2 ** idb)
        if ids == "gaps" and 2 * nv > 2 ** idb:
            ids = "down"
        pat = {"order": [None] * nv, "up": list(range(nv)), "down": list(range(nv))[::-1], "gaps": [2 * i + 1 for i in range(nv)],
               "top": [2 ** idb - 1 - i for i in range(nv)], "some": [nv - 1 - i if i % 2 else None for i in range(nv)]}[ids]
        disc = style == "discriminant" and not implicit_clash(pat) and all(x is None or x < 2 ** 64 for x in pat)
        marked = {"last": None, "first": 0, "middle": nv // 2, "end": nv - 1}[place_]
        catch = nv - 1 if marked is None else marked
        vs = []
        for i, x in enumerate(pat):
            fs = [F("abc"[j], ty, n, arr=rest[0] if rest else None, how="bits" if ty is inn else None) for j, (ty, n, *rest) in enumerate(menus[menu][(i + k // 3) % 6])]
            if cap == "all" or (cap == "catch" and i == catch) or (cap == "others" and i != catch):
                fs.insert(0, F("cid", f"u{width_for(idb)}", capture=True))
            vs.append(V(["Aa", "BeeCee", "Dd", "Ee", "Ff", "Gg"][i], fs, disc=x if disc else None, vid=None if disc else x, invalid=marked == i,
                        tuple=bool(fs) and (form == "tuple" or form == "mixed" and (i + k) % 2 == 0), endian=ven if i % 2 else None))
        v = vs[k % nv]
        if fill is not None:
            v.fill = ceil8(place(v.fields, idb, None, None)[0]) + fill
        e = Enum(nm(), vs, idb, endian=en, lsb0=lsb, reverse=rev, id_byte=idb % 8 == 0 and k % 2 == 0,
                 repr=("u64" if any(x is not None and x > 255 for x in pat) else "u8") if disc and any(x is not None for x in pat) and any(x.fields for x in vs) else None)
        if style == "size" and fill is None:
            # as much payload as the largest variant has, and the sum of both enforced
            pay = max(place(x.fields, idb, None, None)[0] for x in vs) - idb
            if pay:
                e.no_id_attr, e.extra = True, f"enforce_bits = {idb + pay}, payload_bit_length = {pay}"
        out.append(e)
    return out


def enum_fields(full=False):
    """Variants whose payloads hold arrays, floats, chars, nested structs and primitive enums."""
    nm = Namer("H")
    inn = inner_structs(Namer("HI"), False)
    out = []
    k = 0
    pe = PrimEnum("HPrim", [("A", None, "unit"), ("B", None, "unit"), ("C", None, "unit"), ("D", None, "unit")])
    for idb in (2, 5, 8, 10):
        for t in inn if full else inn[k % 3::3]:
            nb = layout(t).bits
            for lsb, rev in (MODES if full else [MODES[k % 4]]):
                vs = [
                    V("One", [F("s", t, nb), F("b", "bool")]),
                    V("Two", [F("arr", "u16", 9, arr=("elem", 2)), F("e", pe, 2)]),
                    V("Three", [F("blk", "u8", 13, arr=("block", 2)), F("r", "u8", 3, reserve=True), F("i", "i8", 4)]),
                    V("Four", [F("ch", "char", 21), F("fl", "f32")] if k % 2 else []),
                ]
                out.append(Enum(nm(), vs, idb, endian=("be", "le")[(k // 2) % 2], lsb0=lsb, reverse=rev))
                k += 1
    # enums as fields of structures
    src = [e for e in enums(False) if layout(e).bits <= 64]
    for e in src[::1 if full else 4]:
        nb = layout(e).bits
        for p in ((0, 1, 2, 3, 4, 5, 6, 7) if full else (k % 8,)):
            lsb, rev = MODES[k % 4]
            out.append(Struct(nm(), ([F("a", "u8", p)] if p else []) + [F("en", e, nb), F("c", "i8", 6)], endian="be", lsb0=lsb, reverse=rev))
            k += 1
    return out


# ---------------------------------------------------------------- field roles and placement

def roles(full=False):
    """Every assignment of the roles {plain, reserve, read_only} to three fields, redundant fields
    before and after the fields they mirror, overlapping fields, pinned ranges in every order."""
    nm = Namer("R")
    out = []
    k = 0
    kinds = [("u8", 5, None), ("i16", 11, None), ("u32", 9, ("elem", 2)), ("bool", None, None), ("u64", 35, None), ("u8", 13, ("block", 2))]
    for ra in range(3):
        for rb in range(3):
            for rc in range(3):
                for lsb, rev in MODES:
                    for shift in range(len(kinds)) if full else (k % 6,):
                        fs = []
                        for i, r in enumerate((ra, rb, rc)):
                            ty, n, arr = kinds[(shift + i * (1 + k % 2)) % 6]
                            fs.append(F("abc"[i], ty, n, arr=arr, reserve=r == 1, read_only=r == 2))
                        out.append(Struct(nm(), fs, endian=("le", "be")[k % 2], lsb0=lsb, reverse=rev))
                        k += 1
    # a redundant field in front of the fields it mirrors / over a range of earlier fields
    for n in range(1, 17):
        for lsb, rev in MODES if full else [MODES[n % 4], MODES[(n // 4 + 1) % 4]]:
            for lead in (0, 3, 5):
                w = width_for(n)
                pre = [F("l", "u8", lead)] if lead else []
                fs = pre + [F("flags", f"u{w}", n, redundant=True)] + [F(f"f{i}", "bool") for i in range(n)] + [F("t", "u8", 1 + n % 7)]
                out.append(Struct(nm(), fs, endian=("be", "le")[k % 2], lsb0=lsb, reverse=rev))
                k += 1
                fs = pre + [F("x", "u16", 11), F("y", "i8", 7), F("flags", f"u{w}", rng=(lead + 1, lead + 1 + n), redundant=True), F("t", "u8", 1 + n % 7)]
                out.append(Struct(nm(), fs, endian=("be", "le")[k % 2], lsb0=lsb, reverse=rev))
                k += 1
    # overlapping_bits: the second field starts inside the first
    for ov in range(1, 9):
        for n in (ov, ov + 1, ov + 5, ov + 9) if full else (ov, ov + 3):
            for ro in (False, True):
                for lsb, rev in MODES if full else [MODES[k % 4]]:
                    fs = [F("a", "u16", 11), F("b", f"u{width_for(n)}", rng=(11 - ov, 11 - ov + n), overlap=ov, read_only=ro), F("c", "u8", 3)]
                    out.append(Struct(nm(), fs, endian=("be", "le")[k % 2], lsb0=lsb, reverse=rev))
                    k += 1
    # pinned ranges, every order of declaration
    for widths in ((3, 5, 8), (9, 2, 7), (8, 16, 4), (1, 12, 20)) if not full else itertools.product((1, 3, 8, 9), (2, 5, 12), (4, 7, 16, 20)):
        starts = [0, widths[0], widths[0] + widths[1]]
        for perm in itertools.permutations(range(3)):
            for lsb, rev in MODES:
                fs = []
                for i in perm:
                    w = widths[i]
                    fs.append(F("abc"[i], f"{'ui'[(i + k) % 2]}{width_for(w)}", rng=(starts[i], starts[i] + w)))
                out.append(Struct(nm(), fs, endian=("be", "le")[k % 2], lsb0=lsb, reverse=rev))
                k += 1
    # gaps between, before and after pinned ranges, and fields without a range following them
    for g0 in (0, 1, 3, 8, 11):
        for g1 in (0, 2, 7, 9):
            for perm in itertools.permutations(range(2)):
                for lsb, rev in MODES if full else [MODES[k % 4], MODES[(k + 1 + k // 4 % 3) % 4]]:
                    a = (g0, g0 + 5)
                    b = (a[1] + g1, a[1] + g1 + 11)
                    fs = [F("a", "u8", rng=a), F("b", "i16", rng=b)]
                    fs = [fs[i] for i in perm]
                    if perm == (0, 1) and k % 3:
                        fs.append(F("c", "u16", 1 + k % 12))
                    out.append(Struct(nm(), fs, endian=("be", "le")[k % 2], lsb0=lsb, reverse=rev))
                    k += 1
    # roles inside enum variants
    for ra in range(3):
        for rb in range(3):
            for lsb, rev in MODES:
                vs = [V("Aa", [F("a", "u8", 5, reserve=ra == 1, read_only=ra == 2), F("b", "i16", 10, reserve=rb == 1, read_only=rb == 2)]),
                      V("Bb", [F("flags", "u8", 3, redundant=True), F("p", "bool"), F("q", "u8", 2), F("z", "u8", 6)]),
                      V("Cc", [F("id", "u8", capture=True), F("a", "u8", 4, reserve=rb == 1)])]
                out.append(Enum(nm(), vs, 3 + k % 6, endian=("be", "le")[k % 2], lsb0=lsb, reverse=rev))
                k += 1
    return out


def role_cells(full=False):
    """Every role of a field × every kind of field × endianness × place, in structures and variants."""
    nm = Namer("Q")
    out = []
    k = 0
    dv = "Bitfields, Clone, Debug, PartialEq, Default"
    ins = [Struct("QIa", [F("x", "u8", 5)], endian="be", derives=dv), Struct("QIb", [F("x", "u16", 11), F("y", "bool"), F("z", "i8", 7)], endian="le", lsb0=True, reverse=True, derives=dv)]
    ie = Enum("QIc", [V("Aa", []), V("Bb", [F("x", "u16", 11)])], 2, endian="be", default="Aa")
    pe = PrimEnum("QEa", [("A", None, "unit"), ("B", None, "unit"), ("C", None, "unit"), ("D", None, "unit")], default="A")
    pf = PrimEnum("QEb", [("A", 3, "unit"), ("B", 0, "unit"), ("C", None, "tuple")], default="B")
    menu = [("u8", 5, None), ("u8", 8, None), ("i16", 11, None), ("i32", 32, None), ("u64", 35, None), ("u128", 77, None), ("i128", 100, None), ("i128", 128, None),
            ("bool", 1, None), ("char", 21, None), ("char", 32, None), ("char", 7, None), ("f32", None, None), ("f64", None, None),
            ("u8", 5, ("elem", 2)), ("i16", 13, ("elem", 3)), ("u32", 32, ("elem", 2)), ("bool", 1, ("elem", 5)), ("char", 21, ("elem", 2)), ("f32", None, ("elem", 2)), ("f64", None, ("elem", 2)),
            ("u8", 13, ("block", 2)), ("u16", 27, ("block", 2)), ("i32", 70, ("block", 3)), ("u64", 100, ("block", 2)),
            (pe, 2, None), (pf, 8, None), (pe, 3, ("elem", 3)), (ins[0], 5, None), (ins[1], 19, None), (ie, 13, None), (ins[0], 5, ("elem", 2)), (ins[1], 19, ("elem", 2))]
    for ty, n, arr in menu:
        nested = not isinstance(ty, (str, PrimEnum))
        for en in ("",) if nested else ("le", "be"):
            for role in ("reserve", "read_only", "redundant", "overlap"):
                for off in range(8) if full else (0, 3, 6)[k % 3:][:1] + (1, 4, 7)[k // 3 % 3:][:1]:
                    for form in (0, 1):
                        lsb, rev = MODES[(k + k // 4) % 4]
                        f = F("f", ty, n, arr=arr, endian=en or None, how=("size" if arr or k % 2 else "bits") if nested else "bit" if arr and arr[0] == "block" and role in ("redundant", "overlap") else None)
                        bits = field_bits(f)[0]
                        tail = F("t", "u8", 1 + k % 8)
                        lead = [F("l", "u8", off)] if off else []
                        at = 3 if form else 0
                        if role == "redundant":
                            under = F("under", "u8", 8, arr=("elem", (off + bits) // 8 + 1))
                            f = _cf(f, rng=(at + off, at + off + bits), redundant=True)
                            fs = [under, f, tail] if k % 3 else [f, under, tail]
                        elif role == "overlap":
                            ov = min(bits, 1 + k % 7)
                            f = _cf(f, rng=(at + 11 - ov, at + 11 - ov + bits), overlap=ov, read_only=True)
                            fs = [F("l", "u16", 11), f, tail]
                        else:
                            f = _cf(f, **{role: True})
                            fs = lead + [f, tail]
                        if form:
                            out.append(Enum(nm(), [V("Aa", [F("z", "bool")]), V("Bb", fs, tuple=k % 5 == 0), V("Cc", [])], 3, endian=("be", "le")[k // 2 % 2], lsb0=lsb, reverse=rev))
                        else:
                            out.append(Struct(nm(), fs, endian=("be", "le")[k // 2 % 2], lsb0=lsb, reverse=rev))
                        k += 1
    return out


# what the declarations of `combos` are put together from, most values first
COMBO_WHAT = [("u8", 1), ("u8", 5), ("u8", 8), ("u16", 9), ("u16", 13), ("u16", 16), ("u32", 6), ("u32", 24), ("u32", 32), ("u64", 33), ("u64", 50), ("u64", 64), ("u128", 61), ("u128", 77), ("u128", 128),
              ("i8", 3), ("i8", 8), ("i16", 11), ("i32", 7), ("i32", 19), ("i32", 32), ("i64", 15), ("i64", 41), ("i128", 90), ("bool", 1), ("char", 32), ("char", 21), ("char", 7), ("f32", 32), ("f64", 64),
              ("pe", 2), ("pf", 8), ("s5", 5), ("s19", 19), ("s24", 24), ("e13", 13),
              ("u8", 3, "elem", 3), ("u8", 8, "plain", 3), ("u16", 9, "elem", 2), ("i16", 13, "elem", 2), ("u32", 32, "plain", 2), ("i32", 20, "elem", 3), ("u64", 37, "elem", 2), ("bool", 1, "elem", 5), ("i8", 7, "plain", 2),
              ("u8", 13, "block", 2), ("i16", 25, "block", 2), ("u32", 70, "block", 3), ("i64", 67, "block", 2), ("char", 21, "elem", 2), ("f32", 32, "elem", 2), ("pe", 3, "elem", 3), ("s5", 5, "elem", 2), ("s19", 19, "elem", 2),
              ("e13", 13, "elem", 2), ("pf", 13, "block", 2), ("s24", 43, "block", 2), ("s19", 41, "block", 2)]
COMBO_CHOICES = [
    COMBO_WHAT,
    ["struct", ("named", 3), ("named", 8), ("tuple", 3), ("tuple", 11), ("named", 17), ("tuple", 33), ("named", 64)],       # where it is: a structure, or a variant behind so many id bits
    [0, 1, 2, 3, 4, 5, 6, 7],                                                                                            # its first bit within a byte
    ["", "reserve", "read_only", "redundant", "overlap", "shared", "gap", "capture"],                                            # its role; behind a gap; in a variant that captures the id
    [(None, None), ("le", None), ("be", None), (None, "be"), ("le", "be"), ("be", "le")],                                # default_endianness of the type and of the variant
    [None, "le", "be"],                                                                                                  # endianness of the field
    [None, False, True],                                                                                                 # read_from
    [None, 0, 2],                                                                                                        # fill_bytes: none, as many as needed, more
    [0, 1, 6, 16],                                                                                                       # bits behind it
    [0, 1, 2],                                                                                                           # whole bytes in front; place of the variant
    [False, True],                                                                                                       # reverse
]


def combo_types():
    dv = "Bitfields, Clone, Debug, PartialEq, Default"
    return {"s5": Struct("CoIa", [F("x", "u8", 5)], endian="be", derives=dv),
            "s19": Struct("CoIb", [F("x", "u16", 11), F("y", "bool"), F("z", "i8", 7)], endian="le", lsb0=True, reverse=True, derives=dv),
            "s24": Struct("CoIc", [F("x", "i16"), F("y", "u8")], endian="be", reverse=True, derives=dv),
            "e13": Enum("CoId", [V("Aa", []), V("Bb", [F("x", "u16", 11)])], 2, endian="be", default="Aa"),
            "pe": PrimEnum("CoEa", [("A", None, "unit"), ("B", None, "unit"), ("C", None, "unit"), ("D", None, "unit")], default="A"),
            "pf": PrimEnum("CoEb", [("A", 3, "unit"), ("B", 0, "unit"), ("C", None, "tuple")], default="B")}


def combo_fields(k, types, what, cont, off, role, fend, tail, more):
    """-> the fields around a field `f`, and the bits in front of them"""
    ty, n, *arr = what
    ty = types.get(ty, ty)
    nested = not isinstance(ty, (str, PrimEnum))
    kind = arr[0] if arr else None
    f = F("f", ty, n, endian=None if nested else fend, arr=tuple(arr) or None)
    if kind == "plain" or n == WIDTH.get(ty if isinstance(ty, str) else "", 0) and k % 2 and not arr:
        f.n = None
    if nested:
        f.how = "size" if arr or k % 2 else "bits"
    elif n and n % 8 == 0 and k % 3 and f.n and (not arr or kind == "elem"):
        f.how = "byte"
    start = 0 if cont == "struct" else cont[1]
    lead = [F("l", "u8", (off - start) % 8)] if (off - start) % 8 else []
    if more:
        lead.insert(k % 2 if lead else 0, F("m", ("u8", "u16")[more - 1], arr=("elem", more) if more == 2 else None))
    at = start + sum(field_bits(x)[0] for x in lead)
    bits = field_bits(f)[0]
    fs = lead + [f]
    if role in ("redundant", "overlap", "shared", "gap") and kind == "block":
        f.how, f.extra = "bit", f"struct_size = {ceil8(layout(ty).bits)}" if nested else ""
    if role == "redundant":
        under = F("under", "u8", arr=("elem", bits // 8 + 1))
        f.rng, f.redundant = (at, at + bits), True
        fs = lead + ([under, f] if k % 3 else [f, under])
    elif role in ("overlap", "shared"):
        # shares its first bits with a field in front of it; alone in reading, or writing them as well
        ov = min(bits, 1 + k % 7)
        f.rng, f.overlap, f.read_only = (at, at + bits), ov, role == "overlap"
        fs = lead + [F("v", "u8", ov), f]
    elif role == "gap":
        # eight bits or more left out, the field in front pinned as well
        first = min(8, at - start)
        at += 8
        f.rng = (at, at + bits)
        fs = ([F("l", "u8", rng=(start, start + first))] if first else []) + [f]
    elif role == "capture":
        if cont != "struct":
            fs.insert(0, F("cid", f"u{width_for(start)}", capture=True))
    elif role:
        setattr(f, role, True)
    if tail:
        fs.append(F("t", ("u8", "u16")[tail > 8], tail, rng=(at + bits + 3, at + bits + 3 + tail) if role == "gap" else None))
    return fs, f, start


def combo_type(name, fs, cont, en, ven, lsb, rev, fill, more):
    """the structure, or the enum and the variant"""
    if cont == "struct":
        t = Struct(name, fs, endian=ven or en, lsb0=lsb, reverse=rev, fill=fill)
        return t, t
    v = V("Ff", fs, tuple=cont[0] == "tuple", endian=ven, fill=fill)
    vs = [V("Aa", [F("z", "bool")]), V("Bb", [F("y", "i16", 12)])]
    vs.insert(more, v)
    v.invalid = more == 1
    return Enum(name, vs, cont[1], endian=en, lsb0=lsb, reverse=rev), v


def combos(full=False):
    """For any three (thorough: four) of the choices above, every combination of their values."""
    nm = Namer("Co")
    types = combo_types()
    out = []
    for k, row in enumerate(cover.rows([len(c) for c in COMBO_CHOICES], 4 if full else 3)):
        what, cont, off, role, (en, ven), fend, lsb, fill, tail, more, rev = (c[i] for c, i in zip(COMBO_CHOICES, row))
        fs, f, start = combo_fields(k, types, what, cont, off, role, fend, tail, more)
        if fill is not None:
            fill += ceil8(place(fs, start, None, None)[0])
        out.append(combo_type(nm(), fs, cont, en, ven, lsb, rev, fill, more)[0])
    return out


def sequences(full=False):
    """Four fields in a row, of every kind and role: every ordered pair of kinds at any two of the four
    places, in structures and variants (thorough: any three places, half of the kinds at a time)."""
    nm = Namer("Sq")
    dv = "Bitfields, Clone, Debug, PartialEq, Default"
    s13 = Struct("SqIa", [F("x", "i8", 3), F("y", "u16", 9), F("z", "bool")], endian="le", derives=dv)
    s16 = Struct("SqIb", [F("x", "u16")], endian="be", lsb0=True, derives=dv)
    en = Enum("SqIc", [V("Aa", [F("x", "u8", 4)]), V("Bb", [F("x", "u16", 9)])], 2, endian="be", default="Bb { x: 0 }")
    pe = PrimEnum("SqEa", [("A", None, "unit"), ("B", 6, "unit"), ("C", None, "unit")], default="A")
    menu = [("u8", 3), ("u8", None), ("u16", 11), ("u32", None), ("u64", 37), ("u128", 70), ("i8", 6), ("i16", None), ("i32", 25), ("i64", 9), ("bool", None), ("char", None), ("char", 21), ("f32", None), ("f64", None),
            (pe, 3), (pe, None), (s13, 13), (s16, 16), (en, 11),
            ("u8", 5, ("elem", 3)), ("i16", None, ("plain", 2)), ("u32", 19, ("elem", 2)), ("bool", 1, ("elem", 3)), ("u8", 11, ("block", 2)), ("i32", 50, ("block", 2)), (s13, 13, ("elem", 2)), (pe, 3, ("elem", 2)), ("f32", None, ("elem", 2))]
    roles = ["", "", "", "", "read_only", "reserve"]
    kinds = [(m, r) for i, m in enumerate(menu) for r in {"", roles[i % 6], roles[(i // 2 + 3) % 6]}]
    kinds.sort(key=lambda x: (menu.index(x[0]), x[1]))
    out = []
    k = 0
    for part in (kinds[::2], kinds[1::2]) if full else (kinds,):
        sizes = [len(part)] * 4 + [8, 6, 3, 3, 2, 3]
        for row in cover.rows(sizes, 3 if full else 2):
            fs = []
            for j, x in enumerate(row[:4]):
                (ty, n, *arr), role = part[x]
                nested = not isinstance(ty, (str, PrimEnum))
                f = F("abcd"[j], ty, n, arr=arr[0] if arr else None, how="size" if nested and (arr or (k + j) % 2) else "bits" if nested else None, endian=None if nested else ("be", None, None, "le", None)[(k + 3 * j) % 5])
                if role:
                    setattr(f, role, True)
                fs.append(f)
            off, cont, end, lsb, rev, fill = row[4:]
            if off:
                fs.insert(0, F("l", "u8", off))
            end, lsb = (None, "le", "be")[end], (None, False, True)[lsb]
            idb = (0, 0, 2, 7, 8, 13)[cont]
            fill = None if not fill else ceil8(place(fs, idb, None, None)[0]) + fill - 1
            if idb:
                vs = [V("Ff", fs, tuple=k % 3 == 0, fill=fill), V("Bb", [F("y", "i16", 12)])]
                out.append(Enum(nm(), vs[::-1] if k % 2 else vs, idb, endian=end, lsb0=lsb, reverse=bool(rev)))
            else:
                out.append(Struct(nm(), fs, endian=end, lsb0=lsb, reverse=bool(rev), fill=fill))
            k += 1
    return out


def fills(full=False):
    """fill_bytes on structures of every size modulo eight."""
    nm = Namer("L")
    out = []
    k = 0
    for bits in range(1, 41 if full else 26):
        for extra in (0, 1, 2, 5):
            fill = ceil8(bits) + extra
            for lsb, rev in MODES if full else [MODES[k % 4], MODES[(k + 1 + k // 4 % 3) % 4]]:
                if bits <= 8:
                    fs = [F("a", "u8", bits)]
                else:
                    fs = [F("a", "i8", 7), F("b", f"u{width_for(bits - 7)}", bits - 7)]
                out.append(Struct(nm(), fs, endian=("be", "le")[k % 2], lsb0=lsb, reverse=rev, fill=fill))
                k += 1
    return out


def prims(full=False):
    """Primitive enums (derive BitfieldEnum) as fields of every length at every offset."""
    nm = Namer("Q")
    out = []
    k = 0
    ens = [PrimEnum("QA", [("A", None, "unit"), ("B", None, "unit"), ("C", None, "unit"), ("D", None, "unit")]),
           PrimEnum("QB", [("A", 7, "unit"), ("B", None, "unit"), ("C", 3, "unit"), ("D", None, "tuple")]),
           PrimEnum("QC", [("A", None, "unit"), ("B", 200, "unit"), ("C", 9, "unit")], invalid=0)]
    for n in range(1, 9):
        for p in range(8):
            for e in ens if full else [ens[(n + p) % 3]]:
                for lsb, rev in MODES if full else [MODES[(k + k // 8) % 4]]:
                    out.append(Struct(nm(), ([F("a", "u8", p)] if p else []) + [F("e", e, n), F("c", "u8", 1 + (n * 3 + p) % 8)], endian=("be", "le")[k % 2], lsb0=lsb, reverse=rev))
                    k += 1
    for n in (2, 5, 8):
        for ln in (1, 2, 3):
            for p in (0, 3):
                for lsb, rev in MODES:
                    out.append(Struct(nm(), ([F("a", "u8", p)] if p else []) + [F("e", ens[k % 3], n, arr=("elem", ln)), F("c", "u8", 3)], endian=("be", "le")[k % 2], lsb0=lsb, reverse=rev))
                    k += 1
    return out


def prim_enums(full=False):
    """Primitive enums: every assignment of literals from a menu to up to four (five) variants, every
    catch-all (default, marked, storing tuple, storing named) at every place."""
    nm = Namer("T")
    out = []
    k = 0
    for nv in (1, 2, 3, 4, 5) if full else (1, 2, 3, 4):
        menu = (None, 0, 1, 2, 3, 5, 42, 255) if nv <= 3 and full else (None, 0, 1, 3, 200) if nv <= 3 or full else (None, 0, 2, 255)
        for lits in itertools.product(menu, repeat=nv):
            if implicit_clash(lits):
                continue
            if any(lits[i] == 255 and i + 1 < nv and lits[i + 1] is None for i in range(nv)):
                pass
            for catch in [None] + [("inv", i) for i in range(nv)] + [(s, i) for s in ("tuple", "named") for i in range(nv)]:
                if catch and catch[0] != "inv" and lits[catch[1]] is not None:
                    continue
                kinds = ["unit"] * nv
                if catch and catch[0] != "inv":
                    kinds[catch[1]] = catch[0]
                    # repr(u8): no implicit discriminant beyond 255
                    nxt, bad = 0, False
                    for x in lits:
                        x = nxt if x is None else x
                        bad |= x > 255
                        nxt = x + 1
                    if bad:
                        continue
                out.append(PrimEnum(nm(), [("ABCDE"[i], lits[i], kinds[i]) for i in range(nv)], invalid=catch[1] if catch and catch[0] == "inv" else None,
                                    prim=(None, "u8")[k % 2], partial_eq=k % 3 != 0))
                k += 1
    # more variants, literals from above among them, each kind of catch-all at the ends and between
    for nv in (6, 7, 8, 9, 10, 11, 12, 16, 20, 33, 60, 130):
        for step in (2, 3, 7):
            for catch in (None, ("inv", 0), ("inv", nv // 2), ("inv", nv - 1), ("tuple", nv - 1), ("named", nv - 1)):
                lits = [(250 - i) if i % step == 1 else None for i in range(nv)]
                if catch and catch[0] != "inv":
                    lits[-1] = None
                if catch and catch[0] == "inv" and lits[catch[1]] is not None and k % 2:
                    lits[catch[1]] = None
                nxt, bad = 0, implicit_clash(lits)
                for x in lits:
                    x = nxt if x is None else x
                    bad |= x > 255
                    nxt = x + 1
                if bad:
                    continue
                kinds = ["unit"] * nv
                if catch and catch[0] != "inv":
                    kinds[-1] = catch[0]
                out.append(PrimEnum(nm(), [(f"V{i}", lits[i], kinds[i]) for i in range(nv)], invalid=catch[1] if catch and catch[0] == "inv" else None,
                                    prim=("u8", None)[k % 2], partial_eq=k % 3 != 0))
                k += 1
    out.append(PrimEnum(nm(), [(f"V{i}", None, "unit") for i in range(256)], prim="u8"))
    out.append(PrimEnum(nm(), [(f"V{i}", 255 - i, "unit") for i in range(256)], invalid=3, prim="u8"))
    return out


# ---------------------------------------------------------------- equivalent declarations

def _ren(t, name, **kw):
    """a copy of t with another name and other attributes"""
    c = dataclasses.replace(t, name=name, **kw)
    c._lay = None
    return c


def _cf(f, **kw):
    return dataclasses.replace(f, **kw)


def _fieldmap(t, u, order=None):
    """(leaf map, field pairs): field i of t is field order[i] of u"""
    lt, lu = layout(t).fields[0], layout(u).fields[0]
    order = order or list(range(len(lt)))
    mp = []
    pairs = []
    for i, (f, first, leaves) in enumerate(lt):
        g, gfirst, gl = lu[order[i]]
        assert len(gl) == len(leaves), (t, u)
        mp += [gfirst + k for k in range(len(leaves))]
        pairs.append((i, order[i]))
    return mp, pairs


def equivs(full=False):
    """Pairs of declarations that have to mean the same, for every member of the spaces above for
    which the rewriting is defined. No layout is computed here: the two real implementations are
    compared with each other."""
    nm = Namer("X")
    out = []

    def pair(kind, a, b, **kw):
        out.append(Equiv(f"{kind}{nm()}", a, b, **kw))

    st = 1 if full else 3
    base_structs = scalars(False)[::2 * st] + mixed(False) + arrays(False)[::st] + nested(False)[::st] + prims(False)[::2 * st]
    base_enums = enums(False) + enum_fields(False)[::st]
    for i, t in enumerate(base_structs):
        # reverse = the same bytes in reverse order
        a, b = _ren(t, t.name + "ra", reverse=True), _ren(t, t.name + "rb", reverse=False)
        m, fp = _fieldmap(a, b)
        pair("Rev", a, b, reversed=True, map=m, fields=fp)
        # lsb0 = msb0 with the fields in the opposite order
        if i % 2 == 0 or full:
            a = _ren(t, t.name + "la", lsb0=True)
            b = _ren(t, t.name + "lb", lsb0=False, fields=t.fields[::-1])
            m, fp = _fieldmap(a, b, list(range(len(t.fields)))[::-1])
            pair("Lsb", a, b, map=m, fields=fp)
        # default_endianness = endianness on every field
        if i % 3 == 0 or full:
            en = t.endian or "le"
            a = _ren(t, t.name + "ea", endian=en)
            b = _ren(t, t.name + "eb", endian=("le", "be")[en == "le"],
                     fields=[_cf(f, endian=f.endian or en) if isinstance(f.ty, str) else f for f in t.fields])
            m, fp = _fieldmap(a, b)
            pair("End", a, b, map=m, fields=fp)
        # bits ranges = consecutive lengths (ranges do not go with block arrays' own lengths)
        if (i % 3 == 1 or full) and all(not f.arr for f in t.fields):
            cur = 0
            fs = []
            for f in t.fields:
                n, _ = field_bits(f)
                fs.append(_cf(f, rng=(cur, cur + n), n=None, how=None if isinstance(f.ty, str) else f.how))
                cur += n
            a, b = t, None
            a = _ren(t, t.name + "ba")
            for variant, order in enumerate((list(range(len(fs))), list(range(len(fs)))[::-1])):
                b = _ren(t, f"{t.name}bb{variant}", fields=[fs[j] for j in order])
                m, fp = _fieldmap(a, b, [order.index(j) for j in range(len(fs))])
                pair("Rng", _ren(t, f"{t.name}ba{variant}"), b, map=m, fields=fp)
        # msb0 spelled out or not
        if i % 5 == 0 and not t.lsb0:
            a, b = _ren(t, t.name + "ma", lsb0=None), _ren(t, t.name + "mb", lsb0=False)
            m, fp = _fieldmap(a, b)
            pair("Msb", a, b, map=m, fields=fp)
        # element arrays = one field per element (msb0: lsb0 turns the order of fields around)
        if any(f.arr and f.arr[0] == "elem" and isinstance(f.ty, str) for f in t.fields):
            fs = []
            for f in t.fields:
                if f.arr and f.arr[0] == "elem":
                    n = f.n if f.n is not None else field_bits(f)[1][0]
                    fs += [F(f"{f.name}{k}", f.ty, None if f.ty == "bool" or f.ty[0] == "f" else n, endian=f.endian) for k in range(f.arr[1])]
                else:
                    fs.append(f)
            a, b = _ren(t, t.name + "aa", lsb0=False), _ren(t, t.name + "ab", lsb0=False, fields=fs)
            pair("Arr", a, b, map=list(range(sum(len(x[2]) for x in layout(a).fields[0]))))
    # whole bytes: little endian = big endian with the value's bytes swapped
    k = 0
    for w in INTS:
        for n in range(8, w + 1, 8):
            for sg in "ui":
                for p in range(8):
                    for lsb, rev in MODES if full or p % 2 else [MODES[(k + p) % 4]]:
                        def mk(nm_, en):
                            return Struct(nm_, ([F("a", "u8", p)] if p else []) + [F("v", f"{sg}{w}", n, endian=en), F("z", "u8", 3)], endian="be", lsb0=lsb, reverse=rev)
                        k += 1
                        a, b = mk(f"W{k}a", "le"), mk(f"W{k}b", "be")
                        m, fp = _fieldmap(a, b)
                        sw = [f.name == "v" for f, _, _ in layout(a).fields[0]]
                        pair("Swp", a, b, map=m, fields=fp, swap=sw)
            # byte_length = 8 * bit_length
            a = Struct(f"Y{k}a", [F("a", "bool"), F("v", f"u{w}", n, how="byte"), F("z", "u8", 6)], endian=("le", "be")[k % 2])
            b = Struct(f"Y{k}b", [F("a", "bool"), F("v", f"u{w}", n), F("z", "u8", 6)], endian=("le", "be")[k % 2])
            m, fp = _fieldmap(a, b)
            pair("Byt", a, b, map=m, fields=fp)
    # fill_bytes = a reserved field at the end
    for t in fills(full):
        L = layout(t)
        pad = 8 * t.fill - L.used[0]
        if pad == 0:
            continue
        fs = t.fields + [F(f"pad{i}", "u128", min(128, pad - 128 * i), reserve=True) for i in range((pad + 127) // 128)]
        a, b = _ren(t, t.name + "fa"), _ren(t, t.name + "fb", fill=None, fields=fs)
        m = list(range(len(t.fields)))
        pair("Fil", a, b, map=m, fields=[(i, i) for i in m])
    # enums
    for i, t in enumerate(base_enums):
        if t.is_enum is False:
            continue
        a, b = _ren(t, t.name + "ra", reverse=True), _ren(t, t.name + "rb", reverse=False)
        pair("Erv", a, b, reversed=True)
        if any(v.fields for v in t.variants):
            tv = [dataclasses.replace(v, tuple=bool(v.fields)) for v in t.variants]
            nv = [dataclasses.replace(v, tuple=False) for v in t.variants]
            pair("Etu", _ren(t, t.name + "ta", variants=tv), _ren(t, t.name + "tb", variants=nv))
        # implicit ids = the ids spelled out, in the attribute or as discriminants
        ids = layout(t).ids
        ev = [dataclasses.replace(v, vid=x) for v, x in zip(t.variants, ids)]
        dv = [dataclasses.replace(v, disc=x) for v, x in zip(t.variants, ids)]
        pair("Eid", _ren(t, t.name + "ia"), _ren(t, t.name + "ib", variants=ev))
        pair("Edi", _ren(t, t.name + "ja", variants=dv, repr="u32"), _ren(t, t.name + "jb", variants=ev))
        # `invalid` on the last variant says what is so anyway
        iv = [dataclasses.replace(v, invalid=j + 1 == len(t.variants)) for j, v in enumerate(t.variants)]
        pair("Einv", _ren(t, t.name + "va", variants=iv), _ren(t, t.name + "vb"))
        if t.id_bits % 8 == 0:
            pair("Eby", _ren(t, t.name + "ya", id_byte=True), _ren(t, t.name + "yb", id_byte=False))
        # the order of explicitly numbered variants does not matter, up to the catch-all: rotate all but the last
    return out


# ---------------------------------------------------------------- spaces of single properties

def captures(full=False):
    """capture_id: every id width class, catch-all by place and by `invalid`, captured in the
    catch-all, in a numbered variant, in all of them, as named and as tuple field, with payload."""
    nm = Namer("C")
    out = []
    k = 0
    names = ["Aa", "BeeCee", "Dd"]
    for idb in ([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 48, 57, 63, 64, 65, 72, 100, 127, 128] if full else [1, 2, 3, 5, 7, 8, 9, 13, 16, 17, 24, 32, 33, 64, 65, 128]):
        for inv in (None, 0, 1):
            for where in ("catch", "other", "all"):
                for tup in (False, True):
                    for lsb, rev in MODES if full or idb in (3, 8, 9) else [MODES[k % 4], MODES[(k + 2 + k // 8) % 4]]:
                        nv = 2 if idb == 1 or k % 3 == 0 else 3
                        ids = [[None, None, None], [1, 0, None], [None, 1, 0]][k % 3][:nv]
                        if idb > 2 and k % 5 == 0:
                            ids = [5, 2, None][:nv]
                        catch = inv if inv is not None else nv - 1
                        vs = []
                        for i in range(nv):
                            fs = []
                            if where == "all" or (where == "catch") == (i == catch):
                                fs.append(F("cid", f"u{width_for(idb)}", capture=True))
                            if (i + k) % 2:
                                fs += [F("x", "u8", 3 + i), F("y", "i16", 9)]
                            elif i == 1:
                                fs.append(F("z", "bool"))
                            vs.append(V(names[i], fs, vid=ids[i], invalid=inv == i, tuple=tup and bool(fs)))
                        out.append(Enum(nm(), vs, idb, endian=("be", "le")[k % 2], lsb0=lsb, reverse=rev))
                        k += 1
    return out


def signs(full=False):
    """Signed fields of every type and length (thorough: at every offset in every mode)."""
    nm = Namer("Z")
    out = []
    k = 0
    for w in INTS:
        for n in range(1, w + 1):
            if not full and w == 128 and n < 60 and n % 3:
                continue
            for p in range(8) if full else sorted({(n * 3 + 1) % 8, (n * 5 + 4) % 8, -n % 8}):
                for en in ("le", "be"):
                    for lsb, rev in MODES if full and w < 64 else [MODES[(k + k // 8) % 4]]:
                        out.append(scalar(nm(), f"i{w}", n, p, 1 + (n + p) % 8, en, lsb, rev, False))
                        k += 1
    # arrays of signed elements and neighbours of signed fields
    for w in INTS:
        for n in (1, 2, w // 2 + 1, w - 1, w):
            for ln in (2, 3):
                lsb, rev = MODES[k % 4]
                out.append(Struct(nm(), [F("a", "u8", 1 + k % 7), F("b", f"i{w}", n, arr=("elem", ln)), F("c", "i8", 1 + k % 8)], endian=("be", "le")[k // 4 % 2], lsb0=lsb, reverse=rev))
                k += 1
    return out


def model_attrs(f):
    s = field_attrs(f).strip()
    return s[len("#[bondrewd("):-2].split(", ") if s else []


_fact = math.factorial
FIELD_NAMES = ["slice_length", "buf_len", "out", "min_length", "self_", "bytes", "other", "checked", "input", "output", "input_bytes", "mask", "word", "shift", "tmp", "src", "result", "idx", "primitive", "r#macro", "r#type", "r#match", "r#fn", "r#struct", "r#as", "r#async", "r#mod", "A", "aB", "Camel", "SHOUT", "_x", "__", "x_", "a1", "a_1", "größe", "名前", "value", "buffer", "bytes", "data",
               "id", "len", "i", "x", "bits", "index", "slice", "array", "variant_id", "fill_bits", "bit_length", "endianness", "reserve", "read_only", "u8", "i32", "f64", "str", "usize", "Self_", "core",
               "std", "alloc", "bondrewd", "from_bytes", "into_bytes", "field_0", "field_1", "out", "input", "output", "a_bytes", "union", "auto", "default", "macro_rules", "raw", "me", "other", "result", "v", "b", "o"]


PATHS = [("core::primitive::", "self::"), ("::core::primitive::", "crate::"), ("std::primitive::", "self::far::off::")]


def spellings(full=False):
    """Choices of writing that mean nothing: every order of the attributes (in one list or in one
    list each), other words and notations for their values, names of fields, documentation, lint and
    cfg attributes, visibility."""
    nm = Namer("Sp")
    out = []
    inner = Struct("SpIn", [F("a", "u8", 3), F("b", "u16", 10)], endian="le")
    pe = PrimEnum("SpPe", [("Aa", None, "unit"), ("Bb", None, "unit"), ("Cc", None, "tuple")])

    def kinds():
        return [
            [F("a", "u8", 5), F("v", "u16", 11, endian="be", reserve=True), F("z", "i8", 3)],
            [F("a", "u8", 5), F("v", "i32", 19, endian="be", read_only=True), F("z", "i8", 3)],
            [F("v", "u16", 13, endian="be", redundant=True), F("a", "u8", 6), F("z", "u16", 10)],
            [F("a", "u16", 11), F("v", "u16", rng=(8, 21), endian="be", overlap=3, read_only=True), F("z", "i8", 3)],
            [F("z", "u8", rng=(16, 19)), F("v", "u16", rng=(3, 16), endian="be"), F("a", "u8", rng=(0, 3))],
            [F("a", "bool"), F("v", "u16", 9, arr=("elem", 3), endian="be", read_only=True), F("z", "u8", 7)],
            [F("a", "bool"), F("v", "u8", 19, arr=("block", 3), endian="be", reserve=True), F("z", "u8", 7)],
            [F("a", "u8", 2), F("v", "u32", 16, how="byte", endian="be", read_only=True), F("z", "u8", 7)],
            [F("a", "u8", 2), F("v", "f32", 32, endian="be", read_only=True), F("z", "u8", 7)],
            [F("a", "u8", 2), F("v", "char", 32, endian="be", reserve=True), F("z", "u8", 7)],
            [F("a", "u8", 2), F("v", inner, 13, how="size", read_only=True), F("z", "u8", 7)],
            [F("a", "u8", 2), F("v", inner, 13, how="size", arr=("elem", 2), read_only=True), F("z", "u8", 7)],
            [F("a", "u8", 2), F("v", pe, 5, endian="be", read_only=True), F("z", "u8", 7)],
            [F("a", "u8", 2), F("v", pe, 3, arr=("elem", 2), endian="be"), F("z", "u8", 7)],
        ]

    # the order of the attributes of a field
    k = 0
    for fs in kinds():
        n = [len(model_attrs(f)) for f in fs if f.name == "v"][0]
        orders = [j for j in range(1, _fact(n))]
        for o in orders:
            for split in (False, True):
                lsb, rev = MODES[k % 4]
                gs = [dataclasses.replace(f, spell=Spelling(order=o, split=split)) if f.name == "v" else f for f in fs]
                out.append(Struct(nm(), gs, endian="le", lsb0=lsb, reverse=rev))
                k += 1
        for split in (True,):
            gs = [dataclasses.replace(f, spell=Spelling(split=split)) for f in fs]
            out.append(Struct(nm(), gs, endian="le", lsb0=lsb, reverse=rev, spell=Spelling(split=True)))
    # of a structure
    for bits in (16, 19):
        extra = ["enforce_full_bytes", "enforce_bits = 19"][bits == 19]
        for o in range(120):
            for split in (False, True):
                if not full and (o + split + bits) % 2:
                    continue
                out.append(Struct(nm(), [F("a", "u8", 5), F("b", "i16", bits - 5)], endian="be", lsb0=True, reverse=True, fill=4, extra=extra, spell=Spelling(order=o, split=split)))
    # of an enum and its variants
    for o in range(120):
        for split in (False, True):
            if not full and (o + split) % 2:
                continue
            lsb, rev = MODES[k % 4]
            sv = Spelling(order=k // 2, split=k % 2 == 1)
            vs = [V("Aa", [F("a", "u8", 5), F("b", "i16", 10)], vid=2, endian="be", spell=sv), V("Bb", [F("cid", "u8", capture=True), F("c", "u16", 9)], vid=1, invalid=True, endian="be", spell=sv), V("Cc", vid=0, spell=sv)]
            out.append(Enum(nm(), vs, 3, endian="le", lsb0=lsb, reverse=rev, extra="enforce_bits = 18", spell=Spelling(order=o, split=split)))
            k += 1
    # words and notations
    for fs in kinds():
        for al in range(1, 7):
            for fe in ("le", "be", "ne"):
                gs = [dataclasses.replace(f, endian=f.endian and fe, spell=Spelling(alias=al)) for f in fs]
                if fe == "ne" and not all(f.endian is None or f.ty in ("u8", "bool") or not isinstance(f.ty, str) for f in gs):
                    continue
                lsb, rev = MODES[k % 4]
                out.append(Struct(nm(), gs, endian=("le", "be")[k % 2], lsb0=lsb, reverse=rev, fill=6 + 10 * (max(f.n or 0 for f in fs) > 18), spell=Spelling(alias=al)))
                k += 1
    for al in range(1, 7):
        for en in ("le", "be"):
            vs = [V("Aa", [F("a", "u16", 15)], vid=2, endian=en, spell=Spelling(alias=al)), V("Bb", [F("cid", "u8", capture=True)])]
            out.append(Enum(nm(), vs, 8, id_byte=al % 2 == 0, endian="le", spell=Spelling(alias=al)))
            out.append(Enum(nm(), [V("Aa", [F("a", "u32", 17, endian=en)], vid=10), V("Bb", [])], 11, endian=en, extra="enforce_bits = 28", spell=Spelling(alias=al)))
            out.append(Enum(nm(), [V("Aa", [F("a", "u32", 17)], disc=9, spell=Spelling(alias=al)), V("Bb", [], disc=1030, spell=Spelling(alias=al))], 11, endian=en, repr="u32"))
    for al in range(7):
        for pre in ("", "/// invalid\n", "#[doc(hidden)] ", "#[cfg(any())] Gone, ", "#[allow(unused)] "):  # Gone: only in front of variants
            for v in ("", "pub(crate) "):
                for vs in ([("Aa", None, "unit"), ("Bb", None, "unit"), ("Cc", None, "tuple")], [("Aa", 12, "unit"), ("Bb", 201, "unit"), ("Cc", None, "unit")], [("Aa", 200, "unit"), ("Bb", None, "unit"), ("Cc", None, "tuple")],
                           [("Ok", None, "unit"), ("None", 8, "unit"), ("Some", None, "named")], [("r#type", None, "unit"), ("u8", 9, "unit"), ("r#Self_", None, "unit")], [("Vec", None, "unit"), ("lower", None, "unit"), ("Default", None, "tuple")]):
                    out.append(PrimEnum(nm(), vs, invalid=[None, 0, None][al % 3] if vs[0][2] == "unit" and vs[2][2] == "unit" else None, prim=("u8", None)[al % 2], partial_eq=False,
                                        spell=Spelling(alias=al, pre=pre, vis=v, split=bool(al % 2), order=al // 2)))
    # further ways to write attribute lists
    for form in ("comma", "cfg", "space", "raw"):
        for split in (False, True):
            sp = Spelling(form=form, split=split, order=split, alias=split)
            for fs in kinds():
                lsb, rev = MODES[k % 4]
                out.append(Struct(nm(), [dataclasses.replace(f, spell=sp) for f in fs], endian=("le", "be")[k % 2], lsb0=lsb, reverse=rev, extra="enforce_full_bytes", fill=20, spell=sp)
                           if sum(f.n or 1 for f in fs) % 8 == 0 else Struct(nm(), [dataclasses.replace(f, spell=sp) for f in fs], endian=("le", "be")[k % 2], lsb0=lsb, reverse=rev, spell=sp))
                k += 1
            lsb, rev = MODES[k % 4]
            vs = [V("Aa", [F("a", "u8", 5, spell=sp), F("b", inner, 13, how="size", spell=sp)], vid=3, endian="be", spell=sp), V("Bb", [F("c", pe, 5, spell=sp)], vid=2, spell=sp),
                  V("Cc", [F("cid", "u8", capture=True, spell=sp)], invalid=True, spell=sp)]
            out.append(Enum(nm(), vs, 3, endian=("le", "be")[k % 2], lsb0=lsb, reverse=rev, spell=sp))
            out.append(PrimEnum(nm(), [("Aa", None, "unit"), ("Bb", None, "unit"), ("Cc", None, "unit")], invalid=1, prim="u8", partial_eq=True, spell=sp))
    # where types are found
    for path in PATHS:
        for al in range(3):
            sp = Spelling(path=path, alias=al)
            for fs in kinds():
                lsb, rev = MODES[k % 4]
                out.append(Struct(nm(), [dataclasses.replace(f, spell=sp) for f in fs], endian=("le", "be")[k % 2], lsb0=lsb, reverse=rev, tuple=False))
                k += 1
            lsb, rev = MODES[k % 4]
            vs = [V("Aa", [F("a", "u8", 5, spell=sp), F("b", inner, 13, how="size", spell=sp)]), V("Bb", [F("c", pe, 5, spell=sp), F("b", "i16", 10, arr=("elem", 2), spell=sp)]),
                  V("Cc", [F("cid", "u8", capture=True, spell=sp), F("c", inner, 13, arr=("elem", 2), how="size", spell=sp)], invalid=True)]
            out.append(Enum(nm(), vs, 3, endian=("le", "be")[k % 2], lsb0=lsb, reverse=rev))
    # names of variants
    for names in (["Ok", "Err", "Some"], ["None", "Type", "Match"], ["Vec", "Result", "Option"], ["String", "Default", "Clone"], ["Id", "Value", "Variant"], ["U8", "A", "B"][1:] + ["Core"], ["Read", "Write", "From"]):
        for lsb, rev in MODES:
            out.append(Enum(nm(), [V(names[0], [F("a", "u8", 5)]), V(names[1], [F("cid", "u8", capture=True), F("b", "i16", 9)], invalid=True), V(names[2], [])], 3, endian="le", lsb0=lsb, reverse=rev))
    # names of fields, of every kind and role
    for j, name in enumerate(FIELD_NAMES):
        for i, fs in enumerate(kinds()):
            if not full and (i + j) % 2:
                continue
            gs = [dataclasses.replace(f, name=name) if f.name == "v" else dataclasses.replace(f, name="q" + f.name) for f in fs]
            lsb, rev = MODES[k % 4]
            out.append(Struct(nm(), gs, endian=("le", "be")[k // 4 % 2], lsb0=lsb, reverse=rev))
            k += 1
        lsb, rev = MODES[j % 4]
        vs = [V("Aa", [F(name, "u8", 5), F("q", "i16", 10)]), V("BeeCee", [F("q", "u8", 3), F(name, "u16", 5, arr=("elem", 2), endian="be")])]
        vs.append(V("Dd", [F(name, "u8", capture=True), F("q", "bool")]) if name != "variant_id" else V("Dd", []))
        if name == "fill_bits":
            continue  # the name of the padding
        out.append(Enum(nm(), vs, 3, endian="le", lsb0=lsb, reverse=rev))
    # names next to each other which generated code might put together from one of them
    for i, fs in enumerate(kinds()):
        for j, other in enumerate(("v_bytes", "v_buffer", "v_0", "v_1", "_v", "v_", "V")):
            for front in (False, True):
                if not full and (i + j + front) % 2:
                    continue
                lsb, rev = MODES[k % 4]
                gs = [dataclasses.replace(f) if f.name == "v" else dataclasses.replace(f, name="q" + f.name) for f in fs]
                o = F(other, ("u16", "u8", "i32", "bool")[k % 4], (11, 8, 17, None)[k % 4], endian=(None, "be")[k // 4 % 2])
                if any(f.rng for f in gs):
                    o.rng = (40, 40 + field_bits(o)[0])
                out.append(Struct(nm(), [o] + gs if front else gs + [o], endian=("le", "be")[k // 4 % 2], lsb0=lsb, reverse=rev))
                if not any(f.rng for f in gs):
                    out.append(Enum(nm(), [V("Aa", [o] + gs if front else gs + [o]), V("Bb", gs), V("Cc", [o])], 5, endian=("le", "be")[k // 4 % 2], lsb0=lsb, reverse=rev))
                k += 1
    # names of types
    for i, name in enumerate(("r#Type", "lower", "größe", "_S", "S_", "Sp_1_", "r#match", "ABC", "aB", "Buffer", "Checked", "u9", "Bool", "Strct")):
        lsb, rev = MODES[i % 4]
        t = Struct(name, [F("a", "u8", 3), F("b", "u16", 10), F("c", "char", 21)], endian=("le", "be")[i % 2], lsb0=lsb, reverse=rev)
        out.append(Struct(nm(), [F("x", "u8", 1 + i % 8), F("t", t, 34), F("u", t, 34, arr=("elem", 2), how="size"), F("y", "i8", 3)], endian="be"))
        e = Enum(name + "En", [V("Aa", [F("a", "u8", 3), F("t", t, 34)]), V("Bb", [F("cid", "u8", capture=True), F("u", "u16", 9, arr=("elem", 2))]), V("Cc")], 3, endian="le", lsb0=lsb, reverse=rev)
        out.append(Struct(nm(), [F("x", "u8", 1 + i % 8), F("e", e, layout(e).bits), F("y", "i8", 3)], endian="be"))
        p = PrimEnum(name + "Pe", [("Aa", None, "unit"), ("Bb", 6, "unit"), ("Cc", None, "tuple")])
        out.append(Struct(nm(), [F("x", "u8", 1 + i % 8), F("p", p, 5), F("q", p, 4, arr=("elem", 3)), F("y", "i8", 3)], endian="be"))
    # what belongs to others: documentation, lints, cfg; visibility
    for i, pre in enumerate(["/// words = 3, reserve\n", "#[allow(dead_code)] ", "#[cfg(all())] ", "#[cfg_attr(all(), allow(unused))] ", "#[cfg(any())] gone: u64, ", '/** bits = "0..3" */ ', "#[doc(hidden)] ", "#[doc = \"bit_length = 3\"] "]):
        for post in (False, True):
            if post and "gone" in pre:
                continue
            for v in ("", "pub ", "pub(crate) ", "pub(self) ", "pub(in crate) "):
                for fs in kinds()[i::3] if not full else kinds():
                    sp = Spelling(**{("post" if post else "pre"): pre}, vis=v, split=True)
                    lsb, rev = MODES[k % 4]
                    gs = [dataclasses.replace(f, spell=sp) for f in fs]
                    if "gone" in pre:
                        sp = dataclasses.replace(sp, pre="", post="")
                    out.append(Struct(nm(), gs, endian=("le", "be")[k % 2], lsb0=lsb, reverse=rev, spell=sp))
                    k += 1
                ev = sp
                fsp = Spelling(**{("post" if post else "pre"): pre})
                sp = Spelling(**{("post" if post else "pre"): pre.replace("gone: u64", "Gone")}, split=True)
                vs = [V("Aa", [F("a", "u8", 5, spell=fsp), F("b", "i16", 10)], vid=2, spell=sp),
                      V("Bb", [F("cid", "u8", capture=True, spell=fsp)], invalid=True, spell=sp)]
                out.append(Enum(nm(), vs, 3, endian=("le", "be")[k % 2], spell=ev))
    return out


def forms(full=False):
    """Every way to give a field its place and length: sequential or by range, per element, per block
    or evenly, in bits or bytes, with and without struct_size, the attributes in every order."""
    nm = Namer("Fo")
    out = []
    in16 = Struct("FoIn", [F("a", "u8", 3), F("b", "i16", 13)], endian="le")
    in11 = Struct("FoOd", [F("a", "u8", 3), F("b", "i16", 8)], endian="be")
    en16 = Enum("FoEn", [V("Aa", [F("a", "u16", 13)]), V("Bb", [F("b", "u8", 4)])], 3, endian="le")
    pe = PrimEnum("FoPe", [("Aa", None, "unit"), ("Bb", None, "unit"), ("Cc", None, "tuple")])
    k = 0
    cases = []
    for ty, lens in (("u8", (3, 8)), ("i16", (9, 16, 8)), ("u32", (24, 17)), ("u64", (40, 33)), ("i128", (72, 101)), ("f32", (32,)), ("f64", (64,)), ("char", (32,)), (pe, (3, 8)), (in16, (16,)), (in11, (11,)), (en16, (16,)), ("bool", (1,))):
        for n in lens:
            isn = not isinstance(ty, (str, PrimEnum))
            for ln in (None, 1, 2, 3) if full else (None, 1 + n % 2, 3):
                for how in ("bit", "byte"):
                    for ranged in (False, True):
                        for kind in ("elem", "block", "plain") if ln else (None,):
                            if kind == "block" and ty in ("f32", "f64", "char", "bool"):
                                continue
                            tot = n * (ln or 1)
                            full_w = WIDTH[ty] if isinstance(ty, str) else 8 if isinstance(ty, PrimEnum) else 8 * ceil8(n)
                            if kind == "block":
                                tot = n + (ln - 1) * full_w
                            if kind == "plain" and not isinstance(ty, str) and n != full_w:
                                continue
                            if not full and ln == 3 and n * ln > 64 and how == "bit":
                                continue
                            if how == "byte" and (tot if kind in (None, "block", "plain") else n) % 8:
                                continue
                            if kind in (None, "plain") and ranged and how == "byte":
                                continue
                            cases.append((ty, n, ln, how, ranged, kind, tot, isn))
    for ty, n, ln, how, ranged, kind, tot, isn in cases:
        for size in (False, True) if isn and kind != "block" else (isn,):
            for p in (5 * (k % 2),) if not full else range(8):
                f = F("v", ty, endian=None if isn or ty in ("bool", "u8") else ("be", "le")[k % 2], arr=(kind, ln) if kind else None)
                h = how if how == "byte" else None
                if kind == "elem":
                    f.n, f.how = n, h
                elif kind == "block":
                    f.n, f.how = tot, h
                elif kind == "plain":
                    f.n, f.how = n, h
                else:
                    f.n, f.how = n, h
                if ranged:
                    f.rng = (p, p + tot)
                    if kind == "block":
                        f.how = how
                if isn:
                    f.extra = f"struct_size = {ceil8(n)}" if size else ""
                    if f.how is None and not size:
                        f.how = "nosize"
                na = len(model_attrs(f))
                for o in range(_fact(na)):
                    if not full and na == 3 and o not in (1 + k % 5, 5 - k % 5) and not isn:
                        continue
                    lsb, rev = MODES[k % 4]
                    sp = Spelling(order=o, split=k % 3 == 0)
                    # behind the field before, with a gap, in front of the field before
                    for at in (("next", "gap", "front") if full else ("next", ("gap", "front")[(o + k // 4) % 2])) if ranged else ("next",):
                        gap = 1 + k % 11 if at == "gap" else 0
                        g = dataclasses.replace(f, spell=sp)
                        if ranged:
                            g.rng = (p + gap, p + gap + tot)
                        a = F("a", "u8", p)
                        z = F("z", "u8", 1 + k % 8)
                        if at == "front":
                            a = F("a", "u8", rng=(p + tot, p + tot + 3))
                            z = F("z", "u8", rng=(p + tot + 4, p + tot + 5 + k % 7))
                        out.append(Struct(nm(), ([a] if p or at == "front" else []) + [g, z], endian=("le", "be")[k // 2 % 2], lsb0=lsb, reverse=rev))
                        k += 1
    return out


def features(full=False):
    """A selection that holds every kind of declaration, explored under every feature set."""
    st = 1 if full else 8
    return (scalars(False)[::5 * st] + mixed(False)[::st] + arrays(False)[::3 * st] + nested(False)[::3 * st] + enums(False)[::st] + enum_ids(False)[::2 * st]
            + enum_fields(False)[::st] + variants(False)[3::4 * st] + roles(False)[::3 * st] + fills(False)[::2 * st] + prims(False)[::2 * st] + prim_enums(False)[::4 * st])


def large(full=False):
    """The same kinds of field at scale: far behind the start, in long arrays, among many fields,
    in enums of many variants and in deep nestings."""
    nm = Namer("Y")
    out = []
    k = 0
    in13 = Struct("YIn", [F("x", "i8", 3), F("y", "u16", 9), F("z", "bool")], endian="le")
    pe = PrimEnum("YPe", [("Aa", None, "unit"), ("Bb", 6, "unit"), ("Cc", None, "unit")])
    menu = [lambda: F("b", "u8", 5), lambda: F("b", "i16", 11), lambda: F("b", "u32"), lambda: F("b", "u64", 41), lambda: F("b", "i128"), lambda: F("b", "bool"),
            lambda: F("b", "char", 21), lambda: F("b", "f64"), lambda: F("b", "u8", 13, arr=("block", 2)), lambda: F("b", "u16", 9, arr=("elem", 3)),
            lambda: F("b", in13, 13), lambda: F("b", pe, 4), lambda: F("b", "i32", 24), lambda: F("b", "f32"), lambda: F("b", "u128", 100)]

    def add(fs, **kw):
        nonlocal k
        lsb, rev = MODES[(k + k // 4) % 4]
        out.append(Struct(nm(), fs, endian=("le", "be")[k // 2 % 2], lsb0=lsb, reverse=rev, **kw))
        k += 1

    # a field behind a long lead, and one with a long tail
    leads = (7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257)
    for i, lead in enumerate(leads):
        for j, m in enumerate(menu):
            if not full and (j + i) % (2 if lead < 40 else 3 if lead < 100 else 5):
                continue
            p = (3 * i + 5 * j) % 8
            l = F("lead", ("u8", "u16", "u64", "u128")[j % 4], None)
            w = WIDTH[l.ty] // 8
            if lead < w:
                l.ty, w = "u8", 1
            ln = lead // w
            l.arr, l.n = ("elem", ln), None if j % 3 else WIDTH[l.ty]
            rest = lead - ln * w
            fs = [l] + ([F("r", "u8", arr=("elem", rest))] if rest else []) + ([F("a", "u8", p)] if p else []) + [m(), F("c", "u8", 1 + k % 8)]
            add(fs)
            if lead > 16 and (full or (i + j) % 3 == 0):
                add([F("a", "u8", 1 + p % 7), m(), F("tail", "u16", arr=("elem", lead // 2)), F("z", "u8", 3)])
    # long arrays
    for ln in (4, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 64, 65, 100):
        for j, (ty, n, kind) in enumerate((("bool", 1, "elem"), ("u8", 3, "elem"), ("u8", 8, "elem"), ("i16", 9, "elem"), ("u32", 24, "plain"), ("i8", 7, "plain"), ("u8", 0, "block"), ("i16", 0, "block"), ("u64", 33, "elem"),
                                           (in13, 13, "elem"), (pe, 3, "elem"), ("char", 21, "elem"), ("f32", None, "elem"), ("u128", 70, "elem"))):
            if not full and (j + ln) % (2 if ln < 13 else 4 if ln < 40 else 6):
                continue
            if kind == "block":
                n = WIDTH[ty] * (ln - 1) + 1 + (j * 3 + ln * 5) % WIDTH[ty]
            p = (k * 3) % 8
            f = F("b", ty, n, arr=(kind, ln), how="size" if ty is in13 else None)
            add(([F("a", "u8", p)] if p else []) + [f, F("c", "i16", 1 + k % 13)])
    # many fields
    for cnt in (7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 26, 31, 32, 33, 40, 50, 64, 65, 80):
        for s in range(4 if full else 2):
            fs = []
            for i in range(cnt):
                f = menu[(i * (1 + s) + k) % len(menu) if s else 5]() if cnt < 20 or i % 5 == s else (F("b", "bool"), F("b", "u8", 1 + i % 8), F("b", "i16", 9 + i % 5))[i % 3]
                f.name = f"f{i}"
                fs.append(f)
            add(fs)
    # long reserves, read_only arrays, redundant ranges over long arrays, much filling
    for i, ln in enumerate((9, 12, 16, 17, 31, 32)):
        for j in range(4):
            p = (i * 5 + j * 3) % 8
            f = F("b", ("u8", "i16", "bool", "u32")[(i + j) % 4], (6, 13, 1, 20)[(i + j) % 4], arr=("elem", ln), reserve=j % 2 == 0, read_only=j % 2 == 1)
            add(([F("a", "u8", p)] if p else []) + [f, F("c", "u16", 3 + k % 9)])
        w = (6, 13, 1, 20)[i % 4] * ln
        add([F("a", "u8", 3), F("b", ("u8", "i16", "bool", "u32")[i % 4], (6, 13, 1, 20)[i % 4], arr=("elem", ln)), F("m", "u64", rng=(3 + w - 41 if w > 50 else 3, 3 + w if w > 50 else 3 + min(w, 41)), redundant=True), F("c", "u8", 5)])
    for i, fill in enumerate((20, 33, 64, 100, 129, 256, 300)):
        for j in range(4):
            add([F("a", "u8", 3 + i % 5), F("b", "i64", 37 + j * 5)], fill=fill)
    # deep nesting
    t = Struct("YDa", [F("x", "i8", 5), F("y", "bool")], endian="be")
    for d, (pre, post) in enumerate(((3, 2), (1, 6), (8, 3), (5, 5), (7, 1), (2, 11))):
        lsb, rev = MODES[(d * 3 + 1) % 4]
        t = Struct(f"YD{'bcdefgh'[d]}", [F("p", "u8", pre), F("s", t, layout(t).bits), F("q", "i16", post)], endian=("le", "be")[d % 2], lsb0=lsb, reverse=rev)
        out.append(t)
    # enums of many variants
    for nv in (8, 9, 12, 16, 17, 32, 33, 60) + ((100, 200, 256) if full else (100,)):
        for s in range(4 if full else 2):
            idb = (nv - 1).bit_length() + (0, 1, 3, 8)[(s + nv) % 4]
            vs = []
            for i in range(nv):
                fs = [] if (i + s) % 3 == 0 else [menu[(i + s) % 6]()] if (i + s) % 3 == 1 else [F("x", "u8", 1 + i % 8), F("y", "i32", 9 + i % 9)]
                vs.append(V(f"V{'abcdefghij'[i // 10 % 10]}{'abcdefghij'[i % 10]}" + ("x" * (i // 100)), fs, vid=nv - 1 - i if s == 1 else (i * 7 + 3) % nv if s == 2 and nv % 7 else None, invalid=s > 1 and i == nv // 2))
            lsb, rev = MODES[k % 4]
            out.append(Enum(nm(), vs, idb, endian=("be", "le")[k // 2 % 2], lsb0=lsb, reverse=rev))
            k += 1
    # captured ids among many variants: in the catch-all, in some of the others, in all of them
    for nv in (8, 9, 16, 17, 40) + ((100, 200) if full else (100,)):
        for s in range(6 if full else 3):
            idb = (nv - 1).bit_length() + (0, 1, 2, 9)[(s + nv) % 4]
            inv = (None, nv // 3, None, 0, nv // 2, None)[s]
            vs = []
            for i in range(nv):
                fs = [] if (i + s) % 3 == 0 else [menu[(i + s) % 6]()] if (i + s) % 3 == 1 else [F("x", "u8", 1 + i % 8), F("y", "i32", 9 + i % 9)]
                if s % 3 == 2 or (s % 3 == 1 and i % 4 == 1) or i == (nv - 1 if inv is None else inv):
                    fs.insert(0, F("cid", f"u{width_for(idb)}", capture=True))
                vs.append(V(f"V{'abcdefghij'[i // 10 % 10]}{'abcdefghij'[i % 10]}" + ("x" * (i // 100)), fs, vid=nv - 1 - i if s % 3 == 1 else None, invalid=i == inv, tuple=bool(fs) and (i + s) % 5 == 0))
            lsb, rev = MODES[(k + s) % 4]
            out.append(Enum(nm(), vs, idb, endian=("be", "le")[k // 2 % 2], lsb0=lsb, reverse=rev))
            k += 1
    # an enum with a large payload, and one in a structure
    out.append(Enum(nm(), [V("Aa", [F("a", "u8", arr=("elem", 40)), F("b", "i16", 11)]), V("Bb", [F("b", "u128"), F("c", "u64", 61), F("d", in13, 13)]), V("Cc")], 5, endian="be"))
    e = Enum(nm(), [V("Aa", [F("a", "u8", arr=("elem", 12)), F("b", "i16", 11)]), V("Bb", [F("c", "u64", 61), F("d", in13, 13)]), V("Cc")], 5, endian="be")
    out.append(e)
    out.append(Struct(nm(), [F("a", "u8", 3), F("e", e, layout(e).bits), F("c", "i64", 50)], endian="le", lsb0=True))
    return out
