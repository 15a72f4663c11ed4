"""The reference model: what a derive input means, bit by bit.

A declaration (Struct / Enum / PrimEnum below) is turned into (a) the Rust source of the derive
input, (b) the absolute position of every value bit, from the documentation's rules alone, and
(c) glue that exposes the generated functions to the explorer in /verif/rt.

Rules (bit index = 8 * byte + distance from the byte's most significant bit):
 * fields occupy consecutive ranges in declaration order, starting at bit 0; `bits = "a..b"` pins a
   range; the next field starts after the last non-redundant one;
 * the total T is the sum of the fields' lengths without overlapped bits, and at least the end of the
   last range; N = ceil(T / 8) bytes;
 * read_from = "lsb0" mirrors every range inside [0, T): [s, e) -> [T - e, T - s);
 * reverse reverses the byte array: byte i -> N - 1 - i;
 * a big endian value has its most significant bit first; a little endian one of n bits is its bytes,
   least significant byte first, every byte MSB first, the last one holding the n % 8 remaining bits;
 * arrays are consecutive elements in ascending order; a block array of B bits gives every element its
   full width except the first, which gets what is left;
 * a nested type contributes the first n bits of its own byte array."""
import re
import dataclasses, math
from dataclasses import dataclass, field as dfield
from typing import Optional, List, Tuple

WIDTH = {**{f"{s}{w}": w for s in "ui" for w in (8, 16, 32, 64, 128)}, "bool": 8, "char": 32, "f32": 32, "f64": 64}
NAT = {**WIDTH, "bool": 1}


def ceil8(n):
    return (n + 7) // 8


@dataclass(frozen=True)
class Spelling:
    """Choices of writing that have to mean nothing."""
    order: int = 0                  # which permutation of the attributes
    split: bool = False             # one #[bondrewd(..)] per attribute
    pre: str = ""                   # documentation and attributes of others in front
    post: str = ""                  # ... and behind
    vis: Optional[str] = None       # visibility
    alias: int = 0                  # other words for the endianness, other notations for numbers
    form: Optional[str] = None      # further ways to write the attribute lists
    path: Optional[tuple] = None    # in front of the name of a primitive type, and of a derived type


PLAIN = Spelling()


WORDS = {'"le"': ['"little"', '"lil"', '"lsb"'], '"be"': ['"big"', '"msb"'], '"ne"': ['"native"']}


def respell(a, k):
    if " = " not in a or not k:
        return a
    key, val = a.split(" = ", 1)
    if val in WORDS:
        val = WORDS[val][k % len(WORDS[val])]
    elif val.isdigit():
        x = int(val)
        val = [f"{x:#x}", f"{x:#b}", f"{x}usize", f"{x:#o}", f"0{x}", f"{x}_"][k % 6]
    return f"{key} = {val}"


def spelled(name, a, sp, end):
    sp = sp or PLAIN
    if sp.alias:
        a = [respell(x, sp.alias) for x in a]
    n = len(a)
    k = sp.order % math.factorial(n)
    rest, perm = list(a), []
    for i in range(n, 0, -1):
        k, j = divmod(k, i)
        perm.append(rest.pop(j))
    groups = [[x] for x in perm] if sp.split else [perm] if perm else []
    form = {None: "#[{}({})]", "comma": "#[{}({},)]", "cfg": "#[cfg_attr(all(), {}({}))]", "space": "# [ {} (\n {} ) ]", "raw": "#[{}({})]"}[sp.form]
    if sp.form == "raw":
        groups = [[re.sub(r'"(.*)"', r'r#"\1"#', x) for x in g] for g in groups]
    s = end.join(form.format(name, ", ".join(g)) for g in groups)
    return sp.pre + (s + end if s else "") + sp.post


@dataclass
class F:
    name: str
    ty: object                      # primitive name, Struct, Enum or PrimEnum
    n: Optional[int] = None         # bits of the scalar / of one element / of the whole block
    arr: Optional[tuple] = None     # ('elem', len) | ('block', len) | ('plain', len)
    how: Optional[str] = None       # how the length is declared: None = bit_length, 'byte', 'bits', 'none', 'size'
    endian: Optional[str] = None
    reserve: bool = False
    read_only: bool = False
    redundant: bool = False
    overlap: int = 0
    rng: Optional[tuple] = None
    capture: bool = False
    extra: str = ""
    inner: Optional[int] = None     # nested arrays: [[ty; inner]; len]
    spell: object = None            # Spelling


@dataclass
class Struct:
    name: str
    fields: List[F]
    endian: Optional[str] = None
    lsb0: Optional[bool] = None     # None: attribute absent; False: msb0 spelled out
    reverse: bool = False
    fill: Optional[int] = None
    extra: str = ""                 # further struct attributes
    tuple: bool = False
    derives: str = "Bitfields, Clone, Debug, PartialEq"
    spell: object = None
    is_enum = False


@dataclass
class V:
    name: str
    fields: List[F] = dfield(default_factory=list)
    disc: Optional[int] = None      # discriminant
    vid: Optional[int] = None       # variant_id attribute
    invalid: bool = False
    tuple: bool = False
    endian: Optional[str] = None
    extra: str = ""
    spell: object = None
    fill: Optional[int] = None


@dataclass
class Enum:
    name: str
    variants: List[V]
    id_bits: int
    endian: Optional[str] = None
    lsb0: Optional[bool] = None
    reverse: bool = False
    id_byte: bool = False           # spell as id_byte_length
    no_id_attr: bool = False        # id size follows from extra (enforce - payload)
    extra: str = ""
    repr: Optional[str] = None
    derives: str = "Bitfields, Clone, Debug, PartialEq"
    default: str = ""               # the value of Default, behind `Self::`
    spell: object = None
    is_enum = True


@dataclass
class PrimEnum:
    """#[derive(BitfieldEnum)]"""
    name: str
    variants: list                  # (name, disc|None, kind) kind: 'unit' | 'tuple' | 'named' ; ('invalid' flag)
    invalid: Optional[int] = None
    prim: Optional[str] = None
    partial_eq: bool = False
    derives: str = "BitfieldEnum, Clone, Debug, PartialEq"
    default: str = ""
    spell: object = None
    is_enum = False


@dataclass
class Equiv:
    """Two declarations with the same meaning (rt::Pair)."""
    name: str
    a: object
    b: object
    reversed: bool = False
    map: list = None
    swap: list = None
    fields: list = None

    def __post_init__(self):
        if self.map is None:
            n = len(leaf_names(self.a))
            self.map = list(range(n))
        if self.swap is None:
            self.swap = [False] * len(self.map)
        if self.fields is None:
            self.fields = []


def leaf_names(t):
    """(field index, leaf index in the field) of every leaf of a structure"""
    if t.is_enum:
        return []
    return [(i, k) for i, (f, first, leaves) in enumerate(layout(t).fields[0]) for k in range(len(leaves))]


class Leaf:
    __slots__ = ("pos", "w", "shift", "kind", "canon", "ty")

    def __init__(self, pos, w, shift, kind, canon, ty):
        self.pos, self.w, self.shift, self.kind, self.canon, self.ty = pos, w, shift, kind, canon, ty


def snake(name):
    out = ""
    for i, c in enumerate(name):
        if c.isupper() and i and not name[i - 1].isupper() and name[i - 1] != "_":
            out += "_"
        out += c.lower()
    return out


def total_of(t):
    return layout(t).bits


def nested_bits(t):
    return layout(t).bits


def scalar_positions(s, n, endian):
    """positions of value bits 0..n-1 (LSB first) of a scalar in [s, s + n)"""
    if endian == "be":
        return [s + n - 1 - k for k in range(n)]
    pos = []
    for k in range(n):
        j = k // 8
        chunk = min(8, n - 8 * j)
        pos.append(s + 8 * j + chunk - 1 - k % 8)
    return pos


class Layout:
    pass


def field_bits(f):
    """(bits of the whole field, list of per-element bit lengths)"""
    if isinstance(f.ty, str):
        nat = NAT[f.ty]
        width = nat if f.ty == "bool" else WIDTH[f.ty]
    elif isinstance(f.ty, PrimEnum):
        nat = width = 8
    else:
        nat = width = 8 * ceil8(nested_bits(f.ty))
    if f.rng and not f.arr:
        n = f.rng[1] - f.rng[0]
        return n, [n]
    if not f.arr:
        n = f.n if f.n is not None else nat
        return n, [n]
    kind, ln = f.arr
    if kind == "block":
        total = f.n if f.n is not None else ln * width * (f.inner or 1)
        cnt = ln * (f.inner or 1)
        els = []
        left = total
        for i in range(cnt):
            rest = (cnt - 1 - i) * width
            mine = max(0, left - rest)
            els.append(mine)
            left -= mine
        return total, els
    n = f.n if f.n is not None else nat
    cnt = ln * (f.inner or 1)
    return n * cnt, [n] * cnt


def leaf_kind(ty):
    if isinstance(ty, str):
        if ty == "bool":
            return 2, 1
        if ty == "char":
            return 3, 32
        if ty[0] == "i":
            return 1, WIDTH[ty]
        return 0, WIDTH[ty]
    if isinstance(ty, PrimEnum):
        return 5, 8
    return 4, 8 * ceil8(nested_bits(ty))


def place(fields, start, default_endian, lsb0):
    """-> (T, [(field, s, e)]) before mirroring"""
    cur = start
    total = start
    out = []
    for f in fields:
        if f.capture:
            out.append((f, 0, start))
            continue
        n, _ = field_bits(f)
        if f.rng:
            s, e = f.rng
        else:
            s, e = cur, cur + n
        out.append((f, s, e))
        if not f.redundant:
            cur = e
            total += n - f.overlap
    # bits left out between pinned ranges belong to the bitfield
    return max([total] + [e for _, _, e in out]), out


def layout(t):
    if getattr(t, "_lay", None) is not None:
        return t._lay
    L = Layout()
    if t.is_enum:
        placed = []
        sizes = []
        for v in t.variants:
            total, pl = place(v.fields, t.id_bits, v.endian or t.endian, t.lsb0)
            placed.append(pl)
            sizes.append(max(total, 8 * (v.fill or 0)))
        T = max(sizes)
        L.used = sizes
    else:
        T, pl = place(t.fields, 0, t.endian, t.lsb0)
        placed = [pl]
        L.used = [T]
        if t.fill:
            T = 8 * t.fill
    N = ceil8(T)
    L.bits, L.bytes = T, N

    def fix(p):
        return 8 * (N - 1 - p // 8) + p % 8 if t.reverse else p

    L.fields = []
    for vi, pl in enumerate(placed):
        endian = (t.variants[vi].endian if t.is_enum else None) or t.endian
        res = []
        first = 0
        for f, s, e in pl:
            if t.lsb0:
                s, e = T - e, T - s
            en = f.endian or endian or "le"
            if f.capture:
                # it is the id
                en = t.endian or "le"
                n, els = e - s, [e - s]
            else:
                n, els = field_bits(f)
            leaves = []
            cur = s
            k, w = leaf_kind(f.ty)
            for eb in els:
                if k == 4:
                    # first eb bits of the nested byte array, most significant first
                    pos = [cur + eb - 1 - i for i in range(eb)]
                    shift = w - eb
                else:
                    pos = scalar_positions(cur, eb, en)
                    shift = 0
                leaves.append(Leaf([fix(p) for p in pos], w, shift, k, None, f.ty))
                cur += eb
            res.append((f, first, leaves))
            first += len(leaves)
        L.fields.append(res)
    if t.is_enum:
        s, e = 0, t.id_bits
        if t.lsb0:
            s, e = T - e, T - s
        L.id = Leaf([fix(p) for p in scalar_positions(s, t.id_bits, t.endian or "le")],
                    next(w for w in (8, 16, 32, 64, 128) if t.id_bits <= w), 0, 0, None, None)
        used = [v.disc if v.disc is not None else v.vid for v in t.variants]
        ids = {x for x in used if x is not None}
        g = 0
        out = []
        for x in used:
            if x is None:
                while g in ids:
                    g += 1
                x = g
                ids.add(g)
                g += 1
            out.append(x)
        L.ids = out
        inv = [i for i, v in enumerate(t.variants) if v.invalid]
        L.catch = inv[0] if inv else len(t.variants) - 1
    t._lay = L
    return L


def prim_enum_model(t):
    """-> (value per variant (None: not determined by the documentation), index of the catch-all,
    whether it stores the value)"""
    store = next((i for i, (_, d, k) in enumerate(t.variants) if k != "unit"), None)
    catch = store if store is not None else t.invalid if t.invalid is not None else len(t.variants) - 1
    lits = {d for (_, d, k) in t.variants if d is not None}
    vals = []
    nxt = 0
    known = True
    for i, (_, d, k) in enumerate(t.variants):
        if k != "unit":
            vals.append(None)
            # whether a catch value variant takes a number itself is not documented
            known = False
            continue
        if d is None and known:
            while nxt in lits:
                nxt += 1
            d = nxt
            nxt += 1
        vals.append(d)
    return vals, catch, store is not None


# ---------------------------------------------------------------- rendering of derive inputs

def tyname(ty):
    return ty if isinstance(ty, str) else ty.name


def full_ty(f):
    t = tyname(f.ty)
    sp = f.spell or PLAIN
    if sp.path:
        t = sp.path[not isinstance(f.ty, str)] + t
    if f.arr:
        num = lambda x: respell(f"x = {x}", sp.alias)[4:]
        if f.inner:
            t = f"[{t}; {num(f.inner)}]"
        t = f"[{t}; {num(f.arr[1])}]"
    return t


def field_attrs(f):
    a = []
    nested = not isinstance(f.ty, str)
    if f.capture:
        a.append("capture_id")
    elif isinstance(f.ty, PrimEnum):
        a.append('enum_primitive = "u8"')
    if f.capture:
        pass
    elif f.rng:
        a.append(f'bits = "{f.rng[0]}..{f.rng[1]}"')
        if f.arr and f.arr[0] == "elem" and f.n is not None:
            a.append(f"element_byte_length = {f.n // 8}" if f.how == "byte" else f"element_bit_length = {f.n}")
        elif f.arr and f.arr[0] == "block" and f.how in ("bit", "byte"):
            a.append(f"block_byte_length = {(f.rng[1] - f.rng[0]) // 8}" if f.how == "byte" else f"block_bit_length = {f.rng[1] - f.rng[0]}")
    elif f.arr:
        kind = f.arr[0]
        if kind == "elem" and f.n is not None:
            a.append(f"element_byte_length = {f.n // 8}" if f.how == "byte" else f"element_bit_length = {f.n * (f.inner or 1)}")
        elif kind == "block" and f.n is not None:
            a.append(f"block_byte_length = {f.n // 8}" if f.how == "byte" else f"block_bit_length = {f.n}")
        elif kind == "plain" and f.n is not None:
            a.append(f"bit_length = {f.n * f.arr[1]}")
    elif f.n is not None:
        a.append(f"byte_length = {f.n // 8}" if f.how == "byte" else f"bit_length = {f.n}")
    if nested and not isinstance(f.ty, PrimEnum) and (f.how == "size" or (f.arr and f.how != "nosize" and f.n is None)):
        a.insert(0, f"struct_size = {ceil8(nested_bits(f.ty))}")
    if f.endian:
        a.append(f'endianness = "{f.endian}"')
    if f.reserve:
        a.append("reserve")
    if f.read_only:
        a.append("read_only")
    if f.redundant:
        a.append("redundant")
    if f.overlap:
        a.append(f"overlapping_bits = {f.overlap}")
    if f.extra:
        a.append(f.extra)
    return spelled("bondrewd", a, f.spell, " ")


def type_attrs(t):
    a = []
    if t.is_enum and not t.no_id_attr:
        a.append(f"id_byte_length = {t.id_bits // 8}" if t.id_byte else f"id_bit_length = {t.id_bits}")
    if t.endian:
        a.append(f'default_endianness = "{t.endian}"')
    if t.lsb0 is not None:
        a.append(f'read_from = "{"lsb0" if t.lsb0 else "msb0"}"')
    if t.reverse:
        a.append("reverse")
    if not t.is_enum and t.fill:
        a.append(f"fill_bytes = {t.fill}")
    if t.extra:
        a.append(t.extra)
    return spelled("bondrewd", a, t.spell, "\n")


def vis(x, default):
    v = x.spell.vis if x.spell else None
    return default if v is None else v


def render_fields(fields, tup, fvis=""):
    if tup:
        return "(" + ", ".join(field_attrs(f) + vis(f, fvis) + full_ty(f) for f in fields) + ")"
    return "{ " + ", ".join(f"{field_attrs(f)}{vis(f, fvis)}{f.name}: {full_ty(f)}" for f in fields) + " }"


def render(t, tvis="pub ", fvis=""):
    if isinstance(t, Equiv):
        return render(t.a) + "\n// equivalent to\n" + render(t.b)
    if isinstance(t, PrimEnum):
        a = [x for x in (t.prim, "partial_eq" if t.partial_eq else None) if x]
        own = t.spell and dataclasses.replace(t.spell, pre=t.spell.pre.replace("#[cfg(any())] Gone, ", ""))
        s = f"#[derive({t.derives})]\n" + spelled("bondrewd_enum", a, own, "\n")
        if any(k != "unit" for _, _, k in t.variants) and any(d is not None for _, d, _ in t.variants):
            s += "#[repr(u8)]\n"
        vs = []
        for i, (n, d, k) in enumerate(t.variants):
            at = "#[bondrewd_enum(invalid)] " if t.invalid == i else ""
            body = {"unit": "", "tuple": "(u8)", "named": " { value: u8 }"}[k]
            sp = t.spell or PLAIN
            vs.append(f"{sp.pre}{at}{sp.post}{n}{body}" + (respell(f" = {d}", sp.alias).replace("usize", "") if d is not None else ""))
        return s + f"{vis(t, tvis)}enum {t.name} {{ {', '.join(vs)} }}" + default_of(t)
    if not t.is_enum:
        body = render_fields(t.fields, t.tuple, fvis)
        return f"#[derive({t.derives})]\n{type_attrs(t)}{vis(t, tvis)}struct {t.name} {body}" + (";" if t.tuple else "")
    vs = []
    for v in t.variants:
        a = []
        if v.vid is not None:
            a.append(f"variant_id = {v.vid}")
        if v.invalid:
            a.append("invalid")
        if v.endian:
            a.append(f'default_endianness = "{v.endian}"')
        if v.fill:
            a.append(f"fill_bytes = {v.fill}")
        if v.extra:
            a.append(v.extra)
        s = spelled("bondrewd", a, v.spell, " ")
        s += v.name
        if v.fields:
            s += " " + render_fields(v.fields, v.tuple)
        if v.disc is not None:
            s += respell(f" = {v.disc}", v.spell.alias if v.spell else 0).replace("usize", "")
        vs.append(s)
    rp = f"#[repr({t.repr})]\n" if t.repr else ""
    return f"#[derive({t.derives})]\n{rp}{type_attrs(t)}{vis(t, tvis)}enum {t.name} {{ {', '.join(vs)} }}" + default_of(t)


def default_of(t):
    return f"\nimpl Default for {t.name} {{ fn default() -> Self {{ Self::{t.default} }} }}" if t.default else ""


def deps(t, seen=None):
    """nested types first, t last"""
    seen = [] if seen is None else seen
    if isinstance(t, Equiv):
        deps(t.a, seen)
        return deps(t.b, seen)
    if isinstance(t, PrimEnum):
        if t not in seen:
            seen.append(t)
        return seen
    fs = [f for v in t.variants for f in v.fields] if t.is_enum else t.fields
    for f in fs:
        if not isinstance(f.ty, str) and not any(f.ty is x for x in seen):
            deps(f.ty, seen)
    if not any(t is x for x in seen):
        seen.append(t)
    return seen


# ---------------------------------------------------------------- glue

def to_raw(ty, e):
    if isinstance(ty, str):
        if ty == "bool":
            return f"({e}) as u128"
        if ty == "char":
            return f"({e}) as u32 as u128"
        if ty[0] == "f":
            return f"({e}).to_bits() as u128"
        if ty[0] == "i":
            return f"({e}) as u{ty[1:]} as u128"
        return f"({e}) as u128"
    if isinstance(ty, PrimEnum):
        return f"({e}).into_primitive() as u128"
    return f"rt::pack(Bitfields::into_bytes({e}))"


def from_raw(ty, e):
    if isinstance(ty, str):
        if ty == "bool":
            return f"({e}) != 0"
        if ty == "char":
            return f"char::from_u32(({e}) as u32).unwrap()"
        if ty[0] == "f":
            return f"{ty}::from_bits(({e}) as u{ty[1:]})"
        return f"({e}) as {ty}"
    if isinstance(ty, PrimEnum):
        return f"<{ty.name} as BitfieldEnum>::from_primitive(({e}) as u8)"
    return f"<{ty.name} as Bitfields<{ceil8(nested_bits(ty))}>>::from_bytes(rt::unpack({e}))"


def field_to_raw(f, e, out, base):
    """statements storing the leaves of value expression e to out[base..]"""
    if not f.arr:
        return f"{out}[{base}] = {to_raw(f.ty, e)};"
    if f.inner:
        return (f"{{ let mut k = {base}; for x in {e} {{ for y in x {{ {out}[k] = {to_raw(f.ty, 'y')}; k += 1; }} }} }}")
    return f"{{ let mut k = {base}; for x in {e} {{ {out}[k] = {to_raw(f.ty, 'x')}; k += 1; }} }}"


def field_from_raw(f, inp, base):
    if not f.arr:
        return from_raw(f.ty, f"{inp}[{base}]")
    ln = f.arr[1]
    if f.inner:
        els = ["[" + ", ".join(from_raw(f.ty, f"{inp}[{base + i * f.inner + j}]") for j in range(f.inner)) + "]" for i in range(ln)]
    else:
        els = [from_raw(f.ty, f"{inp}[{base + i}]") for i in range(ln)]
    return "[" + ", ".join(els) + "]"


def leaf_src(l):
    canon = "None"
    if l.kind == 4:
        n = l.ty.name
        nb = ceil8(nested_bits(l.ty))
        canon = f"Some(|v| rt::pack(Bitfields::into_bytes(<{n} as Bitfields<{nb}>>::from_bytes(rt::unpack(v)))))"
    elif l.kind == 5:
        canon = f"Some(|v| <{l.ty.name} as BitfieldEnum>::from_primitive(v as u8).into_primitive() as u128)"
    return f"Leaf{{pos:&{l.pos},w:{l.w},shift:{l.shift},kind:{l.kind},canon:{canon}}}"


def glue(t, feats):
    """Rust source: module-level functions and the static Prog of t."""
    L = layout(t)
    n = t.name
    N = L.bytes
    dyn = "dyn" in feats
    hexf = "hex" in feats
    out = []
    pre = f"g_{n.lower()}"
    vsrc = []
    varis = t.variants if t.is_enum else [None]
    into_arms, from_arms, id_arms, peq_arms = [], [], [], []
    for vi, v in enumerate(varis):
        fsrc = []
        tup = v.tuple if v else t.tuple
        names = []
        cap = "usize::MAX"
        nl = 0
        ctor = []
        for idx, (f, first, leaves) in enumerate(L.fields[vi]):
            nl = first + len(leaves)
            # accessor name
            if tup:
                # the id is field 0 of a variant; a captured id stands at its place
                acc = f"field_{idx + (1 if v and not any(g.capture for g in v.fields) else 0)}"
            else:
                acc = f.name.removeprefix("r#")
            if v:
                acc = f"{snake(v.name)}_{acc}"
            if f.capture:
                cap = str(first)
            ctor.append((f.name, field_from_raw(f, "v", first)))
            names.append(f.name)
            written = not (f.reserve or f.read_only or f.redundant or f.capture)
            fn = f"{pre}_{vi}_{idx}"
            opts = {"rd": "None", "wr": "None", "rds": "None", "wrs": "None", "crd": "None", "cmrd": "None", "cwr": "None", "urd": "None", "umrd": "None", "uwr": "None"}
            k = len(leaves)
            if not f.capture:
                out.append(f"fn {fn}r(b: &[u8], o: &mut [u128]) {{ let x = {n}::read_{acc}(b.try_into().unwrap()); {field_to_raw(f, 'x', 'o', 0)} }}")
                out.append(f"fn {fn}w(b: &mut [u8], v: &[u128]) {{ {n}::write_{acc}(b.try_into().unwrap(), {field_from_raw(f, 'v', 0)}); }}")
                opts["rd"], opts["wr"] = f"Some({fn}r)", f"Some({fn}w)"
                if dyn:
                    out.append(f"fn {fn}rs(b: &[u8], o: &mut [u128]) -> LenRes {{ let x = {n}::read_slice_{acc}(b).map_err(|e| (e.0, e.1))?; {field_to_raw(f, 'x', 'o', 0)} Ok(()) }}")
                    out.append(f"fn {fn}ws(b: &mut [u8], v: &[u128]) -> LenRes {{ {n}::write_slice_{acc}(b, {field_from_raw(f, 'v', 0)}).map_err(|e| (e.0, e.1)) }}")
                    opts["rds"], opts["wrs"] = f"Some({fn}rs)", f"Some({fn}ws)"
                    out.append(f"fn {fn}c(b: &[u8], o: &mut [u128]) -> LenRes {{ let c = {n}::check_slice(b).map_err(|e| (e.0, e.1))?; let x = c.read_{acc}(); {field_to_raw(f, 'x', 'o', 0)} Ok(()) }}")
                    out.append(f"fn {fn}m(b: &mut [u8], o: &mut [u128]) -> LenRes {{ let c = {n}::check_slice_mut(b).map_err(|e| (e.0, e.1))?; let x = c.read_{acc}(); {field_to_raw(f, 'x', 'o', 0)} Ok(()) }}")
                    out.append(f"fn {fn}cw(b: &mut [u8], v: &[u128]) -> LenRes {{ let mut c = {n}::check_slice_mut(b).map_err(|e| (e.0, e.1))?; c.write_{acc}({field_from_raw(f, 'v', 0)}); Ok(()) }}")
                    out.append(f"fn {fn}u(b: &[u8], o: &mut [u128]) {{ let x = {n}Checked::from_unchecked_slice(b).read_{acc}(); {field_to_raw(f, 'x', 'o', 0)} }}")
                    out.append(f"fn {fn}um(b: &mut [u8], o: &mut [u128]) {{ let x = {n}CheckedMut::from_unchecked_slice(b).read_{acc}(); {field_to_raw(f, 'x', 'o', 0)} }}")
                    out.append(f"fn {fn}uw(b: &mut [u8], v: &[u128]) {{ {n}CheckedMut::from_unchecked_slice(b).write_{acc}({field_from_raw(f, 'v', 0)}); }}")
                    opts["urd"], opts["umrd"], opts["uwr"] = f"Some({fn}u)", f"Some({fn}um)", f"Some({fn}uw)"
                    opts["crd"], opts["cmrd"], opts["cwr"] = f"Some({fn}c)", f"Some({fn}m)", f"Some({fn}cw)"
            fsrc.append(f'Field{{name:"{acc}",first:{first},leaves:&[{",".join(leaf_src(l) for l in leaves)}],reserve:{str(f.reserve).lower()},written:{str(written).lower()},'
                        + ",".join(f"{a}:{b}" for a, b in opts.items()) + "}")
        path = f"{n}::{v.name}" if v else n
        if tup:
            build = f"{path}({', '.join(e for _, e in ctor)})"
            pat = f"{path}({', '.join(f'f{i}' for i in range(len(ctor)))})"
        elif ctor:
            build = f"{path} {{ {', '.join(f'{a}: {e}' for a, e in ctor)} }}"
            pat = f"{path} {{ {', '.join(f'{a}: f{i}' for i, (a, _) in enumerate(ctor))} }}"
        else:
            build = pat = path
        into_arms.append(f"{vi} => {build},")
        body = " ".join(field_to_raw(f, f"f{i}", "o", first) for i, (f, first, leaves) in enumerate(L.fields[vi]))
        from_arms.append(f"{pat} => {{ {body} {vi} }}")
        vsrc.append(f'Variant{{name:"{v.name if v else n}",id:{L.ids[vi] if v else 0},capture:{cap},nleaves:{nl},fields:&[{",".join(fsrc)}]}}')
    out.append(f"fn {pre}_mk(i: usize, v: &[u128]) -> {n} {{ match i {{ {' '.join(into_arms)} _ => unreachable!() }} }}")
    out.append(f"fn {pre}_un(s: {n}, o: &mut [u128]) -> usize {{ match s {{ {' '.join(from_arms)} }} }}")
    out.append(f"fn {pre}_into(i: usize, v: &[u128], o: &mut [u8]) {{ o.copy_from_slice(&Bitfields::into_bytes({pre}_mk(i, v))); }}")
    out.append(f"fn {pre}_from(b: &[u8], o: &mut [u128]) -> usize {{ {pre}_un(<{n} as Bitfields<{N}>>::from_bytes(b.try_into().unwrap()), o) }}")
    en = "None"
    if t.is_enum:
        idt = f"u{L.id.w}"
        out.append(f"fn {pre}_rid(b: &[u8]) -> u128 {{ {n}::read_variant_id(b.try_into().unwrap()) as u128 }}")
        out.append(f"fn {pre}_wid(b: &mut [u8], v: u128) {{ {n}::write_variant_id(b.try_into().unwrap(), v as {idt}) }}")
        out.append(f"fn {pre}_id(i: usize, v: &[u128]) -> u128 {{ {pre}_mk(i, v).id() as u128 }}")
        peq = "None"
        if "nopeq" not in feats:
            out.append(f"fn {pre}_peq(i: usize, v: &[u128], x: u128) -> bool {{ {pre}_mk(i, v) == (x as {idt}) }}")
            peq = f"Some({pre}_peq)"
        rids = "None"
        if dyn:
            out.append(f"fn {pre}_rids(b: &[u8]) -> Result<u128, (usize, usize)> {{ {n}::read_slice_variant_id(b).map(|x| x as u128).map_err(|e| (e.0, e.1)) }}")
            rids = f"Some({pre}_rids)"
        en = f"Some(EnumInfo{{rids:{rids},id:{leaf_src(L.id)},catch:{L.catch},rid:{pre}_rid,wid:{pre}_wid,id_of:{pre}_id,peq:{peq}}})"
    fs = fv = "None"
    if dyn:
        out.append(f"fn {pre}_fs(b: &[u8], o: &mut [u128]) -> Result<usize, (usize, usize)> {{ Ok({pre}_un(<{n} as BitfieldsDyn<{N}>>::from_slice(b).map_err(|e| (e.0, e.1))?, o)) }}")
        out.append(f"fn {pre}_fv(b: &mut Vec<u8>, o: &mut [u128]) -> Result<usize, (usize, usize)> {{ Ok({pre}_un(<{n} as BitfieldsDyn<{N}>>::from_vec(b).map_err(|e| (e.0, e.1))?, o)) }}")
        fs, fv = f"Some({pre}_fs)", f"Some({pre}_fv)"
    hx = "None"
    if hexf:
        H = 2 * N
        out.append(f"fn {pre}_hu(i: usize, v: &[u128], o: &mut [u8]) {{ o.copy_from_slice(&BitfieldHex::<{H}, {N}>::into_hex_upper({pre}_mk(i, v))); }}")
        out.append(f"fn {pre}_hl(i: usize, v: &[u128], o: &mut [u8]) {{ o.copy_from_slice(&BitfieldHex::<{H}, {N}>::into_hex_lower({pre}_mk(i, v))); }}")
        out.append(f"fn {pre}_hf(b: &[u8], o: &mut [u128]) -> HexRes {{ match <{n} as BitfieldHex<{H}, {N}>>::from_hex(b.try_into().unwrap()) {{ Ok(s) => HexRes::Ok({pre}_un(s, o)), Err(e) => HexRes::Bad(e.0, e.1) }} }}")
        hs = hv = "None"
        if dyn:
            conv = "Err(BitfieldHexDynError::Hex(e)) => HexRes::Bad(e.0, e.1), Err(BitfieldHexDynError::Length(e)) => HexRes::Len(e.0, e.1)"
            out.append(f"fn {pre}_hs(b: &[u8], o: &mut [u128]) -> HexRes {{ match <{n} as BitfieldHexDyn<{H}, {N}>>::from_hex_slice(b) {{ Ok(s) => HexRes::Ok({pre}_un(s, o)), {conv} }} }}")
            out.append(f"fn {pre}_hv(b: &mut Vec<u8>, o: &mut [u128]) -> HexRes {{ match <{n} as BitfieldHexDyn<{H}, {N}>>::from_hex_vec(b) {{ Ok(s) => HexRes::Ok({pre}_un(s, o)), {conv} }} }}")
            hs, hv = f"Some({pre}_hs)", f"Some({pre}_hv)"
        out.append(f"static {pre.upper()}_HEX: Hex = Hex{{size:<{n} as BitfieldHex<{H}, {N}>>::HEX_SIZE,upper:{pre}_hu,lower:{pre}_hl,from:{pre}_hf,from_slice:{hs},from_vec:{hv}}};")
        hx = f"Some(&{pre.upper()}_HEX)"
    fills = []
    decl = "\n".join(render(d) for d in deps(t))
    ov = any(f.overlap for fl in L.fields for f, _, _ in fl)
    out.append(f'static {pre.upper()}: Prog = Prog{{name:"{n}",decl:r###"{decl}"###,bits:{L.bits},bytes:{L.bytes},'
               f'real_bits:<{n} as Bitfields<{N}>>::BIT_SIZE,real_bytes:<{n} as Bitfields<{N}>>::BYTE_SIZE,'
               f'overlap:{str(bool(ov)).lower()},en:{en},variants:&[{",".join(vsrc)}],into:{pre}_into,from:{pre}_from,from_slice:{fs},from_vec:{fv},hex:{hx},'
               f'fills:&[{",".join(fills)}]}};')
    return "\n".join(out), f"&{pre.upper()}"


def prim_glue(t):
    vals, catch, stores = prim_enum_model(t)
    n = t.name
    pre = f"p_{n.lower()}"
    pats = {"unit": "", "tuple": "(x)", "named": " { value: x }"}
    un = " ".join(f"{n}::{v}{pats[k]} => ({i}, {'0' if k == 'unit' else 'x'})," for i, (v, d, k) in enumerate(t.variants))
    mk = " ".join(f"{i} => {n}::{v}{pats[k]}," for i, (v, d, k) in enumerate(t.variants))
    out = [f"fn {pre}_mk(i: usize, x: u8) -> {n} {{ match i {{ {mk} _ => unreachable!() }} }}",
           f"fn {pre}_from(x: u8) -> (usize, u8) {{ match <{n} as BitfieldEnum>::from_primitive(x) {{ {un} }} }}",
           f"fn {pre}_into(i: usize, x: u8) -> u8 {{ {pre}_mk(i, x).into_primitive() }}"]
    peq = "None"
    if t.partial_eq:
        out.append(f"fn {pre}_peq(i: usize, s: u8, x: u8) -> bool {{ {pre}_mk(i, s) == x }}")
        peq = f"Some({pre}_peq)"
    out.append(f'static {pre.upper()}: Prim = Prim{{name:"{n}",decl:r###"{render(t)}"###,names:&[{",".join(chr(34) + v + chr(34) for v, _, _ in t.variants)}],'
               f'values:&[{",".join("None" if x is None else f"Some({x})" for x in vals)}],catch:{catch},stores:{str(stores).lower()},from:{pre}_from,into:{pre}_into,peq:{peq}}};')
    return "\n".join(out), f"&{pre.upper()}"


PRELUDE = """#![allow(dead_code, deprecated, unused, non_camel_case_types, non_snake_case, non_upper_case_globals, overlapping_range_endpoints, unreachable_patterns)]
extern crate rt;
use rt::bondrewd as bondrewd;
use rt::bondrewd::*;
use rt::{Pair, Prim, Prog, Field, Leaf, Variant, EnumInfo, Hex, HexRes, LenRes};
#[allow(unused_imports)]
mod far { pub mod off { pub use crate::*; } }
"""


#: where the declarations stand, seen from the code that uses them:
#: name -> (in a crate of their own, the visibility of the types and of the structures' fields)
PLACES = {
    "crate": (True, "pub "),
    "pub": (False, "pub "),
    "pub(crate)": (False, "pub(crate) "),
    "pub(super)": (False, "pub(super) "),
    "pub(in crate)": (False, "pub(in crate) "),
    "names": (False, "pub "),
    "fn": (False, ""),
    "macro": (False, "pub "),
}

#: what stands beside the declarations: own items with the names of the prelude
BESIDE = {"names": """
pub type Result<T> = core::result::Result<T, u8>;
pub type Option<T> = core::option::Option<(T, T)>;
pub struct Vec; pub struct String; pub struct Box;
pub enum Answer { Ok, Err, Some, None }
pub use Answer::*;
"""}


class Source:
    """lines of a file and which declaration they belong to"""

    def __init__(self, head):
        self.src = [head]
        self.line = head.count("\n") + 1
        self.spans = []  # (first line, last line, type)

    def emit(self, s, t=None):
        self.src.append(s + "\n")
        k = s.count("\n") + 1
        if t:
            self.spans.append((self.line, self.line + k - 1, t))
        self.line += k

    def text(self):
        return "".join(self.src)


def chunk_source(types, feats, attrs="", place=None):
    """types: top-level types to explore. Returns the sources: the program, and with place = "crate" the
    library of the declarations in front of it"""
    head = (attrs + "\n" if attrs else "") + PRELUDE
    tvis, fvis = (PLACES[place][1],) * 2 if place else ("pub ", "")
    regs, prims, pairs = [], [], []
    use = Source(head)
    out = [use]
    lib = use
    if place == "crate":
        lib = Source(head)
        out = [lib, use]
        use.emit("extern crate decls;\nuse decls::*;")
    elif place == "fn":
        use.emit("fn main() {")
    elif place == "macro":
        use.emit("macro_rules! decls { () => {")
    elif place:
        use.emit("mod decls {\nuse super::*;" + BESIDE.get(place, ""))

    done_ids = set()
    for t in types:
        for d in deps(t):
            if id(d) not in done_ids:
                done_ids.add(id(d))
                lib.emit(render(d, tvis, fvis), t.name if isinstance(t, Equiv) else d.name)
    if place == "macro":
        use.emit("} }\ndecls! {}")
    elif place not in (None, "crate", "fn"):
        use.emit("}")
        for d in {d.name: d for t in types for d in deps(t)}.values():
            views = ("", "Checked", "CheckedMut") if "dyn" in feats and not isinstance(d, PrimEnum) else ("",)
            use.emit("use decls::{" + ", ".join(d.name + x for x in views) + "};", d.name)
    for t in types:
        if isinstance(t, Equiv):
            ga, ra = glue(t.a, feats)
            gb, rb = glue(t.b, feats)
            use.emit(ga, t.name)
            use.emit(gb, t.name)
            pairs.append(f'&Pair{{name:"{t.name}",a:{ra},b:{rb},reversed:{str(t.reversed).lower()},map:&{t.map},swap:&[{",".join(str(x).lower() for x in t.swap)}],fields:&{t.fields}}}')
            continue
        g, r = prim_glue(t) if isinstance(t, PrimEnum) else glue(t, feats)
        use.emit(g, t.name)
        (prims if isinstance(t, PrimEnum) else regs).append(r)
    use.emit(f"static PROGS: &[&Prog] = &[{', '.join(regs)}];\nstatic PRIMS: &[&Prim] = &[{', '.join(prims)}];\nstatic PAIRS: &[&Pair] = &[{', '.join(pairs)}];")
    run = "rt::run(PROGS, PRIMS, PAIRS);"
    use.emit(run + " }" if place == "fn" else f"fn main() {{ {run} }}")
    return out
