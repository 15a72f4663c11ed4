"""Spaces of declarations with the documented verdict: accepted, with which sizes, or rejected."""
import dataclasses, itertools
import cover, model, universe
from accept import D
from model import F, WIDTH, ceil8, field_bits, layout, place

MODE_ATTRS = ["", ', read_from = "lsb0"', ", reverse", ', read_from = "lsb0", reverse']


class Out(list):
    def __init__(self):
        self.k = 0

    def mode(self):
        self.k += 1
        return MODE_ATTRS[(self.k + self.k // 4) % 4]

    def struct(self, rule, body, want, bits=None, attrs="", mode=None):
        m = self.mode() if mode is None else mode
        en = ("be", "le")[self.k // 2 % 2]
        src = f'#[derive(Bitfields)]\n#[bondrewd(default_endianness = "{en}"{m}{", " + attrs if attrs else ""})]\npub struct T {{ {body} }}'
        self.append(D(rule, src, want, ("T", bits, ceil8(bits)) if want and bits is not None else None))

    def enum(self, rule, body, want, bits=None, attrs="", mode=None, repr=None):
        m = self.mode() if mode is None else mode
        en = ("be", "le")[self.k // 2 % 2]
        src = f'#[derive(Bitfields)]\n' + (f"#[repr({repr})]\n" if repr else "") + f'#[bondrewd(default_endianness = "{en}"{m}{", " + attrs if attrs else ""})]\npub enum T {{ {body} }}'
        self.append(D(rule, src, want, ("T", bits, ceil8(bits)) if want and bits is not None else None))

    def prim(self, rule, body, want, attrs="", repr=None):
        src = "#[derive(BitfieldEnum)]\n" + (f"#[repr({repr})]\n" if repr else "") + f"{attrs}\npub enum T {{ {body} }}"
        if want is not False:
            # the associated primitive has to be u8 and the trait implemented
            src += "\npub fn t(x: T) -> u8 { x.into_primitive() }\npub fn f(x: u8) -> T { <T as BitfieldEnum>::from_primitive(x) }"
        self.append(D(rule, src, want, None))


def fld(n, ty, attrs):
    return (f"#[bondrewd({attrs})] " if attrs else "") + f"{n}: {ty}"


def ranges(full=False):
    """Every pair of bit ranges: overlapping ones need to be declared."""
    o = Out()
    L = 8 if full else 6
    rs = [(s, e) for s in range(L) for e in range(s + 1, L + 1)]
    for i, a in enumerate(rs):
        for j, b in enumerate(rs):
            ov = max(0, min(a[1], b[1]) - max(a[0], b[0]))
            A, B = (f'bits = "{x[0]}..{x[1]}"' for x in (a, b))
            end = max(a[1], b[1])
            o.struct("overlap", fld("a", "u8", A) + ", " + fld("b", "u16", B), ov == 0, end)
            if ov:
                if b[1] - b[0] > ov or b != a:
                    o.struct("overlapping_bits", fld("a", "u8", A) + ", " + fld("b", "u8", f"{B}, overlapping_bits = {ov}"), True,
                             max(end, a[1] - a[0] + b[1] - b[0] - ov))
                if ov == b[1] - b[0]:
                    o.struct("redundant", fld("a", "u8", A) + ", " + fld("b", "u8", f"{B}, redundant"), True, end)
            if (i + j) % 3 == 0 or full:
                # the same inside an enum variant, behind an id of three bits
                A, B = (f'bits = "{x[0] + 3}..{x[1] + 3}"' for x in (a, b))
                o.enum("overlap in a variant", f"One {{ {fld('a', 'u8', A)}, {fld('b', 'u8', B)} }}, Two", ov == 0, end + 3, "id_bit_length = 3")
    # ranges over the id of an enum
    for s in range(0, 5):
        for e in range(s + 1, 8):
            bits = f'bits = "{s}..{e}"'
            o.enum("overlap with the id", f"One {{ {fld('a', 'u8', bits)} }}, Two", s >= 3, max(e, 3), "id_bit_length = 3")
    # three fields, the third against the first
    for s in range(0, 12):
        bits = f'bits = "{s}..{s + 4}"'
        o.struct("overlap", f"{fld('a', 'u8', 'bit_length = 5')}, {fld('b', 'u8', 'bit_length = 4')}, {fld('c', 'u8', bits)}", s >= 9, s + 4)
        o.struct("overlap", f"{fld('c', 'u8', bits)}, {fld('a', 'u8', 'bit_length = 3')}", True, max(s + 7, 3))
    # an unpinned field running into a pinned one
    for s in range(0, 9):
        for n in range(1, 9):
            bits = f'bits = "{s}..{s + 3}"'
            o.struct("overlap", f"{fld('x', 'u8', 'bit_length = 2')}, {fld('p', 'u8', 'reserve, ' + bits)}, {fld('a', 'u16', f'bit_length = {n}')}",
                     s >= 2, s + 3 + n)
    # every pair of positions in longer declarations, every way two ranges of up to four bits can touch
    touch = [((0, 4), (4, 8)), ((0, 4), (0, 4)), ((0, 4), (3, 7)), ((3, 7), (0, 4)), ((0, 4), (1, 3)), ((1, 3), (0, 4)), ((0, 4), (0, 2)), ((0, 4), (2, 4)), ((4, 8), (0, 4))]
    for n in range(3, 9 if full else 7):
        for i, j in itertools.combinations(range(n), 2):
            for x, y in touch:
                for down in (False, True):
                    pos = 8
                    at = {i: x, j: y}
                    rest = [k for k in range(n) if k not in at]
                    for k in reversed(rest) if down else rest:
                        at[k] = (pos, pos + 3)
                        pos += 3
                    ok = not max(x[0], y[0]) < min(x[1], y[1])
                    o.struct("overlap of distant fields", ", ".join(fld("abcdefgh"[k], "u8", f'bits = "{at[k][0]}..{at[k][1]}"') for k in range(n)), ok, pos)
                    if not ok and not down and n < 6:
                        o.enum("overlap of distant fields", "A { " + ", ".join(fld("abcdefgh"[k], "u8", f'bits = "{at[k][0] + 2}..{at[k][1] + 2}"') for k in range(n)) + " }, B", False, None, "id_bit_length = 2")
    # the same touching ranges far behind the start, and long fields against single bits
    for base in (25, 60, 64, 120, 128, 250, 256, 1000, 2040):
        for x, y in touch:
            for flip in (False, True):
                two = [fld(n, "u8", f'bits = "{base + r[0]}..{base + r[1]}"') for n, r in (("a", x), ("b", y))]
                ok = not max(x[0], y[0]) < min(x[1], y[1])
                o.struct("overlap at scale", ", ".join(two[::-1] if flip else two), ok, base + max(x[1], y[1]))
                if flip:
                    o.enum("overlap at scale", "A { v: [u8; 3] }, B { " + ", ".join(two) + " }", ok, max(base + max(x[1], y[1]), 29), "id_bit_length = 5")
    for ty, n in (("u64", 64), ("i128", 128), ("[u8; 40]", 320), ("[u32; 9]", 288), ("[i16; 100]", 1600), ("f64", 64)):
        for s in (0, 3):
            e = s + n
            for b in sorted({0, s, s + 1, s + n // 2, s + 31, s + 63, e - 8, e - 1, e, e + 1, e + 7, e + 40, s + 256}):
                for seq in (False, True):
                    two = [fld("a", ty, f'bits = "{s}..{e}"' if s or not seq else ""), fld("b", "bool" if b % 2 else "u8", f'bits = "{b}..{b + 1}"')]
                    if not seq:
                        two = two[::-1]
                    o.struct("overlap at scale", ", ".join(two), b < s or b >= e, max(e, b + 1))
    # more shared bits than the field has
    for n in (1, 3, 4, 7, 8):
        for ov in (n, n + 1, n + 2, 8, 9, 16, 255):
            if ov >= n:
                for at in (f'bits = "{8 - n}..8"', f'bits = "{16 - n}..16"', f"bit_length = {n}", f'bits = "0..{n}"'):
                    if ov > n:
                        o.struct("more overlapping_bits than bits", fld("a", "u16", "") + ", " + fld("b", "u8", f"{at}, overlapping_bits = {ov}") + ", c: u8", False)
                        o.struct("more overlapping_bits than bits", fld("b", "u8", f"{at}, overlapping_bits = {ov}"), False)
                        o.enum("more overlapping_bits than bits", f"A {{ {fld('x', 'u16', '')}, {fld('b', 'u8', f'bit_length = {n}, overlapping_bits = {ov}')} }}, B", False, attrs="id_bit_length = 2")
                    elif "0.." not in at and "length" not in at and n != 8:
                        o.struct("overlapping_bits", fld("a", "u8", "") + ", " + fld("b", "u8", f"{at}, overlapping_bits = {ov}"), True if at.endswith("8\"") else None)
    # arrays, nested types and enums take part as well
    inner = '#[derive(Bitfields)]\npub struct I { v: u8 }\n#[derive(BitfieldEnum)]\npub enum P { A, B, C }\n'
    for ty, at in (("[u8; 3]", 'bits = "2..14"'), ("[u16; 2]", 'bits = "2..14", block_bit_length = 12'), ("[u8; 2]", 'bits = "2..14", element_bit_length = 6'),
                   ("I", 'bits = "2..10"'), ("P", 'bits = "2..9", enum_primitive = "u8"'), ("f32", 'bits = "2..34"'), ("char", 'bits = "2..24"'), ("bool", 'bits = "2..3"'), ("i64", 'bits = "2..40"')):
        e = int(at.split("..")[1].split('"')[0])
        if ty == "[u16; 2]":
            at, e = 'bits = "2..28", block_bit_length = 26', 28
        for s in (0, 1, 2, e // 2, e - 1, e, e + 3):
            for flip in (False, True):
                two = [fld("a", ty, at), fld("b", "u8", f'bits = "{s}..{s + 1}"')]
                o.append(D("overlap by kind", inner + '#[derive(Bitfields)]\n#[bondrewd(default_endianness = "le")]\npub struct T { ' + ", ".join(two[::-1] if flip else two) + " }",
                           s < 2 or s >= e, ("T", max(e, s + 1), ceil8(max(e, s + 1)))))
    # empty and inverted ranges
    for s, e in ((0, 0), (3, 3), (3, 0), (5, 2)):
        o.struct("empty range", fld("a", "u8", f'bits = "{s}..{e}"') + ", b: u8", False)
    return o


def lengths(full=False):
    """Every length of every scalar type up to its width, floats only full sized, arrays."""
    o = Out()
    for ty, w in WIDTH.items():
        lim = 1 if ty == "bool" else w
        for n in range(0, lim + 1):
            if not full and 40 < n < w - 2 and n % 5:
                continue
            ok = n >= 1 and (ty not in ("f32", "f64") or n == w)
            o.struct("bit_length", fld("a", ty, f"bit_length = {n}"), ok, n)
            if full or n % 3 == 0:
                o.struct("bits", "z: bool, " + fld("a", ty, f'bits = "1..{n + 1}"'), ok, n + 1)
        for n in range(1, lim // 8 + 1):
            o.struct("byte_length", fld("a", ty, f"byte_length = {n}"), ty not in ("f32", "f64") or n * 8 == w, 8 * n)
        o.struct("default length", f"a: {ty}", True, lim)
    for ty in ("f32", "f64"):
        for n in (WIDTH[ty] + 1, WIDTH[ty] + 8, 2 * WIDTH[ty]):
            o.struct("bit_length", fld("a", ty, f"bit_length = {n}"), False)
    # arrays
    for ty in ("u8", "i16", "u32", "bool", "char", "f32"):
        w = WIDTH[ty]
        lim = 1 if ty == "bool" else w
        for ln in (1, 2, 3, 4) if full else (1, 3):
            for n in range(1, lim + 1):
                if not full and n > 12 and n < lim - 1 and n % 4:
                    continue
                ok = ty != "f32" or n == 32
                o.struct("element_bit_length", fld("a", f"[{ty}; {ln}]", f"element_bit_length = {n}"), ok, n * ln)
                for tot in {n * ln, n * ln + 1, n * ln - 1} - {0}:
                    if ln > 1:
                        o.struct("element_bit_length against bits", fld("a", f"[{ty}; {ln}]", f'bits = "0..{tot}", element_bit_length = {n}'), ok and tot == n * ln, tot)
            for tot in range(1, lim * ln + 1) if full or lim * ln < 40 else range(1, lim * ln + 1, 7):
                ok = tot % ln == 0 and (ty != "f32" or tot == 32 * ln)
                o.struct("bit_length of an array", fld("a", f"[{ty}; {ln}]", f"bit_length = {tot}"), ok, tot)
                if ty in ("u8", "i16", "u32") and tot > (ln - 1) * w:
                    o.struct("block_bit_length", fld("a", f"[{ty}; {ln}]", f"block_bit_length = {tot}"), True, tot)
                    for r in (tot - 1, tot + 1):
                        if r:
                            o.struct("block_bit_length against bits", fld("a", f"[{ty}; {ln}]", f'bits = "0..{r}", block_bit_length = {tot}'), False)
    # a field without bits, however it is spelled and wherever it stands
    inner = "#[derive(Bitfields)]\npub struct I { v: u8 }\n#[derive(BitfieldEnum)]\npub enum P { A, B, C }\n"
    none = [(at, ty) for ty in ("u8", "u128", "i32", "bool", "char", "f32", "f64", "[u8; 2]", "I") for at in ("bit_length = 0", "byte_length = 0")]
    none += [(f'bits = "{k}..{k}"', ty) for ty in ("u8", "i16", "bool", "[u8; 2]", "I") for k in (0, 1, 3, 8, 40)]
    none += [(at, "[u8; 2]") for at in ("element_bit_length = 0", "element_byte_length = 0", "block_bit_length = 0", "block_byte_length = 0", 'bits = "0..0", element_bit_length = 0', 'bits = "0..8", element_bit_length = 0')]
    none += [("struct_size = 0", "I"), ("struct_size = 1, bit_length = 0", "I"), ("struct_size = 0", "[I; 2]"), ('enum_primitive = "u8", bit_length = 0', "P")]
    none += [(f"bit_length = 0, {r}", "u8") for r in ("reserve", "read_only", 'endianness = "le"')] + [(f'bits = "0..0", {r}', "u8") for r in ("redundant", "reserve", "overlapping_bits = 0")]
    for at, ty in none:
        for before, after in (("", ""), ("b: u16, ", ""), ("", ", c: u8"), ("b: u16, ", ", c: u8")):
            f = before + fld("a", ty, at) + after
            o.struct("no bits", f, False)
            o.enum("no bits", f"A, B {{ {f} }}", False, attrs="id_bit_length = 3")
            for d in o[-2:]:
                d.src = inner + d.src
    # a length given twice
    for a, b in itertools.permutations(("bit_length = 8", "byte_length = 1", 'bits = "0..8"'), 2):
        if "bits" in a + b:
            continue
        o.struct("length twice", fld("a", "u8", f"{a}, {b}"), False)
    return o


def enforce(full=False):
    """enforce_bits, enforce_bytes, enforce_full_bytes and fill_bytes against every total."""
    o = Out()

    def shapes(t):
        """structures of t bits"""
        yield fld("a", "u64", f"bit_length = {t}")
        if t > 3:
            yield fld("a", "u64", f"bit_length = {t - 3}") + ", " + fld("r", "u8", "bit_length = 3, reserve")
            yield fld("r", "u8", "bit_length = 3, redundant") + ", " + fld("a", "u64", f"bit_length = {t}")
            yield fld("a", "u64", f"bit_length = {t - 1}") + ", " + fld("o", "u8", f'bits = "{t - 3}..{t}", overlapping_bits = 2')
            yield fld("a", "i64", f"bit_length = {t - 3}") + ", " + fld("o", "[u8; 3]", "element_bit_length = 1")
            yield fld("b", "bool", "read_only") + ", " + fld("a", "i64", f"bit_length = {t - 1}")

    for t in range(1, 34 if full else 20):
        for si, body in enumerate(shapes(t)):
            if not full and si not in (0, 1 + t % 5):
                continue
            lo, hi = (0, t + 9) if full else (max(0, t - 2), t + 2)
            for e in sorted({*range(lo, hi + 1), 8 * (t // 8), 8 * ceil8(t)}):
                o.struct("enforce_bits", body, e == t, t, f"enforce_bits = {e}")
            for e in range(0, ceil8(t) + 3):
                o.struct("enforce_bytes", body, 8 * e == t, t, f"enforce_bytes = {e}")
            o.struct("enforce_full_bytes", body, t % 8 == 0, t, "enforce_full_bytes")
            for e in (t, t + 1):
                for p in itertools.permutations((f"enforce_bits = {e}", "enforce_full_bytes")):
                    o.struct("enforce_bits and enforce_full_bytes", body, t % 8 == 0 and e == t, t, ", ".join(p))
            for f in range(0, ceil8(t) + 3):
                ok = 8 * f >= t
                o.struct("fill_bytes", body, ok, 8 * f, f"fill_bytes = {f}")
                for e in (t, 8 * f):
                    for p in itertools.permutations((f"enforce_bits = {e}", f"fill_bytes = {f}")):
                        o.struct("enforce_bits and fill_bytes", body, ok and e == t, 8 * f, ", ".join(p))
                for p in itertools.permutations((f"enforce_bytes = {f}", f"fill_bytes = {f}")):
                    o.struct("enforce_bytes and fill_bytes", body, 8 * f == t, 8 * f, ", ".join(p))
                for p in itertools.permutations(("enforce_full_bytes", f"fill_bytes = {f}")):
                    o.struct("enforce_full_bytes and fill_bytes", body, ok and t % 8 == 0, 8 * f, ", ".join(p))
    # large totals
    for t in (31, 32, 33, 63, 64, 65, 127, 128, 129, 250, 255, 256, 257, 264, 320, 511, 512, 513, 520, 1000, 1024, 2047, 2048, 2056):
        b, r = divmod(t - 1, 8)
        body = f"a: [u8; {b}], " + fld("b", "u8", f"bit_length = {r + 1}")
        for e in sorted({x for x in (t - 256, t - 8, t - 1, t, t + 1, t + 8, t + 256, t % 256, t % 128, 8 * ceil8(t), 0) if x >= 0}):
            o.struct("enforce_bits", body, e == t, t, f"enforce_bits = {e}")
        c = ceil8(t)
        for e in sorted({x for x in (c - 32, c - 1, c, c + 1, c + 32, c % 32, t // 8) if x >= 0}):
            o.struct("enforce_bytes", body, 8 * e == t, t, f"enforce_bytes = {e}")
            o.struct("fill_bytes", body, 8 * e >= t, 8 * e, f"fill_bytes = {e}")
        o.struct("enforce_full_bytes", body, t % 8 == 0, t, "enforce_full_bytes")
        for e in (t, t + 1, t + 256, t + 8):
            o.enum("enforce_bits on a variant", f"#[bondrewd(enforce_bits = {e})] One {{ {body} }}, Two", e == t + 8, t + 8, "id_bit_length = 8")
    # variants: the id counts
    for idb in (1, 2, 3, 8, 11) if full else (2, 8):
        for a in range(1, 12):
            t = idb + a
            one = fld("a", "u16", f"bit_length = {a}")
            for e in sorted({a, t - 1, t, t + 1, 8 * ceil8(t)}):
                o.enum("enforce_bits on a variant", f"#[bondrewd(enforce_bits = {e})] One {{ {one} }}, Two", e == t, t, f"id_bit_length = {idb}")
                o.enum("enforce_bits on a variant", f"Two {{ b: u16 }}, #[bondrewd(enforce_bits = {e})] One {{ {one} }}", e == t, max(idb + 16, t), f"id_bit_length = {idb}")
            for e in (ceil8(t), ceil8(t) + 1):
                o.enum("enforce_bytes on a variant", f"#[bondrewd(enforce_bytes = {e})] One {{ {one} }}, Two", 8 * e == t, t, f"id_bit_length = {idb}")
            o.enum("enforce_full_bytes on a variant", f"#[bondrewd(enforce_full_bytes)] One {{ {one} }}, Two {{ b: bool }}", t % 8 == 0, t, f"id_bit_length = {idb}")
            # filling a variant (after the enforcement) makes the enum at least that large
            for f in range(0, ceil8(t) + 3):
                ok = 8 * f >= t
                other = max(8 * f, idb + 9)
                o.enum("fill_bytes on a variant", f"#[bondrewd(fill_bytes = {f})] One {{ {one} }}, Two {{ b: bool }}", ok, max(8 * f, idb + 1), f"id_bit_length = {idb}")
                o.enum("fill_bytes on a variant", f"Two {{ b: u8, c: bool }}, #[bondrewd(fill_bytes = {f})] One {{ {one} }}", ok, other, f"id_bit_length = {idb}")
                for e in (t, 8 * f):
                    for p in itertools.permutations((f"enforce_bits = {e}", f"fill_bytes = {f}")):
                        o.enum("enforce_bits and fill_bytes on a variant", f"#[bondrewd({', '.join(p)})] One {{ {one} }}, Two", ok and e == t, 8 * f, f"id_bit_length = {idb}")
                if a % 3 == 0 or full:
                    for p in itertools.permutations((f"enforce_bytes = {f}", f"fill_bytes = {f}")):
                        o.enum("enforce_bytes and fill_bytes on a variant", f"#[bondrewd({', '.join(p)})] One {{ {one} }}, Two", 8 * f == t, 8 * f, f"id_bit_length = {idb}")
                    for p in itertools.permutations(("enforce_full_bytes", f"fill_bytes = {f}")):
                        o.enum("enforce_full_bytes and fill_bytes on a variant", f"#[bondrewd({', '.join(p)})] One {{ {one} }}, Two", ok and t % 8 == 0, 8 * f, f"id_bit_length = {idb}")
            # on the enum: no variant may be larger
            for e in (t - 1, t):
                o.enum("enforce_bits on an enum", f"One {{ {one} }}, Two", e == t, t, f"id_bit_length = {idb}, enforce_bits = {e}")
                o.enum("enforce_bits on an enum", f"Two, One {{ {one} }}", e == t, t, f"enforce_bits = {e}, id_bit_length = {idb}")
    # on the enum: the largest variant at every place, any amount it exceeds by
    for n in (1, 2, 3, 4) if full else (1, 3):
        for k in range(n):
            for idb in (2, 5, 8):
                for a in (1, 6, 8, 11, 16) if full else (6, 11):
                    t = idb + a
                    vs = [f"V{i} {{ x: bool }}" if i % 2 else f"V{i}" for i in range(n)]
                    vs[k] = f"V{k} {{ b: bool, {fld('a', 'u16', f'bit_length = {a - 1}')} }}" if a > 1 else f"V{k}(bool)"
                    vs = ", ".join(vs)
                    for e in sorted({1, 2, idb - 1, idb, idb + 1, a, t - 8, t - 2, t - 1, t}):
                        if 0 < e <= t:
                            for p in itertools.permutations((f"id_bit_length = {idb}", f"enforce_bits = {e}")):
                                o.enum("enforce_bits on an enum", vs, e == t, t, ", ".join(p))
                    for e in range(1, ceil8(t) + 1):
                        if 8 * e <= t:
                            o.enum("enforce_bytes on an enum", vs, 8 * e == t, t, f"id_bit_length = {idb}, enforce_bytes = {e}")
                    # the length of the payload alone
                    for e in range(1, a + 1):
                        o.enum("payload_bit_length", vs, e == a, t, f"id_bit_length = {idb}, payload_bit_length = {e}")
                        if e % 8 == 0:
                            o.enum("payload_byte_length", vs, e == a, t, f"id_bit_length = {idb}, payload_byte_length = {e // 8}")
                    for e in (t - 1, t, t + 1):
                        o.enum("payload_bit_length and enforce_bits", vs, e == t, t, f"id_bit_length = {idb}, payload_bit_length = {a}, enforce_bits = {e}")
                    o.enum("payload_bit_length and enforce_bits", vs, True, t, f"payload_bit_length = {a}, enforce_bits = {t}")
    return o


def ids(full=False):
    """Every assignment of explicit ids: distinct and small enough for the id's bits."""
    o = Out()
    N = ["Aa", "Bb", "Cc", "Dd", "Ee"]
    for idb in (1, 2, 3):
        for nv in range(1, (5 if full else 4) if idb < 3 else 4):
            menu = [None] + list(range(0, 2 ** idb + 2))
            if idb == 3 or nv == 4:
                menu = [None, 0, 1, 2 ** idb - 1, 2 ** idb, 2 ** idb + 5] if full else [None, 1, 2 ** idb - 1, 2 ** idb]
            for pat in itertools.product(menu, repeat=nv):
                used = [x for x in pat if x is not None]
                distinct = len(set(used)) == len(used)
                got = set(used)
                g = 0
                for x in pat:
                    if x is None:
                        while g in got:
                            g += 1
                        got.add(g)
                ok = distinct and max(got) < 2 ** idb
                body = ", ".join((f"#[bondrewd(variant_id = {x})] " if x is not None else "") + N[i] + (" { a: u8 }" if i % 2 == 0 else "") for i, x in enumerate(pat))
                o.enum("ids", body, ok, idb + 8, f"id_bit_length = {idb}")
    # longer enums: every set of variants left without an id, ids given upwards, downwards and at the top
    N = [chr(65 + i) * 2 for i in range(10)]

    def enum_of(rule, pat, idb, ok, attr=lambda x: f"#[bondrewd(variant_id = {x})] "):
        o.enum(rule, ", ".join((attr(x) if x is not None else "") + N[i] + (" { a: u8 }" if i % 2 == 0 else "") for i, x in enumerate(pat)), ok, idb + 8, f"id_bit_length = {idb}")

    for nv in (5, 6, 7, 8) if full else (5, 6):
        for given in itertools.product((False, True), repeat=nv):
            k = sum(given)
            for seq in (range(k), range(nv - 1, nv - 1 - k, -1), range(1, 2 * k + 1, 2), range(1, k + 1)):
                it = iter(seq)
                pat = [next(it) if g else None for g in given]
                got = {x for x in pat if x is not None}
                g = 0
                for x in pat:
                    if x is None:
                        while g in got:
                            g += 1
                        got.add(g)
                idb = max(1, max(got).bit_length())
                enum_of("ids", pat, idb, True)
                if idb > 1:
                    enum_of("ids", pat, idb - 1, False)
    for nv in range(3, 9 if full else 7):
        for i, j in itertools.combinations(range(nv), 2):
            for same in (0, 3, 15):
                other = iter([x for x in (9, 4, 12, 1, 7, 2, 14, 5) if x != same])
                pat = [same if k in (i, j) else next(other) for k in range(nv)]
                enum_of("ids", pat, 4, False)
                # all others without an id
                enum_of("ids", [same if k in (i, j) else None for k in range(nv)], 4, False)
                pat[j] = 13
                enum_of("ids", pat, 4, True)
    # ids around the limits of their bits, first, between and after variants without one
    N = [f"V{chr(97 + i // 26)}{chr(97 + i % 26)}" for i in range(300)]
    for idb in (4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128):
        top = 2 ** idb - 1
        for x in (top - 1, top, top + 1, top + 2, 2 * top + 1, top // 2, 2 ** 128 - 1):
            if x >= 2 ** 128 and idb < 128:
                continue
            for at in range(3):
                pat = [None, None, None]
                pat[at] = x
                enum_of("ids at scale", pat, idb, x <= top)
            for y in (x, top // 2, 0, top):
                enum_of("ids at scale", [x, None, y], idb, x <= top and y != x)
                enum_of("ids at scale", [y, x], idb, x <= top and y != x)
            if x < 2 ** 63 and idb in (8, 16, 33, 64):
                w = "u64" if x > 255 else "u8"
                o.enum("ids at scale", f"A {{ a: u8 }}, B = {x}, C", x <= top, idb + 8, f"id_bit_length = {idb}", repr=w) if x + 1 < 2 ** (64 if w == "u64" else 8) else None
    # as many variants as there are ids, and one more; equal ids at a distance
    for idb in (3, 4, 5, 6, 7):
        for nv in (2 ** idb - 1, 2 ** idb, 2 ** idb + 1):
            enum_of("ids at scale", [None] * nv, idb, nv <= 2 ** idb)
            enum_of("ids at scale", list(range(nv))[::-1], idb, nv <= 2 ** idb)
            enum_of("ids at scale", [i if i % 3 == 1 else None for i in range(nv)], idb, nv <= 2 ** idb)
            for i, j in ((0, nv - 1), (0, 1), (nv // 2, nv // 2 + 2), (nv - 3, nv - 1)):
                if nv <= 2 ** idb:
                    pat = list(range(nv))
                    pat[j] = pat[i]
                    enum_of("ids at scale", pat, idb, False)
    for b in (1, 8, 16, 33, 127, 128):
        o.enum("id size", "One { a: bool }, Two", True, b + 1, f"id_bit_length = {b}")
    for b in (129, 200, 256):
        o.enum("id size", "One { a: bool }, Two", False, None, f"id_bit_length = {b}")
    for b in (1, 2, 5, 16):
        o.enum("id size", "One { a: bool }, Two", True, 8 * b + 1, f"id_byte_length = {b}")
    for b in (17, 32):
        o.enum("id size", "One { a: bool }, Two", False, None, f"id_byte_length = {b}")
    o.enum("id size", "One { a: bool }, Two", False, None, "")
    o.enum("id size", "One { a: bool }, Two", False, None, "id_bit_length = 0")
    # an id given twice, two catch-alls
    for x in (1, 2):
        o.enum("id twice", f"#[bondrewd(variant_id = {x})] One {{ a: u8 }} = 1, Two", False, None, "id_bit_length = 2", repr="u8")
        o.enum("id twice", f"#[bondrewd(variant_id = {x}, variant_id = 1)] One {{ a: u8 }}, Two", False, None, "id_bit_length = 2")
    for nv in (2, 3, 4):
        for inv in itertools.product((False, True), repeat=nv):
            body = ", ".join(("#[bondrewd(invalid)] " if inv[i] else "") + N[i] + (" { a: u8 }" if i % 2 == 0 else "") for i in range(nv))
            o.enum("invalid", body, sum(inv) <= 1, 10, "id_bit_length = 2")
    # captured ids
    for idb in (2, 8, 9, 16, 17, 32, 33, 64, 65, 128):
        w = next(x for x in (8, 16, 32, 64, 128) if idb <= x)
        for ty in ("u8", "u16", "u32", "u64", "u128", "i8", f"i{w}", "bool", "f32"):
            o.enum("capture_id type", f"One {{ a: u8 }}, Two {{ #[bondrewd(capture_id)] id: {ty} }}", ty == f"u{w}", idb + 8, f"id_bit_length = {idb}")
            o.enum("capture_id place", f"One {{ a: u8 }}, Two {{ b: u8, #[bondrewd(capture_id)] id: {ty} }}", False, None, f"id_bit_length = {idb}")
        o.struct("capture_id in a struct", f"#[bondrewd(capture_id)] id: u{w}, a: u8", False)
        o.struct("capture_id in a struct", f"a: u8, #[bondrewd(capture_id)] id: u{w}", False)
        o.enum("capture_id and reserve", f"One {{ a: u8 }}, Two {{ #[bondrewd(capture_id, reserve)] id: u{w} }}", False, None, f"id_bit_length = {idb}")
    return o


def kinds(full=False):
    """Kinds of items and types."""
    o = Out()
    bad = ["usize", "isize", "String", "&'static str", "(u8, u8)", "[u8]", "Option<u8>", "Vec<u8>", "*const u8", "fn()", "[usize; 2]", "Box<u8>"]
    for t in bad:
        o.struct("type", f"a: {t}", False)
        o.struct("type", f"x: u8, a: {t}, y: u8", False)
        o.enum("type", f"One {{ a: {t} }}, Two", False, None, "id_bit_length = 2")
    for t in ("usize", "isize"):
        for n in (1, 8, 32, 64):
            o.struct("type", fld("a", t, f"bit_length = {n}"), False)
    for at in ('endianness = "xe"', "enum_primitive = \"i8\"", "bit_length = \"3\"", "bits = 3", 'bits = "3"', "struct_size = \"1\"", "overlapping_bits = \"1\"",
               "bit_length = -1", "nonsense = 3"):
        o.struct("attribute value", fld("a", "u8", at), False)
    for at in ('read_from = "xsb"', "read_from = 0", "default_endianness = 1", 'enforce_bits = "8"', 'enforce_bytes = "1"', 'fill_bytes = "1"', "fill_bytes = 1, fill_bytes = 1"):
        o.struct("attribute value", "a: u8", False, None, at, mode="")
    for at in ('id_bit_length = "2"', 'id_byte_length = "1"'):
        o.enum("attribute value", "A { a: u8 }, B", False, None, at)
    o.append(D("kind", "#[derive(Bitfields)]\npub union T { a: u8, b: u8 }", False))
    o.append(D("kind", "#[derive(Bitfields)]\npub struct T;", False))
    o.append(D("kind", "#[derive(BitfieldEnum)]\npub struct T { a: u8 }", False))
    o.append(D("kind", "#[derive(BitfieldEnum)]\npub union T { a: u8, b: u8 }", False))
    o.enum("kind", "", False, None, "id_bit_length = 2")
    # nested types: the size has to be the type's
    for nb in (1, 5, 8, 9, 13, 16, 20, 24) if full else (3, 8, 9, 16, 20):
        inner = f'#[derive(Bitfields)]\n#[bondrewd(default_endianness = "be")]\npub struct I {{ #[bondrewd(bit_length = {nb})] v: u32 }}\n'

        def nest(rule, attrs, want, bits=None):
            en = o.mode()
            o.append(D(rule, inner + f'#[derive(Bitfields)]\n#[bondrewd(default_endianness = "be"{en})]\npub struct T {{ z: bool, {fld("s", "I", attrs)} }}', want,
                       ("T", bits + 1, ceil8(bits + 1)) if want and bits is not None else None))
        nest("nested without size", "", False)
        nest("nested without size", "reserve", False)
        for sz in range(1, 6):
            nest("struct_size", f"struct_size = {sz}", sz == ceil8(nb), 8 * sz)
        for n in range(1, 33):
            nest("nested bit_length", f"bit_length = {n}", ceil8(n) == ceil8(nb), n)
    # an inner type that is no bitfield, a primitive enum used as a bitfield and the reverse
    o.append(D("nested not a bitfield", 'pub struct I(u8);\n#[derive(Bitfields)]\npub struct T { #[bondrewd(struct_size = 1)] a: I }', False))
    o.append(D("nested not a bitfield", 'pub struct I(u8);\n#[derive(Bitfields)]\npub struct T { #[bondrewd(enum_primitive = "u8", bit_length = 2)] a: I }', False))
    o.append(D("nested not a bitfield", '#[derive(BitfieldEnum)]\npub enum I { A, B }\n#[derive(Bitfields)]\npub struct T { #[bondrewd(struct_size = 1)] a: I }', False))
    for n in range(1, 9):
        o.append(D("enum_primitive", f'#[derive(BitfieldEnum)]\npub enum I {{ A, B }}\n#[derive(Bitfields)]\npub struct T {{ #[bondrewd(enum_primitive = "u8", bit_length = {n})] a: I }}', True, ("T", n, 1)))
    # reserve needs Default
    o.append(D("reserve without Default", '#[derive(BitfieldEnum)]\npub enum I { A, B }\n#[derive(Bitfields)]\npub struct T { b: u8, #[bondrewd(reserve, enum_primitive = "u8", bit_length = 2)] a: I }', False))
    o.append(D("reserve with Default", '#[derive(BitfieldEnum, Default)]\npub enum I { #[default] A, B }\n#[derive(Bitfields)]\npub struct T { b: u8, #[bondrewd(reserve, enum_primitive = "u8", bit_length = 2)] a: I }', True, ("T", 10, 2)))
    return o


# what declarations of the rules in context are made from: as universe.COMBO_CHOICES, without the kinds of field
CONTEXT = universe.COMBO_CHOICES[1:]


def source(t):
    return "\n".join(model.render(d) for d in model.deps(t))


def told(rule, t, want):
    L = layout(t) if want else None
    return D(rule, source(t), want, (t.name, L.bits, L.bytes) if want else None)


def resized(f, n):
    """the field with n bits (n per element), however its length is declared"""
    f = dataclasses.replace(f, n=n)
    if f.how == "size":
        # with a struct_size, fewer bits are not specified
        f.how = "bits"
    if f.rng:
        f.rng = (f.rng[0], f.rng[0] + n * (f.arr[1] if f.arr and f.arr[0] != "block" else 1))
    if f.how == "byte":
        f.how = None
    if f.arr and f.arr[0] == "plain" and n:
        f.arr = ("elem", f.arr[1])
    return f


def spoilt(**kw):
    return lambda f: dataclasses.replace(f, **kw)


# (kind of field, what makes it unacceptable)
REASONS = [
    (("f32", 32), [lambda f: resized(f, 31), lambda f: resized(f, 33), lambda f: resized(f, 16)]),
    (("f64", 64), [lambda f: resized(f, 63), lambda f: resized(f, 32), lambda f: resized(f, 65)]),
    (("f32", 32, "elem", 2), [lambda f: resized(f, 31), lambda f: resized(f, 24)]),
    (("f64", 64, "plain", 2), [lambda f: resized(f, 63)]),
    (("u8", 5), [lambda f: resized(f, 0), spoilt(endian="xe"), spoilt(extra="nonsense = 3"), spoilt(extra='enum_primitive = "i8"'), spoilt(ty="usize"), spoilt(ty="String")]),
    (("u16", 16), [lambda f: resized(f, 0), spoilt(endian="both"), spoilt(ty="(u8, u8)"), spoilt(ty="Option<u16>")]),
    (("i64", 41), [lambda f: resized(f, 0), spoilt(ty="isize"), spoilt(ty="&'static str"), spoilt(extra="bit_length = -1")]),
    (("bool", 1), [lambda f: resized(f, 0), spoilt(extra='overlapping_bits = "1"')]),
    (("char", 21), [lambda f: resized(f, 0), spoilt(extra="bits = 7")]),
    (("u8", 3, "elem", 3), [lambda f: resized(f, 0), spoilt(ty="usize"), spoilt(ty="String")]),
    (("i16", 13, "elem", 2), [lambda f: resized(f, 0)]),
    (("u32", 70, "block", 3), [lambda f: resized(f, 0), spoilt(ty="isize")]),
    (("s19", 19), [lambda f: resized(f, 16), lambda f: resized(f, 25), lambda f: resized(f, 0), lambda f: dataclasses.replace(f, how="nosize", extra="struct_size = 2"), lambda f: dataclasses.replace(f, how="nosize", extra="struct_size = 4")]),
    (("s24", 24), [lambda f: resized(f, 16), lambda f: resized(f, 32), lambda f: f if f.rng else dataclasses.replace(f, how="nosize", n=None)]),
    (("s19", 19, "elem", 2), [lambda f: resized(f, 16), lambda f: resized(f, 25), lambda f: dataclasses.replace(f, how="nosize", extra="struct_size = 2"), lambda f: dataclasses.replace(f, how="nosize", extra="struct_size = 4")]),
    (("e13", 13), [lambda f: resized(f, 8), lambda f: resized(f, 17)]),
    (("pe", 2), [lambda f: resized(f, 0), spoilt(extra='enum_primitive = "u8", enum_primitive = "u16"')]),
    (("pf", 8), [spoilt(ty="Absent"), lambda f: resized(f, 0)]),
]


def contexts(full=False):
    """What makes a field unacceptable, in every context: for any two of the choices and the reason (three in
    all; thorough: four), every combination, each beside the same declaration with an acceptable field."""
    out = []
    types = universe.combo_types()
    reasons = [(w, bad) for w, bads in REASONS for bad in bads]
    done = set()
    for k, row in enumerate(cover.rows([len(reasons)] + [len(c) for c in CONTEXT], 4 if full else 3)):
        (what, bad), cont, off, role, (en, ven), fend, lsb, fill, tail, more, rev = (c[i] for c, i in zip([reasons, *CONTEXT], row))
        fs, f, start = universe.combo_fields(k, types, what, cont, off, role, fend, tail, more)
        if fill is not None:
            fill += ceil8(place(fs, start, None, None)[0])
        good, _ = universe.combo_type("T", fs, cont, en, ven, lsb, rev, fill, more)
        g = bad(f)
        if g is f:
            continue
        # declarations that differ in the reason alone have the same acceptable one
        sig = source(good)
        if sig not in done:
            done.add(sig)
            out.append(told("in context: " + what[0], good, True))
        gs = [g if x is f else x for x in fs]
        t, _ = universe.combo_type("T", gs, cont, en, ven, lsb, rev, fill, more)
        out.append(D("in context: " + what[0], (source(good).rsplit("#[derive", 1)[0] if isinstance(g.ty, str) and g.ty not in WIDTH else "") + model.render(t)
                     if isinstance(g.ty, str) and g.ty not in WIDTH else source(t), False))
    return out


CLASH = [["u8", 1], ["i16", 9], ["bool", 1], ["u8", 1, "elem", 3], ["s5", 5], ["pe", 2], ["u64", 40]]
PLACES = ["last", "last, others pinned", "first", "middle"]
TARGETS = ["first bit", "last bit", "middle", "field in front", "id", "nothing"]
KINDS = [("u8", 5), ("u16", 16), ("i32", 19), ("u128", 77), ("bool", 1), ("char", 21), ("f32", 32), ("pe", 2), ("s19", 19), ("e13", 13), ("u8", 3, "elem", 3), ("u32", 32, "plain", 2), ("i16", 25, "block", 2), ("s5", 5, "elem", 2), ("bool", 1, "elem", 5)]


def clashes(full=False):
    """A further field over a bit of another one (or of none), in every context: any three (thorough: four) choices."""
    out = []
    types = universe.combo_types()
    choices = [KINDS, CLASH, PLACES, TARGETS, *[c for c in CONTEXT if c is not CONTEXT[4]]]
    for k, row in enumerate(cover.rows([len(c) for c in choices], 4 if full else 3)):
        what, clash, where, target, cont, off, role, (en, ven), lsb, fill, tail, more, rev = (c[i] for c, i in zip(choices, row))
        fs, f, start = universe.combo_fields(k, types, what, cont, off, role, None, tail, more)
        total, placed = place(fs, start, None, None)
        at = {id(x): (s, e) for x, s, e in placed}
        s, e = at[id(f)]
        if target == "field in front":
            s, e = at[id(next((x for x in fs if not x.capture), f))]
        if target == "id" and not start:
            target = "middle"
        x = {"first bit": s, "field in front": s, "last bit": e - 1, "middle": (s + e) // 2, "id": start - 1, "nothing": total}[target]
        ty, n, *arr = clash
        ty = types.get(ty, ty)
        z = F("z", ty, n, arr=tuple(arr) or None, how="bits" if not isinstance(ty, (str, model.PrimEnum)) else None)
        n = field_bits(z)[0]
        # ends with the bit, or starts with it
        a = max(0, x - n + 1) if target in ("first bit", "field in front", "id") and (k % 2 or target == "id") else x
        z.rng = (a, a + n)
        if where != "last":
            gs = []
            for y in fs:
                if not (y.capture or y.rng):
                    y = dataclasses.replace(y, rng=at[id(y)])
                    if y.arr and y.arr[0] == "block":
                        y.how = "bit"
                gs.append(y)
            fs = gs
        p = {"first": 0, "middle": (len(fs) + 1) // 2}.get(where, len(fs))
        if fs[0].capture:
            p = max(1, p)
        fs = fs[:p] + [z] + fs[p:]
        if fill is not None:
            fill += ceil8(max(total, a + n))
        t, _ = universe.combo_type("T", fs, cont, en, ven, lsb, rev, fill, more)
        over = [y for y, s, e in place(fs, start, None, None)[1] if y is not z and s < a + n and a < e and not y.capture]
        # bits shared with a field that says it shares bits with some other are not judged
        want = a >= start and not over if a < start or not over or any(not y.redundant and not y.overlap for y in over) else None
        out.append(told("overlap in context", t, want))
    return out


ENFORCED = ["bits", "bits + 1", "bits - 1", "bits + 8", "bits - 8", "full bytes", "bytes", "bytes + 1", "bytes - 1", "bits and full bytes", "bytes and bits"]


def enforced(full=False):
    """enforce_* with the right and with wrong amounts in every context, of the structure, the variant or the enum."""
    out = []
    types = universe.combo_types()
    choices = [KINDS, ENFORCED, ["own", "enum"], *CONTEXT]
    for k, row in enumerate(cover.rows([len(c) for c in choices], 4 if full else 3)):
        what, how, of, cont, off, role, (en, ven), fend, lsb, fill, tail, more, rev = (c[i] for c, i in zip(choices, row))
        fs, f, start = universe.combo_fields(k, types, what, cont, off, role, fend, tail, more)
        total = place(fs, start, None, None)[0]
        if how in ("full bytes", "bytes", "bytes + 1", "bytes - 1", "bits and full bytes", "bytes and bits") and k % 3 and total % 8:
            # round: as often right as wrong
            fs.append(F("w", "u8", 8 - total % 8, rng=(total, total + 8 - total % 8)))
            total = ceil8(total) * 8
        if fill is not None:
            fill += ceil8(total)
        t, v = universe.combo_type("T", fs, cont, en, ven, lsb, rev, fill, more)
        used = total
        if of == "enum" and t.is_enum:
            # the largest variant decides; amounts above it are not judged, nor what filling means to them
            v.fill = None
            used = max(place(x.fields, start, None, None)[0] for x in t.variants)
            if "+" in how:
                how = how.replace("+", "-")
            v = t
        by = int(how.split()[2]) * (1 if "+" in how else -1) if how[-1].isdigit() else 0
        want = by == 0 and ("bytes" not in how or used % 8 == 0)
        a = []
        if how.startswith("bits"):
            a.append(f"enforce_bits = {used + by}")
        if how.startswith("bytes"):
            a.append(f"enforce_bytes = {used // 8 + by}")
        if how == "bytes and bits":
            a.append(f"enforce_bits = {used}")
        if "full" in how:
            a.append("enforce_full_bytes")
        if used // 8 + by < 0 or used + by < 1:
            continue
        v.extra = ", ".join(a[::-1] if k % 2 else a)
        if v is t and t.is_enum and "full" in how or how == "bytes and bits" and used % 8 or role == "gap":
            # not specified: an attribute of structures and variants; two different amounts; bits left out
            want = None
        out.append(told("enforced in context", t, want))
    return out


def prim(full=False):
    """Primitive enums: distinct values that fit, one catch-all."""
    o = Out()
    from universe import implicit_clash
    N = "ABCD"
    for nv in (1, 2, 3, 4) if full else (2, 3):
        menu = (None, 0, 1, 2, 255, 256, 300) if nv < 4 else (None, 0, 255, 256)
        for lits in itertools.product(menu, repeat=nv):
            used = [x for x in lits if x is not None]
            if implicit_clash(lits) and len(set(used)) == len(used):
                continue  # rustc's own numbering decides
            ok = len(set(used)) == len(used) and all(x <= 255 for x in used)
            body = ", ".join(N[i] + (f" = {x}" if x is not None else "") for i, x in enumerate(lits))
            o.prim("prim literals", body, ok, repr="u16" if any(x is not None and x > 255 for x in lits) else None)
    for nv in (2, 3, 4) if full else (2, 3):
        for cat in itertools.product((0, 1, 2, 3), repeat=nv):
            body = ", ".join((N[i], "#[bondrewd_enum(invalid)] " + N[i], N[i] + "(u8)", N[i] + " { v: u8 }")[c] for i, c in enumerate(cat))
            o.prim("prim catch-alls", body, sum(c > 0 for c in cat) <= 1)
    for ty in ("u16", "u32", "i8", "bool", "char", "String", "(u8,)", "[u8; 1]"):
        o.prim("prim catch value type", f"A, B, C({ty})", False)
        o.prim("prim catch value type", f"A, C {{ v: {ty} }}, B", False)
    o.prim("prim catch value type", "A, B, C(u8, u8)", False)
    o.prim("prim catch value type", "A, B, C { a: u8, b: u8 }", False)
    for at in ("u16", "u32", "i8", "foo"):
        o.prim("prim primitive", "A, B, C", False, f"#[bondrewd_enum({at})]")
    for at in ("u8", "partial_eq", "u8, partial_eq", "partial_eq, u8"):
        o.prim("prim primitive", "A, B, C", True, f"#[bondrewd_enum({at})]")
    # many variants with literals among them: the others get the lowest unused values
    for n in (5, 8, 9, 10, 11, 16, 17, 33, 100):
        for step in (2, 3, 5):
            lits = {i: 255 - i for i in range(0, n, step)}
            body = ", ".join(f"V{i}" + (f" = {lits[i]}" if i in lits else "") for i in range(n))
            if not implicit_clash([lits.get(i) for i in range(n)]) and all(255 - i + step - 1 <= 255 for i in lits):
                o.prim("prim literals", body, True, "#[bondrewd_enum(u8)]")
            o.prim("prim literals", body.replace(f"V{n - 1} = {lits[n - 1]}" if n - 1 in lits else f"V{n - 1}", f"V{n - 1} = 255"), False, "#[bondrewd_enum(u8)]")
    for n in (1, 2, 255, 256):
        o.prim("prim count", ", ".join(f"V{i}" for i in range(n)), True, "#[bondrewd_enum(u8)]")
    o.prim("prim count", ", ".join(f"V{i}" for i in range(257)), False, "#[bondrewd_enum(u8)]")
    for d in ("-1", '"x"', "1 + 1", "1.0"):
        o.prim("prim discriminant", f"A = {d}, B", False)
    return o


def visible(full=False):
    """The generated functions are as public as the type, whatever the visibility of the fields."""
    o = Out()
    inner = ("#[derive(Bitfields, Clone, Copy)]\n#[bondrewd(default_endianness = \"be\")]\npub struct I { v: u8 }\n"
             "#[derive(BitfieldEnum, Clone, Copy)]\npub enum P { A, B, C }\n")
    kinds = [("u8", ""), ("i16", "bit_length = 11"), ("bool", ""), ("char", "bit_length = 21"), ("f32", ""), ("[u8; 2]", "element_bit_length = 5"),
             ("[u16; 2]", "block_bit_length = 21"), ("[bool; 3]", "element_bit_length = 1"), ("I", "struct_size = 1"), ("P", 'enum_primitive = "u8", bit_length = 3'),
             ("[I; 2]", "struct_size = 1"), ("u32", "reserve"), ("u16", "read_only, bit_length = 9"), ("u8", "redundant, bits = \"0..4\"")]

    def calls(n, ty):
        """everything derived for field n"""
        return (f"let v: {ty} = T::read_{n}(b); T::write_{n}(b, v); let v: {ty} = T::read_slice_{n}(&b[..]).ok().unwrap(); let _ = T::write_slice_{n}(&mut b[..], v);\n"
                f"let v: {ty} = TChecked::from_unchecked_slice(&b[..]).read_{n}(); let v: {ty} = T::check_slice_mut(&mut b[..]).ok().unwrap().read_{n}(); TCheckedMut::from_unchecked_slice(&mut b[..]).write_{n}(v);\n")
    whole = ("let t: T = T::from_bytes(*b); let _ = t.into_bytes(); let t = T::from_slice(&b[..]).ok().unwrap(); let _ = t.into_hex_upper(); let _: TChecked = T::check_slice(&b[..]).ok().unwrap();\n"
             "let _ = (<T as Bitfields<N>>::BIT_SIZE, <T as Bitfields<N>>::BYTE_SIZE);\n")
    fvs = ["", "pub ", "pub(crate) ", "pub(super) ", "pub(self) ", "pub(in super::super) "]
    for tv in ("pub ", "pub(crate) ", "pub(super) ", "pub(in super::super) "):
        for k, (ty, at) in enumerate(kinds):
            for j, fv in enumerate(fvs):
                for tup in (False, True):
                    if tup and not full and (j + k) % 3:
                        continue
                    n = "a"
                    m, f = o.mode(), (f"#[bondrewd({at})] " if at else "")
                    fv2 = fvs[(j + k) % len(fvs)]
                    if tup:
                        # a payload has the visibility of its enum
                        decl = f"#[derive(Bitfields)]\n#[bondrewd(default_endianness = \"be\"{m}, id_bit_length = 3)]\n{tv}enum T {{ One {{ lead: u8, {f}{n}: {ty} }}, Two }}".replace('"0..4"', '"3..7"')
                        body = whole + "let _ = T::from_bytes(*b).id(); let v = T::read_variant_id(b); T::write_variant_id(b, v);\n" + calls("one_lead", "u8") + calls("one_" + n, ty)
                    else:
                        decl = f"#[derive(Bitfields)]\n#[bondrewd(default_endianness = \"be\"{m})]\n{tv}struct T {{ {fv2}lead: u8, {f}{fv}{n}: {ty} }}"
                        body = whole + calls("lead", "u8") + calls(n, ty)
                    o.append(D("visible", f"pub mod d {{\nuse super::*;\n{inner}{decl}\npub const N: usize = <T as Bitfields<_>>::BYTE_SIZE;\n}}\nuse d::*;\nfn f(b: &mut [u8; N]) {{\n{body}}}", True))
    return o


ALL = dict(ranges=ranges, lengths=lengths, enforce=enforce, ids=ids, kinds=kinds, prim=prim, visible=visible, contexts=contexts, clashes=clashes, enforced=enforced)
