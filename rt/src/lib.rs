//! Runtime of the explicit-state exploration. Generated chunks describe every derived type by a
//! static table: function pointers to the *real* generated functions plus the layout the
//! reference model (mc/model.py) computed for the declaration. The exploration is not generic
//! over the derived types, so a chunk costs only its glue.
pub use bondrewd;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const U: u8 = 0; // unsigned / raw bits (floats)
pub const I: u8 = 1; // signed
pub const B: u8 = 2; // bool
pub const C: u8 = 3; // char
pub const N: u8 = 4; // nested Bitfields type, value = its bytes, big endian, canonicalised by `canon`
pub const P: u8 = 5; // primitive enum, canonicalised by `canon`

/// One scalar inside a field. `pos[k]` is the absolute bit index (byte * 8 + distance from the
/// byte's most significant bit) of value bit k + shift; k = 0 is the least significant one.
pub struct Leaf {
    pub pos: &'static [u16],
    pub w: u16,
    pub shift: u16,
    pub kind: u8,
    pub canon: Option<fn(u128) -> u128>,
}

pub type LenRes = Result<(), (usize, usize)>;

pub struct Field {
    pub name: &'static str,
    pub first: usize,
    pub leaves: &'static [Leaf],
    /// from_bytes gives the type's default instead of the buffer's value
    pub reserve: bool,
    /// into_bytes writes it
    pub written: bool,
    pub rd: Option<fn(&[u8], &mut [u128])>,
    pub wr: Option<fn(&mut [u8], &[u128])>,
    pub rds: Option<fn(&[u8], &mut [u128]) -> LenRes>,
    pub wrs: Option<fn(&mut [u8], &[u128]) -> LenRes>,
    /// checked-struct accessors (check_slice / check_slice_mut)
    pub crd: Option<fn(&[u8], &mut [u128]) -> LenRes>,
    pub cmrd: Option<fn(&mut [u8], &mut [u128]) -> LenRes>,
    pub cwr: Option<fn(&mut [u8], &[u128]) -> LenRes>,
    /// the same built with from_unchecked_slice
    pub urd: Option<fn(&[u8], &mut [u128])>,
    pub umrd: Option<fn(&mut [u8], &mut [u128])>,
    pub uwr: Option<fn(&mut [u8], &[u128])>,
}

pub struct Variant {
    pub name: &'static str,
    pub id: u128,
    /// leaf index of the captured id, or usize::MAX
    pub capture: usize,
    pub nleaves: usize,
    pub fields: &'static [Field],
}

pub struct EnumInfo {
    pub id: Leaf,
    /// index of the catch-all variant
    pub catch: usize,
    pub rid: fn(&[u8]) -> u128,
    pub rids: Option<fn(&[u8]) -> Result<u128, (usize, usize)>>,
    pub wid: fn(&mut [u8], u128),
    pub id_of: fn(usize, &[u128]) -> u128,
    pub peq: Option<fn(usize, &[u128], u128) -> bool>,
}

/// A program: one derived type. A struct is a Prog with a single variant and no EnumInfo.
pub struct Prog {
    pub name: &'static str,
    pub decl: &'static str,
    pub bits: usize,
    pub bytes: usize,
    pub real_bits: usize,
    pub real_bytes: usize,
    /// values of overlapping fields are only compared when consistent
    pub overlap: bool,
    pub en: Option<EnumInfo>,
    pub variants: &'static [Variant],
    pub into: fn(usize, &[u128], &mut [u8]),
    pub from: fn(&[u8], &mut [u128]) -> usize,
    pub from_slice: Option<fn(&[u8], &mut [u128]) -> Result<usize, (usize, usize)>>,
    pub from_vec: Option<fn(&mut Vec<u8>, &mut [u128]) -> Result<usize, (usize, usize)>>,
    pub hex: Option<&'static Hex>,
    pub fills: &'static [(&'static str, fn(&[u8]) -> Vec<u8>)],
}

/// outcome of a hex decode: Ok(variant) | invalid char at index | wrong length (given, expected)
#[derive(PartialEq, Debug, Clone)]
pub enum HexRes {
    Ok(usize),
    Bad(char, usize),
    Len(usize, usize),
}
pub struct Hex {
    pub size: usize,
    pub upper: fn(usize, &[u128], &mut [u8]),
    pub lower: fn(usize, &[u128], &mut [u8]),
    pub from: fn(&[u8], &mut [u128]) -> HexRes,
    pub from_slice: Option<fn(&[u8], &mut [u128]) -> HexRes>,
    pub from_vec: Option<fn(&mut Vec<u8>, &mut [u128]) -> HexRes>,
}

pub fn pack<const K: usize>(b: [u8; K]) -> u128 {
    let mut v = 0u128;
    for x in b {
        v = v << 8 | x as u128;
    }
    v
}
pub fn unpack<const K: usize>(mut v: u128) -> [u8; K] {
    let mut b = [0u8; K];
    for i in (0..K).rev() {
        b[i] = v as u8;
        v >>= 8;
    }
    b
}

fn mask(n: usize) -> u128 {
    if n >= 128 {
        u128::MAX
    } else {
        (1u128 << n) - 1
    }
}
fn bit(b: &[u8], p: u16) -> bool {
    b[p as usize / 8] >> (7 - p % 8) & 1 == 1
}
fn setbit(b: &mut [u8], p: u16, v: bool) {
    let m = 1u8 << (7 - p % 8);
    if v {
        b[p as usize / 8] |= m
    } else {
        b[p as usize / 8] &= !m
    }
}

impl Leaf {
    /// The reference semantics of reading.
    pub fn decode(&self, b: &[u8]) -> u128 {
        let mut v = 0u128;
        for (k, p) in self.pos.iter().enumerate() {
            if bit(b, *p) {
                v |= 1 << k
            }
        }
        let n = self.pos.len();
        match self.kind {
            I if n > 0 && v >> (n - 1) & 1 == 1 => v |= mask(self.w as usize) & !mask(n),
            C => {
                if char::from_u32(v as u32).is_none() {
                    v = 0xFFFD
                }
            }
            _ => {}
        }
        v <<= self.shift;
        if let Some(c) = self.canon {
            v = c(v)
        }
        v
    }
    /// The reference semantics of writing.
    pub fn encode(&self, b: &mut [u8], v: u128) {
        let mut v = v;
        if let Some(c) = self.canon {
            v = c(v)
        }
        v >>= self.shift;
        for (k, p) in self.pos.iter().enumerate() {
            setbit(b, *p, v >> k & 1 == 1)
        }
    }
    /// What a written value reads back as.
    pub fn trunc(&self, v: u128) -> u128 {
        let n = self.pos.len();
        let mut v = v;
        if let Some(c) = self.canon {
            v = c(v)
        }
        v = v >> self.shift & mask(n);
        match self.kind {
            I if n > 0 && v >> (n - 1) & 1 == 1 => v |= mask(self.w as usize) & !mask(n),
            C => {
                if char::from_u32(v as u32).is_none() {
                    v = 0xFFFD
                }
            }
            _ => {}
        }
        v <<= self.shift;
        if let Some(c) = self.canon {
            v = c(v)
        }
        v
    }
    /// The value alphabet of this scalar. `full`: every value when there are at most 2^10.
    pub fn domain(&self, level: usize) -> Vec<u128> {
        let n = self.pos.len();
        let w = self.w as usize;
        let m = mask(w);
        let mut out: Vec<u128> = vec![0, m];
        match self.kind {
            B => return vec![0, 1],
            C => {
                out = vec![0, 0x10FFFF, 0xFFFD, 0xD7FF, 0xE000, 0x41, 0x1F600, 0x10FFFF & mask(n), 0xA5A5, 0x5A5A5];
                for k in 0..20 {
                    out.push(1 << k);
                    out.push(0xFFFFF & !(1 << k));
                }
                out.retain(|v| char::from_u32(*v as u32).is_some());
            }
            N | P => {
                let c = self.canon.unwrap();
                let lim = if level >= 1 { 16 } else { 8 };
                if w <= lim {
                    out = (0..1u128 << w).map(c).collect();
                } else {
                    for k in 0..w {
                        out.push(1 << k);
                        out.push(m & !(1 << k));
                    }
                    out.push(0xA5A5A5A5A5A5A5A5A5A5A5A5A5A5A5A5 & m);
                    out = out.into_iter().map(c).collect();
                }
            }
            _ => {
                let lim = if level >= 1 { 10 } else { 6 };
                if n <= lim {
                    for v in 0..1u128 << n {
                        out.push(v);
                    }
                } else {
                    out.extend([mask(n), mask(n - 1), 1 << (n - 1)]);
                    for k in 0..n {
                        out.push(1 << k);
                        if level >= 1 || k < 3 || k + 3 >= n || k % 8 == 0 || k % 8 == 7 {
                            out.push(m & !(1 << k));
                        }
                    }
                    out.push(0xA5A5A5A5A5A5A5A5A5A5A5A5A5A5A5A5 & m);
                    out.push(0x0123456789ABCDEF_FEDCBA9876543210 & m);
                }
                // over-wide values: bits above the field's length must be dropped
                for k in n..w {
                    if level >= 1 || k < n + 9 || k + 2 > w {
                        out.push(1 << k);
                    }
                }
                if w > n {
                    out.push(m & !mask(n));
                }
            }
        }
        out.iter_mut().for_each(|v| *v &= m);
        let mut seen = HashSet::new();
        out.retain(|v| seen.insert(*v));
        out
    }
}

/// Programs of more bytes than this are explored with the coarse alphabets of values and buffers.
pub const BIG: usize = 40;

impl Leaf {
    /// the coarse alphabet, for long arrays and structures of many fields
    pub fn few(&self) -> Vec<u128> {
        let n = self.pos.len();
        let w = self.w as usize;
        let m = mask(w);
        let mut out: Vec<u128> = match self.kind {
            B => vec![0, 1],
            C => vec![0, 0x10FFFF, 0x41, 0xA5A5, 0x80000],
            N | P => [0, m, 1, 1 << (w - 1), 0xA5A5A5A5A5A5A5A5A5A5A5A5A5A5A5A5 & m].into_iter().map(self.canon.unwrap()).collect(),
            _ => {
                let mut o = vec![0, m, 1, 1 << (n - 1), mask(n - 1), 0xA5A5A5A5A5A5A5A5A5A5A5A5A5A5A5A5 & mask(n), 0x0123456789ABCDEF_FEDCBA9876543210 & mask(n)];
                if w > n {
                    o.extend([1 << n, m & !mask(n)]);
                }
                o
            }
        };
        let mut seen = HashSet::new();
        out.retain(|v| seen.insert(*v));
        out
    }
}

/// Coarse buffer alphabet: the patterns, and single bits in the first and last two bytes.
pub fn few_buffers(n: usize) -> Vec<Vec<u8>> {
    buffers(n, 0).into_iter().enumerate().filter(|(i, _)| *i < 10 || (*i - 10) / 2 < 16 || (*i - 10) / 2 >= 8 * n - 16).map(|x| x.1).collect()
}
fn sized_buffers(n: usize, level: usize) -> Vec<Vec<u8>> {
    if n > BIG { few_buffers(n) } else { buffers(n, level) }
}

/// Buffer alphabet: every buffer when the size allows, else structured patterns whose union drives
/// every bit to both values against both backgrounds.
pub fn buffers(n: usize, level: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    if n <= 1 || (n <= 2 && level >= 2) {
        for v in 0..1u32 << (8 * n) {
            out.push(v.to_be_bytes()[4 - n..].to_vec());
        }
        return out;
    }
    for f in [0u8, 0xFF, 0x55, 0xAA, 0x0F, 0xF0, 0x33, 0xC3] {
        out.push(vec![f; n]);
    }
    out.push((0..n).map(|i| (i as u8).wrapping_mul(0x9D).wrapping_add(0x1B)).collect());
    out.push((0..n).map(|i| (i as u8).wrapping_mul(0x67).wrapping_add(0xD2)).collect());
    for k in 0..8 * n {
        let mut b = vec![0u8; n];
        setbit(&mut b, k as u16, true);
        out.push(b);
        let mut b = vec![0xFFu8; n];
        setbit(&mut b, k as u16, false);
        out.push(b);
    }
    if level >= 1 {
        for i in 0..n {
            for v in [0u8, 0xFF] {
                let mut b = vec![v; n];
                b[i] = !v;
                out.push(b);
            }
        }
        for k in 0..8 * n - 1 {
            let mut b = vec![0u8; n];
            setbit(&mut b, k as u16, true);
            setbit(&mut b, k as u16 + 1, true);
            out.push(b);
        }
    }
    let mut seen = HashSet::new();
    out.retain(|v| seen.insert(v.clone()));
    out
}

#[derive(Default)]
pub struct Ctx {
    pub level: usize,
    pub max_viol: usize,
    pub states: u64,
    pub transitions: u64,
    pub programs: u64,
    pub viols: u64,
    /// explorations of one program under one mode, run in lockstep with the model to the end
    pub traces: u64,
    /// write explorations cut off below the first layer
    pub cut: u64,
    prog: &'static str,
    decl: &'static str,
    viols_here: usize,
    out: String,
}

pub fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn hexv(v: &[u128]) -> String {
    v.iter().map(|x| format!("{x:#x}")).collect::<Vec<_>>().join(",")
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

impl Ctx {
    pub fn viol(&mut self, op: &str, input: &str, exp: &str, got: &str) {
        self.viols += 1;
        self.viols_here += 1;
        if self.viols_here > self.max_viol {
            return;
        }
        let _ = writeln!(
            self.out,
            "{{\"ev\":\"viol\",\"prog\":\"{}\",\"decl\":\"{}\",\"op\":\"{}\",\"input\":\"{}\",\"expected\":\"{}\",\"got\":\"{}\"}}",
            self.prog, esc(self.decl), esc(op), esc(input), esc(exp), esc(got)
        );
    }
    /// Runs one transition of the real code; a panic is a violation.
    fn call<R>(&mut self, op: &str, input: &dyn Fn() -> String, f: impl FnOnce() -> R) -> Option<R> {
        self.transitions += 1;
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                self.viol(op, &input(), "no panic", &format!("panic: {m}"));
                None
            }
        }
    }
    fn full(&self) -> bool {
        self.viols_here >= self.max_viol.max(1)
    }
}

fn field_decode(f: &Field, b: &[u8]) -> Vec<u128> {
    f.leaves.iter().map(|l| l.decode(b)).collect()
}

impl Prog {
    pub fn nleaves(&self) -> usize {
        self.variants.iter().map(|v| v.nleaves).max().unwrap_or(0)
    }
    /// Reference decode: (variant, leaves). A captured id is a leaf like any other.
    pub fn model_from(&self, b: &[u8]) -> (usize, Vec<u128>) {
        let vi = match &self.en {
            None => 0,
            Some(e) => {
                let id = e.id.decode(b);
                self.variants.iter().position(|v| v.id == id).unwrap_or(e.catch)
            }
        };
        let v = &self.variants[vi];
        let mut out = vec![0; v.nleaves];
        for f in v.fields {
            for (k, l) in f.leaves.iter().enumerate() {
                out[f.first + k] = if f.reserve { 0 } else { l.decode(b) };
            }
        }
        (vi, out)
    }
    pub fn model_into(&self, vi: usize, vals: &[u128]) -> Vec<u8> {
        let mut b = vec![0u8; self.bytes];
        let v = &self.variants[vi];
        if let Some(e) = &self.en {
            e.id.encode(&mut b, if v.capture != usize::MAX { vals[v.capture] } else { v.id });
        }
        for f in v.fields {
            if f.written {
                for (k, l) in f.leaves.iter().enumerate() {
                    l.encode(&mut b, vals[f.first + k]);
                }
            }
        }
        b
    }
    /// What from_bytes(into_bytes(value)) must give. Unwritten, non-reserve fields (read_only,
    /// redundant) read whatever the buffer holds.
    pub fn model_round(&self, vi: usize, vals: &[u128]) -> (usize, Vec<u128>) {
        self.model_from(&self.model_into(vi, vals))
    }

    /// Value assignments of a variant: every leaf swept over its domain on a zero background and
    /// on a second background; the cross product when it is small.
    pub fn assignments(&self, vi: usize, level: usize) -> Vec<Vec<u128>> {
        let v = &self.variants[vi];
        let doms: Vec<Vec<u128>> = {
            let mut d = vec![vec![0u128]; v.nleaves];
            for f in v.fields {
                for (k, l) in f.leaves.iter().enumerate() {
                    d[f.first + k] = if v.nleaves > 64 { l.few() } else { l.domain(level) };
                }
            }
            d
        };
        let mut out: Vec<Vec<u128>> = vec![];
        let prod: u128 = doms.iter().fold(1u128, |a, d| a.saturating_mul(d.len() as u128));
        let lim = match level { 0 => 256, 1 => 4096, _ => 65536 };
        if prod <= lim {
            let mut idx = vec![0usize; doms.len()];
            loop {
                out.push(idx.iter().zip(&doms).map(|(i, d)| d[*i]).collect());
                let mut k = 0;
                while k < idx.len() {
                    idx[k] += 1;
                    if idx[k] < doms[k].len() {
                        break;
                    }
                    idx[k] = 0;
                    k += 1;
                }
                if k == idx.len() {
                    break;
                }
            }
        } else {
            let zeros: Vec<u128> = doms.iter().map(|d| d[0]).collect();
            let ones: Vec<u128> = doms.iter().map(|d| d[1 % d.len()]).collect();
            for bg in [&zeros, &ones] {
                out.push(bg.clone());
                for (k, d) in doms.iter().enumerate() {
                    for x in d {
                        let mut a = bg.clone();
                        a[k] = *x;
                        out.push(a);
                    }
                }
            }
        }
        // a captured id outside the catch-all's own range would be another variant's id: allowed,
        // the layout of into_bytes is still defined
        let mut seen = HashSet::new();
        out.retain(|v| seen.insert(v.clone()));
        out
    }
    /// With overlapping fields only consistent assignments have a defined encoding.
    fn consistent(&self, vi: usize, vals: &[u128]) -> bool {
        if !self.overlap {
            return true;
        }
        let mut m: std::collections::HashMap<u16, bool> = Default::default();
        for f in self.variants[vi].fields {
            if !f.written {
                continue;
            }
            for (k, l) in f.leaves.iter().enumerate() {
                let x = match l.canon { Some(c) => c(vals[f.first + k]), None => vals[f.first + k] } >> l.shift;
                for (j, p) in l.pos.iter().enumerate() {
                    let b = x >> j & 1 == 1;
                    if *m.entry(*p).or_insert(b) != b {
                        return false;
                    }
                }
            }
        }
        true
    }
}

/// Which invariants a check asserts.
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Into,
    Round,
    Reads,
    Writes,
    Sizes,
    Total,
    /// whole values (1), fields of slices (2), checked structures (4)
    Dyn(u8),
    Hex,
    Ids,
    Peq,
}

pub fn explore(c: &mut Ctx, p: &'static Prog, modes: &[Mode]) {
    for m in modes {
        let before = c.viols;
        match m {
            Mode::Into => m_into(c, p),
            Mode::Round => m_round(c, p),
            Mode::Reads => m_reads(c, p),
            Mode::Writes => m_writes(c, p),
            Mode::Sizes => {
                c.transitions += 1;
                c.states += 1;
                if (p.real_bits, p.real_bytes) != (p.bits, p.bytes) {
                    c.viol("BIT_SIZE/BYTE_SIZE", "", &format!("{}/{}", p.bits, p.bytes), &format!("{}/{}", p.real_bits, p.real_bytes));
                }
            }
            Mode::Total => m_total(c, p),
            Mode::Dyn(what) => m_dyn(c, p, *what),
            Mode::Hex => m_hex(c, p),
            Mode::Ids => m_ids(c, p),
            Mode::Peq => m_peq(c, p),
        }
        c.traces += (c.viols == before) as u64;
    }
}

/// into_bytes(value) equals the reference layout, bit for bit.
fn m_into(c: &mut Ctx, p: &'static Prog) {
    let mut reached: HashSet<Vec<u8>> = HashSet::new();
    for vi in 0..p.variants.len() {
        for a in p.assignments(vi, c.level) {
            if !p.consistent(vi, &a) {
                continue;
            }
            let exp = p.model_into(vi, &a);
            let mut got = vec![0u8; p.bytes];
            c.states += reached.insert(exp.clone()) as u64;
            let inp = || format!("{}({})", p.variants[vi].name, hexv(&a));
            if c.call("into_bytes", &inp, || (p.into)(vi, &a, &mut got)).is_some() && got != exp {
                c.viol("into_bytes", &inp(), &hexs(&exp), &hexs(&got));
            }
            if c.full() {
                return;
            }
        }
    }
}

/// from_bytes(into_bytes(value)) is the value, truncated to its field's bits.
fn m_round(c: &mut Ctx, p: &'static Prog) {
    for vi in 0..p.variants.len() {
        for a in p.assignments(vi, c.level) {
            if !p.consistent(vi, &a) {
                continue;
            }
            let v = &p.variants[vi];
            // expected, independently of any layout
            let mut exp = vec![0; v.nleaves];
            let mut known = vec![true; v.nleaves];
            for f in v.fields {
                for (k, l) in f.leaves.iter().enumerate() {
                    exp[f.first + k] = if f.reserve { 0 } else { l.trunc(a[f.first + k]) };
                    known[f.first + k] = f.reserve || f.written || v.capture == f.first + k;
                }
            }
            if v.capture != usize::MAX && p.model_round(vi, &a).0 != vi {
                continue; // the captured id is another variant's: nothing is promised here
            }
            let mut buf = vec![0u8; p.bytes];
            let mut got = vec![0u128; p.nleaves()];
            c.states += 1;
            let inp = || format!("{}({})", v.name, hexv(&a));
            let r = c.call("from_bytes(into_bytes)", &inp, || {
                (p.into)(vi, &a, &mut buf);
                (p.from)(&buf, &mut got)
            });
            if let Some(gv) = r {
                let ok = gv == vi && (0..v.nleaves).all(|k| !known[k] || got[k] == exp[k]);
                if !ok {
                    c.viol(
                        "from_bytes(into_bytes)",
                        &inp(),
                        &format!("{}({})", v.name, hexv(&exp)),
                        &format!("{}({}) via {}", p.variants[gv].name, hexv(&got[..p.variants[gv].nleaves]), hexs(&buf)),
                    );
                }
                // a second trip is the identity on bytes (unless a char was not representable)
                let mut buf2 = vec![0u8; p.bytes];
                let g2 = got[..p.variants[gv].nleaves].to_vec();
                let exp2 = p.model_into(gv, &g2);
                if c.call("into_bytes(from_bytes(into_bytes))", &inp, || (p.into)(gv, &g2, &mut buf2)).is_some() && buf2 != exp2 {
                    c.viol("into_bytes(from_bytes(into_bytes))", &inp(), &hexs(&exp2), &hexs(&buf2));
                }
            }
            if c.full() {
                return;
            }
        }
    }
}

/// from_bytes and every read_x on every buffer of the alphabet.
fn m_reads(c: &mut Ctx, p: &'static Prog) {
    for b in buffers(p.bytes, c.level) {
        c.states += 1;
        let inp = || hexs(&b);
        let (vi, exp) = p.model_from(&b);
        let mut got = vec![0u128; p.nleaves()];
        if let Some(gv) = c.call("from_bytes", &inp, || (p.from)(&b, &mut got)) {
            if gv != vi || got[..exp.len()] != exp[..] {
                c.viol("from_bytes", &inp(), &format!("{}({})", p.variants[vi].name, hexv(&exp)), &format!("{}({})", p.variants[gv].name, hexv(&got[..p.variants[gv].nleaves])));
            }
        }
        if let Some(e) = &p.en {
            let x = e.id.decode(&b);
            if let Some(g) = c.call("read_variant_id", &inp, || (e.rid)(&b)) {
                if g != x {
                    c.viol("read_variant_id", &inp(), &format!("{x:#x}"), &format!("{g:#x}"));
                }
            }
        }
        for v in p.variants {
            for f in v.fields {
                if let Some(rd) = f.rd {
                    let exp = field_decode(f, &b);
                    let mut got = vec![0u128; exp.len()];
                    let op = || format!("read_{}", f.name);
                    if c.call(&op(), &inp, || rd(&b, &mut got)).is_some() && got != exp {
                        c.viol(&op(), &inp(), &hexv(&exp), &hexv(&got));
                    }
                }
            }
        }
        if c.full() {
            return;
        }
    }
}

/// All write operations of a program as (name, field, values) plus variant-id writes.
fn write_ops(p: &'static Prog, level: usize) -> Vec<(Option<&'static Field>, Vec<u128>)> {
    let mut ops = vec![];
    for v in p.variants {
        for f in v.fields {
            if f.wr.is_none() {
                continue;
            }
            let doms: Vec<Vec<u128>> = f.leaves.iter().map(|l| if f.leaves.len() > 16 || p.bytes > BIG { l.few() } else { l.domain(level) }).collect();
            if doms.len() == 1 {
                for x in &doms[0] {
                    ops.push((Some(f), vec![*x]));
                }
            } else {
                let mut seen = HashSet::new();
                for bg in 0..2 {
                    let base: Vec<u128> = doms.iter().map(|d| d[bg % d.len()]).collect();
                    for (k, d) in doms.iter().enumerate() {
                        for x in d {
                            let mut a = base.clone();
                            a[k] = *x;
                            if seen.insert(a.clone()) {
                                ops.push((Some(f), a));
                            }
                        }
                    }
                }
            }
        }
    }
    if let Some(e) = &p.en {
        for x in e.id.domain(level) {
            ops.push((None, vec![x]));
        }
    }
    ops
}

fn apply_model(p: &'static Prog, op: &(Option<&'static Field>, Vec<u128>), b: &mut [u8]) {
    match op.0 {
        Some(f) => {
            for (l, x) in f.leaves.iter().zip(&op.1) {
                l.encode(b, *x)
            }
        }
        None => p.en.as_ref().unwrap().id.encode(b, op.1[0]),
    }
}
fn apply_real(p: &'static Prog, op: &(Option<&'static Field>, Vec<u128>), b: &mut [u8]) {
    match op.0 {
        Some(f) => (f.wr.unwrap())(b, &op.1),
        None => (p.en.as_ref().unwrap().wid)(b, op.1[0]),
    }
}
fn opname(op: &(Option<&'static Field>, Vec<u128>)) -> String {
    match op.0 {
        Some(f) => format!("write_{}", f.name),
        None => "write_variant_id".into(),
    }
}

/// Breadth-first exploration of the buffer states reachable by writes. Every transition's result
/// must be the reference one: the field's bits take the value, every other bit is untouched.
fn m_writes(c: &mut Ctx, p: &'static Prog) {
    let ops = write_ops(p, c.level);
    let (cap, depth) = match c.level {
        0 => (2000usize, 1usize),
        1 => (20000, 2),
        _ => (300000, 3),
    };
    let small = p.bits <= match c.level { 0 => 8, 1 => 12, _ => 16 };
    let mut frontier: Vec<(Vec<u8>, Vec<String>)> = vec![];
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    for b in sized_buffers(p.bytes, c.level.min(1)) {
        if seen.insert(b.clone()) {
            frontier.push((b, vec![]));
        }
    }
    let mut d = 0;
    let mut steps = 0usize;
    let budget = cap * 40;
    let mut hit = false;
    while !frontier.is_empty() {
        let mut next = vec![];
        for (b, hist) in &frontier {
            c.states += 1;
            for op in &ops {
                steps += 1;
                let mut exp = b.clone();
                apply_model(p, op, &mut exp);
                let mut got = b.clone();
                let inp = || format!("{} value {}", hexs(b), hexv(&op.1));
                if c.call(&opname(op), &inp, || apply_real(p, op, &mut got)).is_some() && got != exp {
                    let h = if hist.is_empty() { String::new() } else { format!(" after {hist:?}") };
                    c.viol(&opname(op), &format!("{}{}", inp(), h), &hexs(&exp), &hexs(&got));
                    if c.full() {
                        return;
                    }
                    continue;
                }
                // small state spaces are explored to closure, others to the stated depth
                if (small || d + 1 < depth) && seen.len() >= cap {
                    hit = true;
                } else if (small || d + 1 < depth) && seen.insert(exp.clone()) {
                    let mut h = hist.clone();
                    h.push(format!("{}({})", opname(op), hexv(&op.1)));
                    next.push((exp, h));
                }
            }
            // every write from every buffer of the alphabet is taken; only deeper layers are cut off
            if d > 0 && steps > budget {
                hit = true;
                next.clear();
                break;
            }
        }
        frontier = next;
        d += 1;
    }
    c.cut += hit as u64;
    // writing all fields one after the other = into_bytes
    for vi in 0..p.variants.len() {
        let v = &p.variants[vi];
        if p.overlap || v.fields.iter().any(|f| f.written && f.wr.is_none()) {
            continue;
        }
        for a in p.assignments(vi, 0) {
            c.states += 1;
            let mut exp = vec![0u8; p.bytes];
            let mut got = vec![0u8; p.bytes];
            let inp = || format!("{}({})", v.name, hexv(&a));
            c.call("write all fields", &inp, || {
                (p.into)(vi, &a, &mut exp);
                if let Some(e) = &p.en {
                    (e.wid)(&mut got, if v.capture != usize::MAX { a[v.capture] } else { v.id });
                }
                for f in v.fields.iter().filter(|f| f.written) {
                    if let Some(w) = f.wr {
                        w(&mut got, &a[f.first..f.first + f.leaves.len()]);
                    }
                }
            });
            if got != exp {
                c.viol("write all fields", &inp(), &hexs(&exp), &hexs(&got));
            }
            if c.full() {
                return;
            }
        }
    }
}

/// No operation panics on any buffer; from_bytes always gives a value whose re-encoding is stable.
fn m_total(c: &mut Ctx, p: &'static Prog) {
    for b in sized_buffers(p.bytes, c.level) {
        c.states += 1;
        let inp = || hexs(&b);
        let mut got = vec![0u128; p.nleaves()];
        if let Some(gv) = c.call("from_bytes", &inp, || (p.from)(&b, &mut got)) {
            let vals = got[..p.variants[gv].nleaves].to_vec();
            let mut b1 = vec![0u8; p.bytes];
            if c.call("into_bytes(from_bytes)", &inp, || (p.into)(gv, &vals, &mut b1)).is_some() {
                let mut got2 = vec![0u128; p.nleaves()];
                let mut b2 = vec![0u8; p.bytes];
                if let Some(gv2) = c.call("from_bytes(into_bytes(from_bytes))", &inp, || (p.from)(&b1, &mut got2)) {
                    let vals2 = got2[..p.variants[gv2].nleaves].to_vec();
                    if c.call("into_bytes(..)", &inp, || (p.into)(gv2, &vals2, &mut b2)).is_some() && b2 != b1 {
                        c.viol("normal form: into(from(into(from(b))))", &inp(), &hexs(&b1), &hexs(&b2));
                    }
                }
            }
        }
        for v in p.variants {
            for f in v.fields {
                if let Some(rd) = f.rd {
                    let mut got = vec![0u128; f.leaves.len()];
                    c.call(&format!("read_{}", f.name), &inp, || rd(&b, &mut got));
                }
            }
        }
        if c.full() {
            return;
        }
    }
}

/// id(), read_variant_id, write_variant_id and the choice of the variant.
fn m_ids(c: &mut Ctx, p: &'static Prog) {
    let e = match &p.en {
        Some(e) => e,
        None => return,
    };
    for vi in 0..p.variants.len() {
        let v = &p.variants[vi];
        for a in p.assignments(vi, c.level) {
            c.states += 1;
            let inp = || format!("{}({})", v.name, hexv(&a));
            let want = if v.capture != usize::MAX { a[v.capture] } else { v.id };
            if let Some(g) = c.call("id", &inp, || (e.id_of)(vi, &a)) {
                if g != want {
                    c.viol("id", &inp(), &format!("{want:#x}"), &format!("{g:#x}"));
                }
            }
            // only the id's bits are kept
            let want = e.id.trunc(want);
            let mut b = vec![0u8; p.bytes];
            if let Some(g) = c.call("read_variant_id(into_bytes)", &inp, || {
                (p.into)(vi, &a, &mut b);
                (e.rid)(&b)
            }) {
                if g != want {
                    c.viol("read_variant_id(into_bytes)", &inp(), &format!("{want:#x}"), &format!("{g:#x}"));
                }
            }
            if c.full() {
                return;
            }
        }
    }
    // every id (of a long id: every id of the alphabet, all the variants' own, their neighbours)
    let n = e.id.pos.len();
    let mut ids: Vec<u128> = if n <= 10 { (0..1u128 << n).collect() } else { e.id.domain(c.level) };
    for v in p.variants {
        for d in [v.id, v.id.wrapping_add(1), v.id.wrapping_sub(1)] {
            ids.push(d & mask(n));
        }
    }
    let mut seen = HashSet::new();
    ids.retain(|x| seen.insert(*x));
    for base in [0u8, 0xFF, 0x5A] {
        for id in &ids {
            c.states += 1;
            let inp = || format!("id {id:#x} on {base:02x}");
            let mut b = vec![base; p.bytes];
            let mut want = b.clone();
            e.id.encode(&mut want, *id);
            if c.call("write_variant_id", &inp, || (e.wid)(&mut b, *id)).is_none() || b != want {
                c.viol("write_variant_id", &inp(), &hexs(&want), &hexs(&b));
                b = want;
            }
            if let Some(g) = c.call("read_variant_id", &inp, || (e.rid)(&b)) {
                let want = e.id.decode(&b);
                if g != want {
                    c.viol("read_variant_id", &inp(), &format!("{want:#x}"), &format!("{g:#x}"));
                }
            }
            let (wi, wv) = p.model_from(&b);
            let mut got = vec![0u128; p.nleaves()];
            if let Some(g) = c.call("from_bytes", &inp, || (p.from)(&b, &mut got)) {
                if g != wi || got[..wv.len()] != wv[..] {
                    c.viol("from_bytes", &format!("{} {}", inp(), hexs(&b)), &format!("{}({})", p.variants[wi].name, hexv(&wv)), &format!("{}({})", p.variants[g].name, hexv(&got[..p.variants[g].nleaves])));
                }
            }
            if c.full() {
                return;
            }
        }
    }
}

/// `==` of an enum with a number: is it the value's id?
fn m_peq(c: &mut Ctx, p: &'static Prog) {
    let e = match &p.en {
        Some(e) => e,
        None => return,
    };
    let peq = match e.peq {
        Some(f) => f,
        None => return,
    };
    let n = e.id.pos.len();
    let w = e.id.w as usize;
    for vi in 0..p.variants.len() {
        let v = &p.variants[vi];
        let all = p.assignments(vi, 0);
        let step = 1 + all.len() / 16;
        for a in all.iter().step_by(step) {
            let own = if v.capture != usize::MAX { a[v.capture] } else { v.id };
            let mut xs: Vec<u128> = if n <= 8 { (0..256).collect() } else { e.id.domain(0) };
            xs.extend(p.variants.iter().map(|v| v.id));
            xs.extend([own, own ^ 1, own.wrapping_add(1), !own, own ^ 1 << (w - 1)]);
            for x in xs {
                let x = x & mask(w);
                c.states += 1;
                let inp = || format!("{}({}) == {x:#x}", v.name, hexv(a));
                if let Some(g) = c.call("==", &inp, || peq(vi, a, x)) {
                    if g != (x == own) {
                        c.viol("==", &inp(), &format!("{}", x == own), &format!("{g}"));
                    }
                }
            }
            if c.full() {
                return;
            }
        }
    }
}

/// Two declarations that mean the same: leaf i of `a` is leaf map[i] of `b`, the bytes of `a` are the
/// bytes of `b` (rel 1: in reverse order), `swap[i]`: the value's bytes are in reverse order.
pub struct Pair {
    pub name: &'static str,
    pub a: &'static Prog,
    pub b: &'static Prog,
    pub reversed: bool,
    pub map: &'static [usize],
    pub swap: &'static [bool],
    /// fields of a and the fields of b they correspond to (their accessors agree)
    pub fields: &'static [(usize, usize)],
}

fn bswap(v: u128, n: usize) -> u128 {
    let mut o = 0;
    for k in 0..n / 8 {
        o = o << 8 | v >> (8 * k) & 0xFF;
    }
    o
}

fn m_pair(c: &mut Ctx, q: &'static Pair) {
    let (a, b) = (q.a, q.b);
    let before = c.viols;
    let rel = |x: &[u8]| -> Vec<u8> {
        if q.reversed { x.iter().rev().cloned().collect() } else { x.to_vec() }
    };
    c.transitions += 1;
    if (a.real_bits, a.real_bytes) != (b.real_bits, b.real_bytes) {
        c.viol("BIT_SIZE/BYTE_SIZE", "", &format!("{}/{}", b.real_bits, b.real_bytes), &format!("{}/{}", a.real_bits, a.real_bytes));
        return;
    }
    let leaf = |p: &'static Prog, i: usize| p.variants[0].fields.iter().find(|f| f.first <= i && i < f.first + f.leaves.len()).map(|f| &f.leaves[i - f.first]).unwrap();
    let conv = |vi: usize, x: &[u128]| -> Vec<u128> {
        if a.en.is_some() {
            return x.to_vec();
        }
        let mut o = vec![0; b.variants[vi].nleaves];
        for (i, v) in x.iter().enumerate() {
            let l = leaf(a, i);
            let n = l.pos.len();
            let mut v = *v;
            if q.swap[i] {
                v = bswap(v & mask(n), n);
                if l.kind == I && v >> (n - 1) & 1 == 1 {
                    v |= mask(l.w as usize) & !mask(n);
                }
            }
            o[q.map[i]] = v;
        }
        o
    };
    for vi in 0..a.variants.len() {
        for v in a.assignments(vi, c.level) {
            c.states += 1;
            let w = conv(vi, &v);
            let (mut x, mut y) = (vec![0u8; a.bytes], vec![0u8; b.bytes]);
            let inp = || format!("{}({})", a.variants[vi].name, hexv(&v));
            if c.call("into_bytes of both", &inp, || {
                (a.into)(vi, &v, &mut x);
                (b.into)(vi, &w, &mut y);
            }).is_some() && x != rel(&y) {
                c.viol("into_bytes", &inp(), &format!("{} as the other declaration", hexs(&rel(&y))), &hexs(&x));
            }
            if c.full() {
                return;
            }
        }
    }
    for x in buffers(a.bytes, c.level) {
        c.states += 1;
        let y = rel(&x);
        let inp = || hexs(&x);
        let (mut g, mut h) = (vec![0u128; a.nleaves()], vec![0u128; b.nleaves()]);
        if let Some((i, j)) = c.call("from_bytes of both", &inp, || ((a.from)(&x, &mut g), (b.from)(&y, &mut h))) {
            let g = &g[..a.variants[i].nleaves];
            let h = &h[..b.variants[j].nleaves];
            if i != j || conv(i, g) != h {
                c.viol("from_bytes", &inp(), &format!("{}({}) as the other declaration", b.variants[j].name, hexv(h)), &format!("{}({})", a.variants[i].name, hexv(g)));
            }
        }
        for (fi, fj) in q.fields {
            let (f, k) = (&a.variants[0].fields[*fi], &b.variants[0].fields[*fj]);
            let (mut g, mut h) = (vec![0u128; f.leaves.len()], vec![0u128; f.leaves.len()]);
            let sw = |v: &[u128]| -> Vec<u128> {
                v.iter().enumerate().map(|(i, v)| {
                    let l = &f.leaves[i];
                    let n = l.pos.len();
                    if !q.swap[f.first + i] { return *v; }
                    let v = bswap(*v & mask(n), n);
                    if l.kind == I && v >> (n - 1) & 1 == 1 { v | mask(l.w as usize) & !mask(n) } else { v }
                }).collect()
            };
            if c.call("read of both", &inp, || {
                (f.rd.unwrap())(&x, &mut g);
                (k.rd.unwrap())(&y, &mut h);
            }).is_some() && sw(&g) != h {
                c.viol(&format!("read_{}", f.name), &inp(), &format!("{} as read_{} of the other declaration", hexv(&h), k.name), &hexv(&g));
            }
            for pick in 0..2 {
                let vals: Vec<u128> = f.leaves.iter().map(|l| { let d = l.domain(0); d[if pick == 0 { 1 % d.len() } else { d.len() - 1 }] }).collect();
                let (mut x2, mut y2) = (x.clone(), y.clone());
                let inp = || format!("{} value {}", hexs(&x), hexv(&vals));
                if c.call("write of both", &inp, || {
                    (f.wr.unwrap())(&mut x2, &vals);
                    (k.wr.unwrap())(&mut y2, &sw(&vals));
                }).is_some() && x2 != rel(&y2) {
                    c.viol(&format!("write_{}", f.name), &inp(), &format!("{} as write_{} of the other declaration", hexs(&rel(&y2)), k.name), &hexs(&x2));
                }
            }
        }
        if c.full() {
            return;
        }
    }
    c.traces += (c.viols == before) as u64;
}

/// bytes a slice needs so that every bit of the leaves is present
fn need(ls: &[Leaf]) -> usize {
    ls.iter().flat_map(|l| l.pos).map(|p| *p as usize / 8 + 1).max().unwrap_or(0)
}
fn lenres(r: &LenRes) -> String {
    match r {
        Ok(()) => "Ok".into(),
        Err((g, e)) => format!("Err(given {g}, expected {e})"),
    }
}

/// Slice and Vec functions on every length from 0 to two bytes more than needed.
fn m_dyn(c: &mut Ctx, p: &'static Prog, what: u8) {
    let n = p.bytes;
    let all = if n > BIG { few_buffers(n + 2)[..10].to_vec() } else { buffers(n + 2, 0) };
    let step = if n > BIG { 2 } else if c.level == 0 { 1 + all.len() / 24 } else { 1 };
    let fields: Vec<&Field> = p.variants.iter().flat_map(|v| v.fields).filter(|f| f.rds.is_some()).collect();
    let mut hist: HashSet<(usize, Vec<u8>)> = HashSet::new();
    // a large program: the lengths around the end of every field and around the powers of two
    let mut lens: Vec<usize> = (0..=n + 2).collect();
    if n > BIG {
        let ends: HashSet<usize> = fields.iter().map(|f| need(f.leaves)).chain([0, 1, 2, 8, 16, 32, 64, 128, 256, n]).flat_map(|k| [k.saturating_sub(1), k, k + 1]).collect();
        lens.retain(|l| ends.contains(l) || *l >= n);
    }
    for base in all.iter().step_by(step) {
        for &len in &lens {
            let b = &base[..len];
            if !hist.insert((len, b.to_vec())) {
                continue;
            }
            c.states += 1;
            let inp = || format!("{} bytes {}", len, hexs(b));
            // whole values
            let short = len < n;
            let want = if short { None } else { Some(p.model_from(&b[..n])) };
            if what & 1 != 0 {
            let fs = p.from_slice.unwrap();
            let mut got = vec![0u128; p.nleaves()];
            if let Some(r) = c.call("from_slice", &inp, || fs(b, &mut got)) {
                judge(c, p, "from_slice", &inp(), r, &got, &want, (len, n));
            }
            let fv = p.from_vec.unwrap();
            let mut v = b.to_vec();
            let mut got = vec![0u128; p.nleaves()];
            if let Some(r) = c.call("from_vec", &inp, || fv(&mut v, &mut got)) {
                judge(c, p, "from_vec", &inp(), r, &got, &want, (len, n));
                let rest = if short { b } else { &b[n..] };
                if v != rest {
                    c.viol("from_vec leaves in the vector", &inp(), &hexs(rest), &hexs(&v));
                }
            }
            }
            if let (Some(e), true) = (&p.en, what & 2 != 0) {
                if let Some(rids) = e.rids {
                    let k = need(std::slice::from_ref(&e.id));
                    let want = if len < k { Err((len, k)) } else { Ok(e.id.decode(b)) };
                    if let Some(r) = c.call("read_slice_variant_id", &inp, || rids(b)) {
                        if r != want {
                            c.viol("read_slice_variant_id", &inp(), &format!("{want:?}"), &format!("{r:?}"));
                        }
                    }
                }
            }
            for f in fields.iter().filter(|_| what & 6 != 0) {
                let k = need(f.leaves);
                let exp_len: LenRes = if len < k { Err((len, k)) } else { Ok(()) };
                let exp = if len < k { vec![] } else { field_decode(f, b) };
                let mut got = vec![0u128; f.leaves.len()];
                let op = format!("read_slice_{}", f.name);
                let rds = f.rds.unwrap();
                if what & 2 == 0 {
                } else if let Some(r) = c.call(&op, &inp, || rds(b, &mut got)) {
                    if r != exp_len || (r.is_ok() && got != exp) {
                        c.viol(&op, &inp(), &format!("{} {}", lenres(&exp_len), hexv(&exp)), &format!("{} {}", lenres(&r), hexv(&got)));
                    }
                }
                // checked structures: the whole bitfield has to be there
                let chk: LenRes = if short { Err((len, n)) } else { Ok(()) };
                if let (Some(crd), true) = (f.crd, what & 4 != 0) {
                    let op = format!("check_slice().read_{}", f.name);
                    let mut got = vec![0u128; f.leaves.len()];
                    if let Some(r) = c.call(&op, &inp, || crd(b, &mut got)) {
                        if r != chk || (r.is_ok() && got != exp) {
                            c.viol(&op, &inp(), &format!("{} {}", lenres(&chk), hexv(&exp)), &format!("{} {}", lenres(&r), hexv(&got)));
                        }
                    }
                }
                if let (Some(cmrd), true) = (f.cmrd, what & 4 != 0) {
                    let op = format!("check_slice_mut().read_{}", f.name);
                    let mut got = vec![0u128; f.leaves.len()];
                    let mut m = b.to_vec();
                    if let Some(r) = c.call(&op, &inp, || cmrd(&mut m, &mut got)) {
                        if r != chk || (r.is_ok() && got != exp) || m != b {
                            c.viol(&op, &inp(), &format!("{} {}", lenres(&chk), hexv(&exp)), &format!("{} {} buffer {}", lenres(&r), hexv(&got), hexs(&m)));
                        }
                    }
                }
                // unchecked structures: the bytes of the field have to be there, else a panic
                if let (Some(urd), Some(umrd), Some(uwr), true) = (f.urd, f.umrd, f.uwr, what & 4 != 0) {
                    let vals: Vec<u128> = f.leaves.iter().map(|l| { let d = l.domain(0); d[1 % d.len()] }).collect();
                    let mut wexp = b.to_vec();
                    if len >= k {
                        for (l, x) in f.leaves.iter().zip(&vals) {
                            l.encode(&mut wexp, *x)
                        }
                    }
                    let mut got = [vec![0u128; f.leaves.len()], vec![0u128; f.leaves.len()]];
                    let mut m = [b.to_vec(), b.to_vec()];
                    let [g0, g1] = &mut got;
                    let [m0, m1] = &mut m;
                    let ran = [
                        catch_unwind(AssertUnwindSafe(|| urd(b, g0))).is_ok(),
                        catch_unwind(AssertUnwindSafe(|| umrd(m0, g1))).is_ok(),
                        catch_unwind(AssertUnwindSafe(|| uwr(m1, &vals))).is_ok(),
                    ];
                    c.transitions += 3;
                    for (i, op) in ["Checked::from_unchecked_slice().read_", "CheckedMut::from_unchecked_slice().read_", "CheckedMut::from_unchecked_slice().write_"].iter().enumerate() {
                        let right = match i {
                            _ if len < k => true,
                            0 => got[0] == exp,
                            1 => got[1] == exp && m[0] == b,
                            _ => m[1] == wexp,
                        };
                        if ran[i] != (len >= k) || !right {
                            let show = |r: bool, g: String| if r { g } else { "panic".into() };
                            let (e, g) = if i < 2 { (hexv(&exp), hexv(&got[i])) } else { (hexs(&wexp), hexs(&m[1])) };
                            c.viol(&format!("{op}{}", f.name), &inp(), &show(len >= k, e), &show(ran[i], g));
                        }
                    }
                }
                // two values per field: all ones and a pattern
                for pick in 0..2 {
                    let vals: Vec<u128> = f.leaves.iter().map(|l| { let d = l.domain(0); d[if pick == 0 { 1 % d.len() } else { d.len() - 1 }] }).collect();
                    let mut exp = b.to_vec();
                    if len >= k {
                        for (l, x) in f.leaves.iter().zip(&vals) {
                            l.encode(&mut exp, *x)
                        }
                    }
                    let mut m = b.to_vec();
                    let op = format!("write_slice_{}", f.name);
                    let inp = || format!("{} bytes {} value {}", len, hexs(b), hexv(&vals));
                    let wrs = f.wrs.unwrap();
                    if what & 2 == 0 {
                    } else if let Some(r) = c.call(&op, &inp, || wrs(&mut m, &vals)) {
                        if r != exp_len || m != exp {
                            c.viol(&op, &inp(), &format!("{} {}", lenres(&exp_len), hexs(&exp)), &format!("{} {}", lenres(&r), hexs(&m)));
                        }
                    }
                    if let (Some(cwr), true) = (f.cwr, what & 4 != 0) {
                        let exp = if short { b.to_vec() } else { exp };
                        let mut m = b.to_vec();
                        let op = format!("check_slice_mut().write_{}", f.name);
                        if let Some(r) = c.call(&op, &inp, || cwr(&mut m, &vals)) {
                            if r != chk || m != exp {
                                c.viol(&op, &inp(), &format!("{} {}", lenres(&chk), hexs(&exp)), &format!("{} {}", lenres(&r), hexs(&m)));
                            }
                        }
                    }
                }
            }
            if c.full() {
                return;
            }
        }
    }
}

fn judge(c: &mut Ctx, p: &'static Prog, op: &str, inp: &str, r: Result<usize, (usize, usize)>, got: &[u128], want: &Option<(usize, Vec<u128>)>, (len, n): (usize, usize)) {
    let show = |vi: usize, v: &[u128]| format!("{}({})", p.variants[vi].name, hexv(&v[..p.variants[vi].nleaves]));
    match (r, want) {
        (Err(e), None) if e == (len, n) => {}
        (Ok(vi), Some((wi, w))) if vi == *wi && got[..w.len()] == w[..] => {}
        (r, _) => {
            let exp = match want {
                Some((wi, w)) => show(*wi, w),
                None => format!("Err(given {len}, expected {n})"),
            };
            let g = match r {
                Ok(vi) => show(vi, got),
                Err((a, b)) => format!("Err(given {a}, expected {b})"),
            };
            c.viol(op, inp, &exp, &g);
        }
    }
}

fn tohex(b: &[u8], upper: bool) -> Vec<u8> {
    b.iter()
        .flat_map(|x| if upper { format!("{x:02X}").into_bytes() } else { format!("{x:02x}").into_bytes() })
        .collect()
}

/// Hex functions: encodings of values, decodings of every buffer of the alphabet in both cases,
/// every byte value at every position, every length of slices and vectors.
fn m_hex(c: &mut Ctx, p: &'static Prog) {
    let h = p.hex.unwrap();
    let n = p.bytes;
    c.transitions += 1;
    if h.size != 2 * n {
        c.viol("HEX_SIZE", "", &format!("{}", 2 * n), &format!("{}", h.size));
        return;
    }
    for vi in 0..p.variants.len() {
        for a in p.assignments(vi, c.level) {
            c.states += 1;
            let mut bytes = vec![0u8; n];
            let (mut up, mut lo) = (vec![0u8; 2 * n], vec![0u8; 2 * n]);
            let inp = || format!("{}({})", p.variants[vi].name, hexv(&a));
            if c.call("into_hex", &inp, || {
                (p.into)(vi, &a, &mut bytes);
                (h.upper)(vi, &a, &mut up);
                (h.lower)(vi, &a, &mut lo);
            }).is_some() {
                for (op, g, w) in [("into_hex_upper", &up, tohex(&bytes, true)), ("into_hex_lower", &lo, tohex(&bytes, false))] {
                    if *g != w {
                        c.viol(op, &inp(), &String::from_utf8_lossy(&w), &String::from_utf8_lossy(g));
                    }
                }
            }
            if c.full() {
                return;
            }
        }
    }
    let dec = |c: &mut Ctx, text: &[u8], want: HexRes, vals: &[u128]| {
        let inp = || format!("{:?}", String::from_utf8_lossy(text));
        let mut run = |c: &mut Ctx, op: &str, f: &mut dyn FnMut(&mut [u128]) -> HexRes| {
            let mut got = vec![0u128; p.nleaves()];
            if let Some(r) = c.call(op, &inp, || f(&mut got)) {
                if r != want || (matches!(r, HexRes::Ok(_)) && got[..vals.len()] != *vals) {
                    c.viol(op, &inp(), &format!("{want:?} {}", hexv(vals)), &format!("{r:?} {}", hexv(&got)));
                }
            }
        };
        if text.len() == 2 * n {
            run(c, "from_hex", &mut |g| (h.from)(text, g));
        }
        if let Some(fs) = h.from_slice {
            run(c, "from_hex_slice", &mut |g| fs(text, g));
        }
        if let Some(fv) = h.from_vec {
            run(c, "from_hex_vec", &mut |g| fv(&mut text.to_vec(), g));
        }
    };
    for b in sized_buffers(n, c.level) {
        c.states += 1;
        let mut vals = vec![0u128; p.nleaves()];
        let vi = match c.call("from_bytes", &|| hexs(&b), || (p.from)(&b, &mut vals)) {
            Some(v) => v,
            None => return,
        };
        let vals = &vals[..p.variants[vi].nleaves];
        let (u, l) = (tohex(&b, true), tohex(&b, false));
        // upper and lower case may be mixed
        let mix: Vec<u8> = u.iter().zip(&l).enumerate().map(|(i, (x, y))| if i % 2 == 0 { *x } else { *y }).collect();
        let mix2: Vec<u8> = u.iter().zip(&l).enumerate().map(|(i, (x, y))| if i % 2 == 1 { *x } else { *y }).collect();
        for t in [&u, &l, &mix, &mix2] {
            dec(c, t, HexRes::Ok(vi), vals);
        }
        if c.full() {
            return;
        }
    }
    // every byte value at every position, and a second bad character after it
    let good = tohex(&(0..n).map(|i| (i as u8).wrapping_mul(0x5B).wrapping_add(0xA7)).collect::<Vec<u8>>(), true);
    for i in 0..2 * n {
        for x in 0..=255u8 {
            if n > BIG && !b"\0/09:@AFG`afgz\x80\xa1\xff!".contains(&x) {
                continue;
            }
            c.states += 1;
            let mut t = good.clone();
            t[i] = x;
            if (x as char).is_ascii_hexdigit() {
                let b: Vec<u8> = (0..n).map(|k| u8::from_str_radix(std::str::from_utf8(&t[2 * k..2 * k + 2]).unwrap(), 16).unwrap()).collect();
                let mut vals = vec![0u128; p.nleaves()];
                let vi = (p.from)(&b, &mut vals);
                dec(c, &t, HexRes::Ok(vi), &vals[..p.variants[vi].nleaves]);
            } else {
                dec(c, &t, HexRes::Bad(x as char, i), &[]);
                if x % 64 == 33 {
                    for j in (i + 1..2 * n).filter(|j| n <= BIG || *j < i + 3 || *j + 2 > 2 * n) {
                        let mut t = t.clone();
                        t[j] = b'z';
                        dec(c, &t, HexRes::Bad(x as char, i), &[]);
                    }
                }
            }
        }
        if c.full() {
            return;
        }
    }
    // lengths; characters after the needed ones are not looked at
    for len in 0..=2 * n + 3 {
        c.states += 1;
        let mut t = good.clone();
        t.extend_from_slice(b"zZ!");
        t.truncate(len);
        if len < 2 * n {
            dec(c, &t, HexRes::Len(len, 2 * n), &[]);
        } else {
            let b: Vec<u8> = (0..n).map(|k| u8::from_str_radix(std::str::from_utf8(&t[2 * k..2 * k + 2]).unwrap(), 16).unwrap()).collect();
            let mut vals = vec![0u128; p.nleaves()];
            let vi = (p.from)(&b, &mut vals);
            dec(c, &t, HexRes::Ok(vi), &vals[..p.variants[vi].nleaves]);
        }
    }
}

/// A primitive enum (derive BitfieldEnum).
pub struct Prim {
    pub name: &'static str,
    pub decl: &'static str,
    pub names: &'static [&'static str],
    /// the value of every unit variant, None: not determined by the documentation
    pub values: &'static [Option<u8>],
    pub catch: usize,
    /// the catch-all stores the value
    pub stores: bool,
    pub from: fn(u8) -> (usize, u8),
    pub into: fn(usize, u8) -> u8,
    pub peq: Option<fn(usize, u8, u8) -> bool>,
}

/// The complete behaviour: all 256 inputs, all variants, all stored values.
fn m_prim(c: &mut Ctx, p: &'static Prim) {
    let n = p.names.len();
    let mut vals: Vec<Option<u8>> = vec![None; n];
    for i in 0..n {
        c.states += 1;
        if i == p.catch && p.stores {
            for x in 0..=255u8 {
                if let Some(g) = c.call("into_primitive", &|| format!("{}({x})", p.names[i]), || (p.into)(i, x)) {
                    if g != x {
                        c.viol("into_primitive", &format!("{}({x})", p.names[i]), &format!("{x}"), &format!("{g}"));
                    }
                }
            }
            continue;
        }
        if let Some(g) = c.call("into_primitive", &|| p.names[i].into(), || (p.into)(i, 0)) {
            if p.values[i].is_some() && p.values[i] != Some(g) {
                c.viol("into_primitive", p.names[i], &format!("{}", p.values[i].unwrap()), &format!("{g}"));
            }
            if vals.contains(&Some(g)) {
                c.viol("into_primitive", p.names[i], "a value of its own", &format!("{g}"));
            }
            vals[i] = Some(p.values[i].unwrap_or(g));
        }
    }
    for x in 0..=255u8 {
        c.states += 1;
        let want = vals.iter().position(|v| *v == Some(x)).unwrap_or(p.catch);
        if let Some((g, s)) = c.call("from_primitive", &|| format!("{x}"), || (p.from)(x)) {
            if g != want || (g == p.catch && p.stores && s != x) {
                c.viol("from_primitive", &format!("{x}"), p.names[want], &format!("{} storing {s}", p.names[g]));
            }
        }
        if let Some(peq) = p.peq {
            for i in 0..n {
                let want = i != p.catch && vals[i] == Some(x);
                for stored in [x, !x] {
                    if let Some(g) = c.call("==", &|| format!("{} == {x}", p.names[i]), || peq(i, stored, x)) {
                        if g != want {
                            c.viol("==", &format!("{} == {x}", p.names[i]), &format!("{want}"), &format!("{g}"));
                        }
                    }
                }
            }
        }
    }
}

/// A panic of the real code outside of `call` (as part of an expectation) is a violation as well.
fn guarded(c: &mut Ctx, f: impl FnOnce(&mut Ctx)) {
    if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(&mut *c))) {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        c.viol("exploration", "", "no panic", &format!("panic: {m}"));
    }
}

pub fn run(progs: &'static [&'static Prog], prims: &'static [&'static Prim], pairs: &'static [&'static Pair]) {
    let args: Vec<String> = std::env::args().collect();
    let modes: Vec<Mode> = args[1]
        .split(',')
        .filter(|m| !m.is_empty() && *m != "prim" && *m != "pairs")
        .map(|m| match m {
            "into" => Mode::Into,
            "round" => Mode::Round,
            "reads" => Mode::Reads,
            "writes" => Mode::Writes,
            "sizes" => Mode::Sizes,
            "total" => Mode::Total,
            "dyn" => Mode::Dyn(7),
            "slices" => Mode::Dyn(1),
            "slice_fields" => Mode::Dyn(2),
            "checked" => Mode::Dyn(4),
            "hex" => Mode::Hex,
            "ids" => Mode::Ids,
            "peq" => Mode::Peq,
            _ => panic!("mode"),
        })
        .collect();
    let level: usize = args[2].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx { level, max_viol: 2, ..Default::default() };
    let mut begin = |c: &mut Ctx, name: &'static str, decl: &'static str| {
        // names the program if the real code takes the process down
        eprintln!("@{name}");
        c.prog = name;
        c.decl = decl;
        c.viols_here = 0;
        c.programs += 1;
    };
    let mut samples = 0;
    for p in progs {
        begin(&mut c, p.name, p.decl);
        guarded(&mut c, |c| explore(c, p, &modes));
        if samples < 2 && c.viols_here == 0 {
            samples += 1;
            // one transition written out
            let vi = p.variants.len() - 1;
            let mut all = p.assignments(vi, 0);
            all.retain(|a| p.consistent(vi, a));
            if let Some(a) = all.get(all.len() / 2) {
                let mut b = vec![0u8; p.bytes];
                let _ = catch_unwind(AssertUnwindSafe(|| (p.into)(vi, a, &mut b)));
                let t = format!("{} :: {}({}).into_bytes() = {}", p.decl.replace('\n', " "), p.variants[vi].name, hexv(a), hexs(&b));
                let _ = writeln!(c.out, "{{\"ev\":\"sample\",\"text\":\"{}\"}}", esc(&t));
            }
        }
    }
    for p in prims {
        begin(&mut c, p.name, p.decl);
        guarded(&mut c, |c| m_prim(c, p));
        c.traces += (c.viols_here == 0) as u64;
        if samples < 2 {
            samples += 1;
            let t = format!("{} :: from_primitive(1) = {:?}", p.decl.replace('\n', " "), catch_unwind(AssertUnwindSafe(|| (p.from)(1))).map(|x| p.names[x.0]).ok());
            let _ = writeln!(c.out, "{{\"ev\":\"sample\",\"text\":\"{}\"}}", esc(&t));
        }
    }
    for q in pairs {
        begin(&mut c, q.name, q.a.decl);
        let d: &'static str = Box::leak(format!("{}\n// equivalent to\n{}", q.a.decl, q.b.decl).into_boxed_str());
        c.decl = d;
        guarded(&mut c, |c| m_pair(c, q));
        if samples < 2 {
            samples += 1;
            let _ = writeln!(c.out, "{{\"ev\":\"sample\",\"text\":\"{}\"}}", esc(&d.replace('\n', " ")));
        }
    }
    print!("{}", c.out);
    println!(
        "{{\"ev\":\"stats\",\"programs\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"viols\":{},\"cut\":{}}}",
        c.programs, c.states, c.transitions, c.traces, c.viols, c.cut
    );
}
