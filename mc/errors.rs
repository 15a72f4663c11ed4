//! Walks the values of the error types (those the features offer) and prints what breaks the rules.
#![allow(unused)]
use std::fmt::{Debug, Display};

fn numbers(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

struct Out {
    states: u64,
    steps: u64,
    bad: u64,
}

impl Out {
    fn check(&mut self, ok: bool, op: &str, input: &str, expected: &str, got: &str) {
        self.steps += 1;
        if !ok {
            self.bad += 1;
            if self.bad <= 20 {
                println!("BAD\t{op}\t{input}\t{expected}\t{got}");
            }
        }
    }
}

fn plain<T: Display + Debug + Send + Sync + 'static>() {}

#[cfg(with_std)]
fn std_error<T: std::error::Error + Send + Sync + 'static>(e: T) -> Box<dyn std::error::Error + Send + Sync> {
    e.into()
}

const NUMS: [usize; 24] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 31, 32, 33, 63, 64, 65, 99, 100, 255, 65536, usize::MAX];

#[cfg(with_dyn)]
fn lengths(o: &mut Out) {
    use bondrewd::BitfieldLengthError as L;
    plain::<L>();
    for p in NUMS {
        for e in NUMS {
            o.states += 1;
            let s = L(p, e).to_string();
            let mut n = numbers(&s);
            let want = s.to_lowercase().find("expected").and_then(|i| numbers(&s[i..]).first().copied());
            o.check(want == Some(e), "Display", &format!("BitfieldLengthError({p}, {e})"), &format!("names {e} as the expected number"), &s);
            n.sort();
            let mut m = vec![p, e];
            m.sort();
            o.check(n == m, "Display", &format!("BitfieldLengthError({p}, {e})"), "names both numbers", &s);
            #[cfg(with_std)]
            o.check(std_error(L(p, e)).to_string() == s, "std::error::Error", &format!("BitfieldLengthError({p}, {e})"), &s, "another text");
        }
    }
}

#[cfg(with_hex)]
fn hexes(o: &mut Out) {
    use bondrewd::BitfieldHexError as H;
    plain::<H>();
    for c in (0..=255u8).map(|c| c as char).filter(|c| !c.is_ascii_hexdigit()) {
        for i in NUMS {
            o.states += 1;
            let s = H(c, i).to_string();
            o.check(s.contains(c), "Display", &format!("BitfieldHexError({c:?}, {i})"), "names the character", &s);
            o.check(numbers(&s).last() == Some(&i), "Display", &format!("BitfieldHexError({c:?}, {i})"), "names the index", &s);
            #[cfg(with_std)]
            o.check(std_error(H(c, i)).to_string() == s, "std::error::Error", &format!("BitfieldHexError({c:?}, {i})"), &s, "another text");
        }
    }
}

#[cfg(all(with_hex, with_dyn))]
fn both(o: &mut Out) {
    use bondrewd::{BitfieldHexDynError as D, BitfieldHexError as H, BitfieldLengthError as L};
    plain::<D>();
    fn via<E>(e: E) -> Result<(), D>
    where
        D: From<E>,
    {
        Err(e)?;
        Ok(())
    }
    for p in NUMS {
        for e in NUMS {
            o.states += 1;
            let d = via(L(p, e)).unwrap_err();
            o.check(matches!(d, D::Length(L(a, b)) if (a, b) == (p, e)), "From", &format!("BitfieldLengthError({p}, {e})"), "the Length variant with the same numbers", &format!("{d:?}"));
            o.check(d.to_string() == L(p, e).to_string(), "Display", &format!("Length({p}, {e})"), "the text of the error it holds", &d.to_string());
            #[cfg(with_std)]
            o.check(std_error(d).to_string() == L(p, e).to_string(), "std::error::Error", &format!("Length({p}, {e})"), "the text of the error it holds", "another text");
        }
    }
    for c in (0..=255u8).map(|c| c as char) {
        for i in NUMS {
            o.states += 1;
            let d = via(H(c, i)).unwrap_err();
            o.check(matches!(d, D::Hex(H(a, b)) if (a, b) == (c, i)), "From", &format!("BitfieldHexError({c:?}, {i})"), "the Hex variant with the same content", &format!("{d:?}"));
            o.check(d.to_string() == H(c, i).to_string(), "Display", &format!("Hex({c:?}, {i})"), "the text of the error it holds", &d.to_string());
        }
    }
}

fn main() {
    let mut o = Out { states: 0, steps: 0, bad: 0 };
    #[cfg(with_dyn)]
    lengths(&mut o);
    #[cfg(with_hex)]
    hexes(&mut o);
    #[cfg(all(with_hex, with_dyn))]
    both(&mut o);
    println!("DONE\t{}\t{}\t{}", o.states, o.steps, o.bad);
}
