//! P14: checked identifier construction against an independent oracle.
use crate::gen::{near, text, Rng};
use indradb::{Identifier, ValidationError};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

fn valid(s: &str) -> Result<(), &'static str> {
    if s.len() > 255 {
        return Err("ValueTooLong");
    }
    for c in s.chars() {
        if !(c == '-' || c == '_' || c.is_alphabetic() || c.is_numeric()) {
            return Err("InvalidValue");
        }
    }
    Ok(())
}
fn name(e: &ValidationError) -> &'static str {
    match e {
        ValidationError::ValueTooLong => "ValueTooLong",
        ValidationError::InvalidValue => "InvalidValue",
        _ => "other",
    }
}
fn one(what: &str, s: &str, got: Result<Identifier, ValidationError>) -> Result<(), String> {
    match (valid(s), got) {
        (Ok(()), Ok(i)) => {
            if i.as_str() != s || i.to_string() != s || &**i != s {
                return Err(format!("{}({:?}) is {:?}", what, s, i));
            }
            Ok(())
        }
        (Err(a), Err(b)) if name(&b) == a => Ok(()),
        (a, b) => Err(format!("{}({:?}) gives {:?}, expected {:?}", what, s, b, a)),
    }
}
fn check(s: &str) -> Result<(), String> {
    one("Identifier::new(&str)", s, Identifier::new(s))?;
    one("Identifier::new(String)", s, Identifier::new(s.to_string()))?;
    one("Identifier::from_str", s, Identifier::from_str(s))?;
    one("str::parse", s, s.parse())?;
    one("Identifier::try_from(String)", s, Identifier::try_from(s.to_string()))?;
    Ok(())
}
fn h(i: &Identifier) -> u64 {
    let mut d = DefaultHasher::new();
    i.hash(&mut d);
    d.finish()
}
pub fn strings(r: &mut Rng) -> String {
    let pool: Vec<char> = "aZ09-_zéßñΩ字٣Ⅷ½²\u{345}\u{301} $./:\u{0}\n\t~@[`{\u{ff0d}\u{2010}\u{1F600}ªـ".chars().collect();
    let n = match r.below(6) {
        0 => r.below(4),
        1 => 250 + r.below(10),
        2 => 120 + r.below(12),
        3 => 60 + r.below(8),
        _ => r.below(300),
    };
    if r.chance(1, 4) {
        if let Some(s) = text(r, 600) {
            return s;
        }
    }
    let n = near(r, 600).map_or(n, |n| n as usize);
    let bad = r.chance(1, 3);
    let base = *r.pick(&pool[..12]);
    let mut s = String::new();
    while s.chars().count() < n {
        s.push(if r.chance(3, 4) { base } else { pool[r.below(14)] });
    }
    if bad {
        let c = *r.pick(&pool);
        let k = r.below(s.chars().count() + 1);
        let mut v: Vec<char> = s.chars().collect();
        v.insert(k, c);
        s = v.into_iter().collect();
    }
    s
}
pub fn case(seed: u64, case: u64) -> Result<(bool, String), String> {
    // the first cases enumerate every single character, in several places
    let step = 0x1000u32;
    if (case as u32) < 0x110000 / step {
        let lo = case as u32 * step;
        for c in lo..lo + step {
            if let Some(c) = char::from_u32(c) {
                check(&c.to_string())?;
                if c as u32 <= 0x2fff || c as u32 % 17 == 0 {
                    check(&format!("a{}", c))?;
                    check(&format!("{}b-_9", c))?;
                    check(&format!("{}{}{}", "x".repeat(200), c, "y".repeat(20)))?;
                }
            }
        }
        return Ok((true, format!("all one-character identifiers from U+{:04X}", lo)));
    }
    let mut r = Rng(seed ^ case.wrapping_mul(0x51ed_2701));
    if case % 7 == 0 {
        for n in 0..600usize {
            for c in ['a', 'é', '字', '\u{20000}'] {
                let s: String = std::iter::repeat(c).take(n).collect();
                check(&s)?;
                check(&format!("{}{}", "b".repeat(case as usize % 4), s))?;
            }
        }
        return Ok((true, format!("lengths 0..600 with offset {}", case % 4)));
    }
    let mut last = String::new();
    for _ in 0..200 {
        let s = strings(&mut r);
        check(&s)?;
        let t = if r.chance(1, 2) { strings(&mut r) } else { let mut t = s.clone(); t.pop(); t };
        check(&t)?;
        if let (Ok(a), Ok(b)) = (Identifier::new(s.as_str()), Identifier::new(t.as_str())) {
            if (a == b) != (s == t) || a.cmp(&b) != s.cmp(&t) || a.partial_cmp(&b) != s.partial_cmp(&t) {
                return Err(format!("comparison of {:?} and {:?}: eq {} cmp {:?}", s, t, a == b, a.cmp(&b)));
            }
            if a == b && h(&a) != h(&b) {
                return Err(format!("equal identifiers {:?} hash differently", s));
            }
        }
        last = s;
    }
    Ok((true, format!("200 random strings, e.g. {:?}", last)))
}
