//! P09: stored key encodings through the public `util` functions; P20: UUID successors.
use crate::gen::{all_idents, all_ids, all_values, count, ident, near, text, Rng};
use indradb::util;
use indradb::{Identifier, Json};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::Cursor;
use uuid::Uuid;

pub fn uuid(r: &mut Rng) -> Uuid {
    if let Some(n) = near(r, u64::MAX) {
        let n = n as u128;
        return Uuid::from_u128(*r.pick(&[n, n.wrapping_shl(120), n.wrapping_shl(64), !n, n.wrapping_mul(0x0101_0101_0101_0101_0101_0101_0101_0101)]));
    }
    match r.below(4) {
        0 => *r.pick(&all_ids()),
        1 => Uuid::from_u128(u128::MAX << r.below(128)),
        2 => Uuid::from_u128((1u128 << r.below(128)).wrapping_sub(1)),
        _ => Uuid::from_u128((r.next() as u128) << 64 | r.next() as u128),
    }
}
pub fn name(r: &mut Rng) -> Identifier {
    if r.chance(1, 2) {
        return *r.pick(&all_idents());
    }
    if let Some(i) = text(r, 255).and_then(|s| Identifier::new(s).ok()) {
        return i;
    }
    let n = match r.below(4) {
        0 => r.below(3),
        1 => 250 + r.below(6),
        _ => r.below(256),
    };
    let c: Vec<char> = "abz09-_éß字".chars().collect();
    let mut s = String::new();
    loop {
        let x = c[r.below(c.len())];
        if s.len() + x.len_utf8() > n {
            break;
        }
        s.push(x);
    }
    ident(&s)
}
#[derive(Clone, Debug)]
enum C {
    U(Uuid),
    S(String),
    I(Identifier),
    J(Json),
}
fn enc(c: &C) -> Vec<u8> {
    match c {
        C::U(u) => u.as_u128().to_be_bytes().to_vec(),
        C::S(s) => s.as_bytes().to_vec(),
        C::I(i) => {
            let mut v = vec![i.as_str().len() as u8];
            v.extend_from_slice(i.as_str().as_bytes());
            v
        }
        C::J(j) => {
            let mut d = DefaultHasher::new();
            j.hash(&mut d);
            d.finish().to_be_bytes().to_vec()
        }
    }
}
fn comp(c: &C) -> util::Component<'_> {
    match c {
        C::U(u) => util::Component::Uuid(*u),
        C::S(s) => util::Component::FixedLengthString(s),
        C::I(i) => util::Component::Identifier(*i),
        C::J(j) => util::Component::Json(j),
    }
}
pub fn case(seed: u64, case: u64) -> Result<(bool, String), String> {
    let mut r = Rng(seed ^ case.wrapping_mul(0x7001_9ab3));
    let mut text = String::new();
    for _ in 0..100 {
        let mut cs: Vec<C> = vec![];
        for _ in 0..count(&mut r, 6, 40) {
            cs.push(match r.below(3) {
                0 => C::U(uuid(&mut r)),
                1 => C::I(name(&mut r)),
                _ => C::J(r.pick(&all_values()).clone()),
            });
        }
        if r.chance(1, 2) {
            cs.push(C::S(name(&mut r).as_str().to_string()));
        }
        let exp: Vec<u8> = cs.iter().flat_map(|c| enc(c)).collect();
        for c in &cs {
            if comp(c).byte_len() != enc(c).len() {
                return Err(format!("byte_len of {:?} is {}", c, comp(c).byte_len()));
            }
        }
        let key = util::build(&cs.iter().map(comp).collect::<Vec<_>>());
        if key != exp {
            return Err(format!("key of {:?} is {:?}, expected {:?}", cs, key, exp));
        }
        let mut cur = Cursor::new(key.clone());
        for c in &cs {
            let bad = |x: String| Err(format!("decoding {:?} of key {:?} gives {}", c, key, x));
            match c {
                C::U(u) => match util::read_uuid(&mut cur) {
                    Ok(x) if x == *u => {}
                    x => return bad(format!("{:?}", x)),
                },
                C::I(i) => match unsafe { util::read_identifier(&mut cur) } {
                    Ok(x) if x == *i => {}
                    x => return bad(format!("{:?}", x)),
                },
                C::S(s) => match util::read_fixed_length_string(&mut cur) {
                    Ok(x) if x == *s => {}
                    x => return bad(format!("{:?}", x)),
                },
                C::J(_) => {
                    let e = enc(c);
                    match util::read_u64(&mut cur) {
                        Ok(x) if x.to_be_bytes().to_vec() == e => {}
                        x => return bad(format!("{:?}", x)),
                    }
                }
            }
        }
        if cur.position() as usize != key.len() {
            return Err(format!("decoding {:?} stops at {} of {}", cs, cur.position(), key.len()));
        }
        // truncated keys must be rejected, not decoded to something
        if !key.is_empty() && matches!(cs.last(), Some(C::U(_)) | Some(C::I(_)) | Some(C::J(_))) {
            let mut cur = Cursor::new(key[..key.len() - 1].to_vec());
            let mut err = false;
            for c in &cs {
                err |= match c {
                    C::U(_) => util::read_uuid(&mut cur).is_err(),
                    C::I(_) => unsafe { util::read_identifier(&mut cur) }.is_err(),
                    C::S(_) => util::read_fixed_length_string(&mut cur).is_err(),
                    C::J(_) => util::read_u64(&mut cur).is_err(),
                };
            }
            if !err {
                return Err(format!("a truncated key of {:?} decodes", cs));
            }
        }
        text = format!("{:?}", cs);
    }
    Ok((true, format!("100 keys, e.g. {}", text)))
}
pub fn uuid_case(seed: u64, case: u64) -> Result<(bool, String), String> {
    let mut r = Rng(seed ^ case.wrapping_mul(0x0de1_77af));
    let mut last = 0;
    for k in 0..2000u32 {
        let x: u128 = if case == 0 && k < 1024 {
            // around every bit boundary
            let b = (k / 8).min(127);
            (1u128 << b).wrapping_sub(4).wrapping_add((k % 8) as u128)
        } else if case == 1 && k < 1024 {
            u128::MAX.wrapping_shl(k / 8).wrapping_sub(4).wrapping_add((k % 8) as u128)
        } else if k % 2 == 0 {
            // any carry, with bytes of any kind above it
            let mut b = (((r.next() as u128) << 64) | r.next() as u128).to_be_bytes();
            for _ in 0..r.below(4) {
                let i = r.below(16);
                b[i] = match r.below(4) {
                    0 => *r.pick(&[0, 1, 0x0f, 0x10, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xc0, 0xf0, 0xfe, 0xff]),
                    1 => (b[i] & 0x0f) | (r.below(16) as u8) << 4,
                    2 => near(&mut r, 255).unwrap_or(7) as u8,
                    _ => b[(i + 1) % 16],
                };
            }
            let x = u128::from_be_bytes(b);
            match r.below(129) {
                128 => x,
                n => x | ((1u128 << n) - 1),
            }
        } else {
            uuid(&mut r).as_u128().wrapping_add(r.below(3) as u128).wrapping_sub(1)
        };
        let got = util::next_uuid(Uuid::from_u128(x));
        let ok = match (&got, x.checked_add(1)) {
            (Ok(u), Some(y)) => u.as_u128() == y,
            (Err(_), None) => true,
            _ => false,
        };
        if !ok {
            return Err(format!("next_uuid({}) is {:?}", Uuid::from_u128(x), got));
        }
        last = x;
    }
    Ok((true, format!("2000 ids, e.g. {}", Uuid::from_u128(last))))
}
