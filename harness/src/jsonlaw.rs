//! P15: laws of JSON equality, order and hash, against an exact numeric oracle.
use crate::gen::{count, near as size, text, Rng};
use indradb::Json;
use serde_json::{Number, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn num(r: &mut Rng) -> Value {
    let edges: Vec<i128> = vec![
        0, 1, -1, 2, 3, 127, 255, 256, -128, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, (1 << 53) + 2,
        -(1 << 53) - 1, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 63) - 512, (1 << 63) + 2048, -(1 << 63), -(1 << 63) + 1, (1 << 64) - 1, (1 << 64) - 2048,
        4607182418800017408, 9007199254740993, 1000, 1000000,
    ];
    let k = *r.pick(&edges) + (r.below(3) as i128 - 1);
    let k = size(r, u64::MAX).map_or(k, |n| n as i128);
    let k = if r.chance(1, 4) { r.next() as i128 >> r.below(64) } else { k };
    let k = if r.chance(1, 4) { -k } else { k };
    if r.chance(1, 2) {
        if k >= i64::MIN as i128 && k <= i64::MAX as i128 {
            return Value::Number(Number::from(k as i64));
        }
        if k >= 0 && k <= u64::MAX as i128 {
            return Value::Number(Number::from(k as u64));
        }
    }
    let mut f = match r.below(6) {
        0 => *r.pick(&[0.5, -0.5, 0.1, -0.0, 0.0, 1e300, -1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 18446744073709551616.0, 1e19, -1e19, 9223372036854775808.0]),
        1 => f64::from_bits(r.next()),
        2 => k as f64 + 0.5,
        _ => k as f64,
    };
    if !f.is_finite() {
        f = 1.5;
    }
    Value::Number(Number::from_f64(f).unwrap())
}
pub fn value(r: &mut Rng, depth: usize) -> Value {
    let strs = ["", "a", "b", "aa", "ab", "A", "é", "\u{0}", "\u{ff}", "1", "true", "null"];
    match r.below(if depth == 0 { 8 } else { 12 }) {
        0 => Value::Null,
        1 => Value::Bool(r.chance(1, 2)),
        2 | 3 => Value::String(text(r, 3000).unwrap_or_else(|| r.pick(&strs).to_string())),
        4..=7 => num(r),
        8 | 9 => {
            let n = count(r, 4, 70);
            Value::Array((0..n).map(|_| value(r, depth - 1)).collect())
        }
        _ => {
            let n = r.below(3);
            Value::Object((0..n).map(|_| (r.pick(&strs).to_string(), value(r, depth - 1))).collect())
        }
    }
}
/// A value related to another one: equal, or different in one place.
fn near(r: &mut Rng, v: &Value, depth: usize) -> Value {
    match v {
        Value::Array(a) if !a.is_empty() => {
            let mut a = a.clone();
            let i = r.below(a.len());
            match r.below(3) {
                0 => {
                    a.remove(i);
                }
                1 => a.push(value(r, 0)),
                _ => a[i] = near(r, &a[i], depth),
            }
            Value::Array(a)
        }
        Value::Object(o) if !o.is_empty() => {
            let mut o = o.clone();
            let k = o.keys().nth(r.below(o.len())).unwrap().clone();
            let x = o[&k].clone();
            match r.below(3) {
                0 => {
                    o.remove(&k);
                }
                1 => {
                    o.remove(&k);
                    o.insert(format!("{}x", k), x);
                }
                _ => {
                    o.insert(k, near(r, &x, depth));
                }
            }
            Value::Object(o)
        }
        Value::Number(n) => match r.below(3) {
            0 => n.as_f64().and_then(Number::from_f64).map(Value::Number).unwrap_or(Value::Null),
            1 => match n.as_i64() {
                Some(i) => Value::Number(Number::from(i.wrapping_add(1))),
                None => num(r),
            },
            _ => num(r),
        },
        Value::String(s) => Value::String(format!("{}a", s)),
        _ => value(r, depth),
    }
}
/// Exact comparison of numbers: (value, int-before-float); -0.0 before 0.0.
pub fn cmp_num(a: &Number, b: &Number) -> Ordering {
    fn int(n: &Number) -> Option<i128> {
        n.as_i64().map(|x| x as i128).or(n.as_u64().map(|x| x as i128))
    }
    match (int(a), int(b)) {
        (Some(x), Some(y)) => x.cmp(&y),
        (None, None) => {
            let (x, y) = (a.as_f64().unwrap(), b.as_f64().unwrap());
            x.partial_cmp(&y).unwrap().then(y.is_sign_negative().cmp(&x.is_sign_negative()))
        }
        (Some(x), None) => {
            let y = b.as_f64().unwrap();
            // |y| >= 2^65 is beyond every integer
            if y >= 36893488147419103232.0 {
                return Ordering::Less;
            }
            if y <= -36893488147419103232.0 {
                return Ordering::Greater;
            }
            let fl = y.floor();
            let yi = fl as i128;
            // x <= floor(y): less (an equal value puts the integer first)
            if x <= yi {
                Ordering::Less
            } else {
                Ordering::Greater
            }
        }
        (None, Some(_)) => cmp_num(b, a).reverse(),
    }
}
fn h(j: &Json) -> u64 {
    let mut d = DefaultHasher::new();
    j.hash(&mut d);
    d.finish()
}
/// Structural equality: same JSON text kinds and numbers (integer 1 is not float 1.0).
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => cmp_num(x, y) == Ordering::Equal,
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|((k, p), (l, q))| k == l && same(p, q))
        }
        _ => a == b,
    }
}
pub fn case(seed: u64, case: u64) -> Result<(bool, String), String> {
    let mut r = Rng(seed ^ case.wrapping_mul(0x2545_f491));
    let mut text = String::new();
    for _ in 0..40 {
        // a pool of related values; all pairs and triples of it
        let mut vs: Vec<Value> = vec![];
        if r.chance(1, 2) {
            for _ in 0..8 {
                vs.push(num(&mut r));
            }
        } else {
            let v = value(&mut r, 3);
            vs.push(v.clone());
            vs.push(v.clone());
            for _ in 0..4 {
                let w = near(&mut r, &v, 2);
                vs.push(w);
            }
            for _ in 0..2 {
                vs.push(value(&mut r, 2));
            }
        }
        let js: Vec<Json> = vs.iter().map(|v| Json::new(v.clone())).collect();
        for i in 0..js.len() {
            if js[i] != js[i] || js[i].partial_cmp(&js[i]) != Some(Ordering::Equal) {
                return Err(format!("{:?} is not equal to itself", vs[i]));
            }
            for k in 0..js.len() {
                let (a, b) = (&js[i], &js[k]);
                let c = a.partial_cmp(b);
                if (a == b) != (b == a) || c != b.partial_cmp(a).map(|o| o.reverse()) {
                    return Err(format!("asymmetric: {:?} and {:?}: {:?} / {:?}", vs[i], vs[k], c, b.partial_cmp(a)));
                }
                if (a == b) != (c == Some(Ordering::Equal)) {
                    return Err(format!("equality and order disagree on {:?} and {:?}: {} {:?}", vs[i], vs[k], a == b, c));
                }
                if (a == b) != same(&vs[i], &vs[k]) {
                    return Err(format!("{:?} == {:?} is {}", vs[i], vs[k], a == b));
                }
                if a == b && h(a) != h(b) {
                    return Err(format!("{:?} == {:?} but hashes differ", vs[i], vs[k]));
                }
                if h(a) != h(&Json::new(vs[i].clone())) {
                    return Err(format!("hash of {:?} is not stable", vs[i]));
                }
                let exp = match (&vs[i], &vs[k]) {
                    (Value::Number(x), Value::Number(y)) => Some(cmp_num(x, y)),
                    (Value::String(x), Value::String(y)) => Some(x.cmp(y)),
                    (Value::Bool(x), Value::Bool(y)) => Some(x.cmp(y)),
                    _ => c,
                };
                if c != exp {
                    return Err(format!("{:?} against {:?}: {:?}, expected {:?}", vs[i], vs[k], c, exp));
                }
                for l in 0..js.len() {
                    let d = b.partial_cmp(&js[l]);
                    let le = |o: Option<Ordering>| matches!(o, Some(Ordering::Less) | Some(Ordering::Equal));
                    if le(c) && le(d) {
                        let e = a.partial_cmp(&js[l]);
                        let want = if c == Some(Ordering::Equal) { d } else if d == Some(Ordering::Equal) { c } else { Some(Ordering::Less) };
                        if e != want {
                            return Err(format!("not transitive: {:?}, {:?}, {:?}: {:?} {:?} but {:?}", vs[i], vs[k], vs[l], c, d, e));
                        }
                    }
                }
            }
        }
        text = format!("{}", Value::Array(vs));
    }
    Ok((true, format!("40 pools of values, e.g. {}", text)))
}
