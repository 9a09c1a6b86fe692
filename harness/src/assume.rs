//! Samples of the assumptions that the contracts make about code outside the
//! repository (the shims and axioms of contracts/*.vt): each is checked on
//! random and boundary values against the real library. Nothing here decides
//! a property; a failing sample is reported as an assumption that does not
//! hold.
use crate::gen::Rng;
use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
use indradb::Identifier;
use internment::Intern;
use serde_json::{Number, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{Cursor, Read, Write};
use uuid::Uuid;

macro_rules! must {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
type R = Result<(), String>;

fn bytes(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = r.below(max + 1);
    (0..n).map(|_| match r.below(4) { 0 => 0, 1 => 255, 2 => 1, _ => r.next() as u8 }).collect()
}
fn uuid(r: &mut Rng) -> Uuid {
    let mut b = [0u8; 16];
    for x in b.iter_mut() {
        *x = match r.below(4) { 0 => 0, 1 => 255, _ => r.next() as u8 };
    }
    Uuid::from_bytes(b)
}
fn int(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(3) as u64,
        1 => u64::MAX - r.below(3) as u64,
        2 => (i64::MAX as u64).wrapping_add(r.below(3) as u64).wrapping_sub(1),
        3 => 1u64 << r.below(64),
        4 => (1u64 << 53).wrapping_add(r.below(5) as u64).wrapping_sub(2),
        _ => r.next(),
    }
}
fn float(r: &mut Rng) -> f64 {
    loop {
        let f = match r.below(6) {
            0 => f64::from_bits(r.next()),
            1 => int(r) as f64,
            2 => -(int(r) as f64),
            3 => (r.below(2000) as f64 - 1000.0) / 8.0,
            4 => *r.pick(&[0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1.7e38, 1.8e38, -1.7014118346046923e38, 9007199254740993.0]),
            _ => (r.next() as i64 as f64) * 0.5,
        };
        if f.is_finite() {
            return f;
        }
    }
}
fn ident(r: &mut Rng) -> Identifier {
    let n = *r.pick(&[0usize, 1, 2, 3, 17, 254, 255]);
    let c = ['a', 'Z', '0', '-', '_'];
    Identifier::new((0..n).map(|_| *r.pick(&c)).collect::<String>()).unwrap()
}
/// a JSON value without floats (what the contracts call exact)
fn json(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 5 } else { 7 }) {
        0 => Value::Null,
        1 => Value::Bool(r.chance(1, 2)),
        2 => Value::from(int(r)),
        3 => Value::from(int(r) as i64),
        4 => Value::from((0..r.below(6)).map(|_| *r.pick(&['a', '"', '\\', '\u{0}', 'é', '\u{1F600}', '\n', '\u{2028}'])).collect::<String>()),
        5 => Value::Array((0..r.below(4)).map(|_| json(r, depth - 1)).collect()),
        _ => Value::Object((0..r.below(4)).map(|i| (format!("k{}{}", i, r.below(3)), json(r, depth - 1))).collect()),
    }
}

/// bytes.vt, model.vt: a Uuid is its 16 bytes, ordered as they are
fn uuids(r: &mut Rng) -> R {
    let b = bytes(r, 20);
    must!(Uuid::from_slice(&b).is_ok() == (b.len() == 16), "Uuid::from_slice of {} bytes", b.len());
    let (u, v) = (uuid(r), uuid(r));
    must!(Uuid::from_slice(u.as_bytes()).unwrap() == u && Uuid::from_bytes(u.into_bytes()) == u, "Uuid bytes of {}", u);
    must!((u < v) == (u.as_bytes() < v.as_bytes()) && (u == v) == (u.as_bytes() == v.as_bytes()), "order of {} and {}", u, v);
    must!(Uuid::default().as_bytes() == &[0; 16], "the default Uuid");
    must!(Uuid::from_u128(u.as_u128()) == u && u.as_u128().to_be_bytes() == u.into_bytes(), "Uuid::from_u128 of {}", u);
    Ok(())
}
/// bytes.vt: cursors
fn cursors(r: &mut Rng) -> R {
    let (b, n) = (bytes(r, 24), r.below(26));
    let mut c = Cursor::new(b.clone());
    c.set_position(r.below(b.len() + 1) as u64);
    let at = c.position() as usize;
    match r.below(4) {
        0 => {
            let mut buf = vec![7u8; n];
            let ok = c.read_exact(&mut buf).is_ok();
            must!(ok == (at + n <= b.len()), "read_exact {} at {} of {:?}", n, at, b);
            must!(!ok || (buf == b[at..at + n] && c.position() as usize == at + n), "read_exact {} at {} of {:?}", n, at, b);
        }
        1 => {
            let x = c.read_u64::<BigEndian>();
            must!(x.is_ok() == (at + 8 <= b.len()), "read_u64 at {} of {:?}", at, b);
            if let Ok(x) = x {
                let d = (0..8).fold(0u64, |a, i| a << 8 | b[at + i] as u64);
                must!(x == d && c.position() as usize == at + 8, "read_u64 at {} of {:?}", at, b);
            }
        }
        2 => {
            let x = c.read_u8();
            must!(x.ok() == b.get(at).cloned(), "read_u8 at {} of {:?}", at, b);
        }
        _ => {
            let mut s = "x".to_string();
            let t = c.read_to_string(&mut s);
            match std::str::from_utf8(&b[at..]) {
                Ok(u) => must!(t.is_ok() && s == format!("x{}", u), "read_to_string at {} of {:?}", at, b),
                Err(_) => must!(t.is_err(), "read_to_string at {} of {:?}", at, b),
            }
        }
    }
    let (x, y) = (int(r), r.next() as u8);
    let mut c = Cursor::new(Vec::new());
    c.write_all(&b).map_err(|e| e.to_string())?;
    c.write_u64::<BigEndian>(x).map_err(|e| e.to_string())?;
    c.write_u8(y).map_err(|e| e.to_string())?;
    let mut w = b.clone();
    for i in 0..8 {
        w.push((x >> (56 - 8 * i)) as u8);
    }
    w.push(y);
    must!(c.position() as usize == w.len() && c.into_inner() == w, "writing {:?} {} {}", b, x, y);
    Ok(())
}
/// ids.vt, model.vt: interned strings, identifiers
fn interned(r: &mut Rng) -> R {
    let (a, b) = (ident(r), ident(r));
    must!((a == b) == (a.as_str() == b.as_str()), "identifiers {:?} {:?}", a, b);
    must!(a.cmp(&b) == a.as_str().as_bytes().cmp(b.as_str().as_bytes()), "order of {:?} {:?}", a, b);
    let (x, y) = (Intern::new(a.as_str().to_string()), Intern::new(b.as_str().to_string()));
    must!((x == y) == (a.as_str() == b.as_str()) && x.as_str() == a.as_str() && x == Intern::new(a.as_str().to_string()), "Intern of {:?}", a);
    let h = |i: &Identifier| { let mut s = DefaultHasher::new(); i.hash(&mut s); s.finish() };
    must!(a != b || h(&a) == h(&b), "hash of {:?}", a);
    let s: String = (0..r.below(5)).map(|_| *r.pick(&['a', 'é', '中', '\u{1F600}'])).collect();
    must!(s.len() == s.chars().map(|c| c.len_utf8()).sum::<usize>() && String::from_utf8(s.as_bytes().to_vec()).unwrap() == s, "UTF-8 of {:?}", s);
    Ok(())
}
/// jvals.vt: floats and numbers
fn numbers(r: &mut Rng) -> R {
    let (f, g) = (float(r), float(r));
    // trunc: an integer, of the same sign, less than one towards zero
    let t = f.trunc();
    must!(t % 1.0 == 0.0 && t.abs() <= f.abs() && (f - t).abs() < 1.0 && t.is_sign_negative() == f.is_sign_negative(), "trunc of {:e}", f);
    // `as i128`: saturating, else the truncated value
    let i = f as i128;
    if t >= 170141183460469231731687303715884105728.0 {
        must!(i == i128::MAX, "{:e} as i128", f);
    } else if t < -170141183460469231731687303715884105728.0 {
        must!(i == i128::MIN, "{:e} as i128", f);
    } else {
        must!(i as f64 == t, "{:e} as i128 = {}", f, i);
    }
    // the total order: the partial one, and -0.0 before 0.0
    let want = f.partial_cmp(&g).unwrap().then_with(|| g.is_sign_negative().cmp(&f.is_sign_negative()));
    must!(f.total_cmp(&g) == want, "total_cmp {:e} {:e}", f, g);
    must!((f.to_bits() == g.to_bits()) == (f == g && f.is_sign_negative() == g.is_sign_negative()), "to_bits {:e} {:e}", f, g);
    must!(!(f < 0.0) || f.is_sign_negative(), "sign of {:e}", f);
    // numbers are one of u64, negative i64, finite f64
    let x = int(r);
    let check = |n: &Number, v: i128| -> R {
        must!(n.is_i64() == (v <= i64::MAX as i128) && n.is_u64() == (v >= 0) && !n.is_f64(), "class of {}", n);
        must!(n.as_i64().map(|i| i as i128) == if v <= i64::MAX as i128 { Some(v) } else { None }, "as_i64 of {}", n);
        must!(n.as_u64().map(|i| i as i128) == if v >= 0 { Some(v) } else { None } && n.as_f64().is_some(), "as_u64 of {}", n);
        Ok(())
    };
    check(&Number::from(x), x as i128)?;
    check(&Number::from(x as i64), x as i64 as i128)?;
    check(&serde_json::from_str::<Number>(&x.to_string()).map_err(|e| e.to_string())?, x as i128)?;
    let n = Number::from_f64(f).ok_or("from_f64")?;
    must!(n.is_f64() && !n.is_i64() && !n.is_u64() && n.as_i64().is_none() && n.as_u64().is_none() && n.as_f64().unwrap().to_bits() == f.to_bits(), "class of {}", n);
    must!(Number::from_f64(f64::NAN).is_none() && Number::from_f64(f64::INFINITY).is_none(), "a number that is not finite");
    must!(i64::try_from(x).ok().map(|i| i as u64) == if x <= i64::MAX as u64 { Some(x) } else { None }, "i64::try_from {}", x);
    must!(u64::try_from(x as i64).ok() == if x as i64 >= 0 { Some(x) } else { None }, "u64::try_from {}", x as i64);
    Ok(())
}
/// rocks.vt, conv.vt: serde_json and bincode read back what they wrote
fn texts(r: &mut Rng) -> R {
    let v = json(r, 3);
    let b = serde_json::to_vec(&v).map_err(|e| e.to_string())?;
    must!(serde_json::from_slice::<Value>(&b).ok().as_ref() == Some(&v), "serde_json of {}", v);
    let s = serde_json::to_string(&v).map_err(|e| e.to_string())?;
    must!(serde_json::from_str::<Value>(&s).ok().as_ref() == Some(&v) && s.as_bytes() == b, "serde_json text of {}", v);
    let h = |b: &[u8]| { let mut s = DefaultHasher::new(); b.hash(&mut s); s.finish() };
    must!(h(&b) == h(s.as_bytes()), "the hash of {} differs from run to run", v);
    if let Value::Object(m) = &v {
        let k: Vec<&String> = m.keys().collect();
        must!(k.windows(2).all(|w| w[0] < w[1]), "the entries of {} are not in order", v);
    }
    let set: HashSet<Identifier> = (0..r.below(5)).map(|_| ident(r)).collect();
    let b = bincode::serialize(&set).map_err(|e| e.to_string())?;
    must!(bincode::deserialize::<HashSet<Identifier>>(&b).ok().as_ref() == Some(&set), "bincode of {:?}", set);
    let b = rmp_serde::to_vec(&v).map_err(|e| e.to_string())?;
    must!(rmp_serde::from_slice::<Value>(&b).ok().as_ref() == Some(&v), "rmp_serde of {}", v);
    Ok(())
}
/// core.vt, std.vt: the collections
fn collections(r: &mut Rng) -> R {
    let mut s: BTreeSet<(u8, u8)> = BTreeSet::new();
    let mut m: BTreeMap<(u8, u8), u8> = BTreeMap::new();
    let mut hs: HashSet<u8> = HashSet::new();
    let mut hm: HashMap<u8, u8> = HashMap::new();
    let (mut ws, mut wm) = (vec![], vec![]);
    for _ in 0..r.below(20) {
        let (k, v) = ((r.below(4) as u8, r.below(4) as u8), r.below(9) as u8);
        let has = ws.contains(&k);
        if r.chance(2, 3) {
            must!(s.insert(k) != has && (m.insert(k, v).is_some() == wm.iter().any(|(x, _)| *x == k)), "insert {:?}", k);
            must!(hs.insert(k.0) != wm.iter().any(|((x, _), _): &((u8, u8), u8)| *x == k.0) || !has, "insert {:?}", k);
            hm.insert(k.0, v);
            ws.retain(|x| *x != k);
            ws.push(k);
            wm.retain(|(x, _)| *x != k);
            wm.push((k, v));
        } else {
            must!(s.remove(&k) == has && m.remove(&k).is_some() == wm.iter().any(|(x, _)| *x == k), "remove {:?}", k);
            ws.retain(|x| *x != k);
            wm.retain(|(x, _)| *x != k);
        }
    }
    ws.sort();
    wm.sort();
    let low = (r.below(5) as u8, r.below(5) as u8);
    must!(s.iter().cloned().collect::<Vec<_>>() == ws && m.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>() == wm, "iteration");
    must!(s.range(low..).cloned().collect::<Vec<_>>() == ws.iter().filter(|k| **k >= low).cloned().collect::<Vec<_>>(), "range from {:?}", low);
    must!(m.range(low..).map(|(k, v)| (*k, *v)).collect::<Vec<_>>() == wm.iter().filter(|(k, _)| *k >= low).cloned().collect::<Vec<_>>(), "range from {:?}", low);
    for k in 0..4u8 {
        let e = hm.contains_key(&k);
        must!(hm.get(&k).is_some() == e && (hm.entry(k).or_insert(77) != &77 || !e), "entry {}", k);
    }
    let mut a = vec![1, 2];
    let b = std::mem::take(&mut a);
    must!(a.is_empty() && b == [1, 2] && std::mem::replace(&mut a, vec![3]).is_empty() && a == [3], "mem::take");
    Ok(())
}
/// rocks.vt: batches, scans, lookups, and what a reader sees of later writes
fn rocks(r: &mut Rng) -> R {
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let mut o = rocksdb::Options::default();
    o.create_if_missing(true);
    o.create_missing_column_families(true);
    let cfs = ["a:v2", "b:v2"];
    let mut want: BTreeMap<(usize, Vec<u8>), Vec<u8>> = BTreeMap::new();
    let keys: Vec<Vec<u8>> = (0..12).map(|_| bytes(r, 4)).collect();
    let e = |x: rocksdb::Error| x.to_string();
    for round in 0..2 {
        let db = rocksdb::DB::open_cf(&o, dir.path(), cfs).map_err(e)?;
        must!(db.cf_handle("c").is_none() && db.cf_handle(cfs[0]).is_some(), "cf_handle");
        for _ in 0..6 {
            let mut b = rocksdb::WriteBatch::default();
            must!(b.is_empty() && b.len() == 0, "an empty batch");
            if r.chance(1, 3) {
                b.put_cf(db.cf_handle(cfs[0]).unwrap(), b"gone", b"x");
                b.clear();
                must!(b.is_empty() && b.len() == 0, "a cleared batch");
            }
            let c0 = r.below(2);
            let before: Vec<_> = want.range((c0, vec![])..(c0 + 1, vec![])).map(|((_, k), v)| (k.clone(), v.clone())).collect();
            for _ in 0..r.below(8) {
                let (c, k, v) = (r.below(2), r.pick(&keys).clone(), bytes(r, 5));
                let h = db.cf_handle(cfs[c]).unwrap();
                if r.chance(2, 3) {
                    b.put_cf(h, &k, &v);
                    want.insert((c, k), v);
                } else {
                    b.delete_cf(h, &k);
                    want.remove(&(c, k));
                }
            }
            let it = db.iterator_cf(db.cf_handle(cfs[c0]).unwrap(), rocksdb::IteratorMode::Start);
            db.write(b).map_err(e)?;
            let got: Vec<_> = it.map(|x| x.map(|(k, v)| (k.to_vec(), v.to_vec()))).collect::<Result<_, _>>().map_err(e)?;
            must!(got == before, "an iterator sees writes made after it was created");
            for c in 0..2 {
                let h = db.cf_handle(cfs[c]).unwrap();
                let low = r.pick(&keys).clone();
                let got: Vec<_> = db
                    .iterator_cf(h, rocksdb::IteratorMode::From(&low, rocksdb::Direction::Forward))
                    .map(|x| x.map(|(k, v)| (k.to_vec(), v.to_vec())))
                    .collect::<Result<_, _>>()
                    .map_err(e)?;
                let exp: Vec<_> = want.range((c, low.clone())..(c + 1, vec![])).map(|((_, k), v)| (k.clone(), v.clone())).collect();
                must!(got == exp, "scan of {} from {:?}: {:?}, not {:?}", cfs[c], low, got, exp);
                for k in &keys {
                    must!(db.get_cf(h, k).map_err(e)? == want.get(&(c, k.clone())).cloned(), "get {:?}", k);
                }
            }
        }
        if round == 0 && r.chance(1, 2) {
            db.flush().map_err(e)?;
            for c in cfs {
                let h = db.cf_handle(c).unwrap();
                db.compact_range_cf(h, None::<&[u8]>, None::<&[u8]>);
            }
        }
    }
    Ok(())
}
/// img.vt: temporary files and renames
fn files(r: &mut Rng) -> R {
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let (p, q) = (dir.path().join("image"), dir.path().join("other"));
    let e = |x: std::io::Error| x.to_string();
    std::fs::write(&p, b"old").map_err(e)?;
    std::fs::write(&q, b"other").map_err(e)?;
    let b = bytes(r, 20000);
    let t = tempfile::NamedTempFile::new_in(dir.path()).map_err(e)?;
    must!(t.path() != p && t.path() != q && std::fs::read(t.path()).map_err(e)?.is_empty(), "a temporary file is a fresh one");
    let mut w = std::io::BufWriter::new(t.as_file());
    w.write_all(&b).map_err(e)?;
    w.flush().map_err(e)?;
    drop(w);
    must!(std::fs::read(t.path()).map_err(e)? == b && std::fs::read(&p).map_err(e)? == b"old", "a flushed file");
    let n = t.path().to_path_buf();
    t.persist(&p).map_err(|x| x.to_string())?;
    must!(std::fs::read(&p).map_err(e)? == b && !n.exists() && std::fs::read(&q).map_err(e)? == b"other", "a file that was persisted");
    must!(std::fs::File::open(dir.path().join("none")).is_err(), "a file that is not there");
    Ok(())
}
/// map.vt: the thread pool
fn pools(r: &mut Rng) -> R {
    let (n, k) = (r.below(40), 1 + r.below(8));
    let pool = threadpool::ThreadPool::new(k);
    let done = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    for i in 0..n {
        let d = done.clone();
        pool.execute(move || d.lock().unwrap().push(i));
    }
    pool.join();
    let mut d = done.lock().unwrap().clone();
    d.sort();
    must!(d == (0..n).collect::<Vec<_>>(), "{} jobs on {} threads: {:?}", n, k, d);
    Ok(())
}

pub fn run(seed: u64, secs: u64) -> Value {
    let all: [(&str, fn(&mut Rng) -> R, u64); 9] = [
        ("uuid: bytes and order", uuids, 2000),
        ("std::io::Cursor and byteorder", cursors, 5000),
        ("internment, identifiers and UTF-8", interned, 2000),
        ("f64 and serde_json::Number", numbers, 5000),
        ("serde_json, bincode and rmp_serde read back what they wrote (no floats)", texts, 1000),
        ("std collections", collections, 1000),
        ("RocksDB: batches, scans, lookups, reopening", rocks, 3),
        ("temporary files and rename", files, 10),
        ("thread pool", pools, 20),
    ];
    let t0 = std::time::Instant::now();
    let (mut n, mut failed, mut counts) = (0u64, vec![], serde_json::Map::new());
    let mut round = 0u64;
    loop {
        for (i, (name, f, k)) in all.iter().enumerate() {
            let mut r = Rng(seed.wrapping_mul(1000003).wrapping_add(i as u64).wrapping_add(round << 32));
            for _ in 0..*k {
                let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r))).unwrap_or_else(|_| Err("panicked".to_string()));
                n += 1;
                if let Err(t) = x {
                    failed.push(Value::from(format!("{}: {}", name, crate::short(&t))));
                    break;
                }
            }
            let c = counts.entry(name.to_string()).or_insert(Value::from(0u64));
            *c = Value::from(c.as_u64().unwrap() + k);
        }
        round += 1;
        if !failed.is_empty() || t0.elapsed().as_secs() >= secs {
            break;
        }
    }
    serde_json::json!({"samples": n, "of": counts, "failed": failed, "wall_s": t0.elapsed().as_secs_f64()})
}
