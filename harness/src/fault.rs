//! P10: operations that fail on unreadable stored records change nothing.
//! P12: a failing sync leaves the previous image in place.
use crate::crash;
use crate::gen::*;
use crate::model::*;
use crate::runner::*;
use crate::Outcome;
use indradb::*;
use serde_json::{json, Value};
use std::path::Path;
use std::result::Result;

pub fn case(prop: &str, seed: u64, case: u64) -> Outcome {
    Outcome::of(match prop {
        "P10" => rocks(seed, case),
        _ => sync(seed, case, prop == "P23"),
    })
}

pub type Dump = Vec<(String, Vec<(Vec<u8>, Vec<u8>)>)>;
pub fn raw_dump(path: &Path) -> Dump {
    let o = rocksdb::Options::default();
    let names: Vec<String> = rocksdb::DB::list_cf(&o, path).unwrap();
    let db = rocksdb::DB::open_cf_for_read_only(&o, path, &names, false).unwrap();
    names
        .iter()
        .map(|n| {
            let cf = db.cf_handle(n).unwrap();
            let v = db.iterator_cf(&cf, rocksdb::IteratorMode::Start).map(|x| x.unwrap()).map(|(k, v)| (k.to_vec(), v.to_vec())).collect();
            (n.clone(), v)
        })
        .collect()
}
fn show(d: &Dump) -> String {
    d.iter().map(|(n, v)| format!("{}: {}", n, v.len())).collect::<Vec<_>>().join(", ")
}

/// Overwrites some stored records with unreadable bytes.
fn corrupt(r: &mut Rng, path: &Path) -> Vec<String> {
    let o = rocksdb::Options::default();
    let names: Vec<String> = rocksdb::DB::list_cf(&o, path).unwrap();
    let db = rocksdb::DB::open_cf(&o, path, &names).unwrap();
    let mut all = vec![];
    for n in &names {
        let cf = db.cf_handle(n).unwrap();
        if n.contains("properties") && n.contains(":") && !n.contains("values") || n.starts_with("vertices") {
            for x in db.iterator_cf(&cf, rocksdb::IteratorMode::Start) {
                all.push((n.clone(), x.unwrap().0.to_vec()));
            }
        }
    }
    let mut out = vec![];
    if all.is_empty() {
        return out;
    }
    for _ in 0..1 + r.below(2) {
        let (n, k) = r.pick(&all).clone();
        let cf = db.cf_handle(&n).unwrap();
        let bad: &[u8] = if n.starts_with("vertices") { &[200, 1] } else { r.pick(&[&b"{"[..], &b"\xff\xfe"[..], &b""[..]]) };
        db.put_cf(&cf, &k, bad).unwrap();
        out.push(format!("{} {:?}", n, k));
    }
    out
}

/// An index that lists something twice, or something without the property.
fn dangling(db: &Database<RocksdbDatastore>, u: &Universe) -> Option<String> {
    for n in &u.names {
        if let Ok(Some(QueryOutputValue::Vertices(vs))) = db.get(VertexWithPropertyPresenceQuery::new(*n)).map(|mut o| o.pop()) {
            for (i, v) in vs.iter().enumerate() {
                if vs[..i].contains(v) {
                    return Some(format!("the lookup of {:?} gives {:?} twice", n, v));
                }
                if let Ok(Some(QueryOutputValue::VertexProperties(p))) = db.get(SpecificVertexQuery::single(v.id).properties().unwrap().name(*n)).map(|mut o| o.pop()) {
                    if p.is_empty() {
                        return Some(format!("the lookup of {:?} gives {:?}, which has no such property", n, v));
                    }
                }
            }
        }
        if let Ok(Some(QueryOutputValue::Edges(es))) = db.get(EdgeWithPropertyPresenceQuery::new(*n)).map(|mut o| o.pop()) {
            for (i, e) in es.iter().enumerate() {
                if es[..i].contains(e) {
                    return Some(format!("the lookup of {:?} gives {:?} twice", n, e));
                }
                if let Ok(Some(QueryOutputValue::EdgeProperties(p))) = db.get(SpecificEdgeQuery::single(e.clone()).properties().unwrap().name(*n)).map(|mut o| o.pop()) {
                    if p.is_empty() {
                        return Some(format!("the lookup of {:?} gives {:?}, which has no such property", n, e));
                    }
                }
            }
        }
    }
    None
}

fn rocks(seed: u64, case: u64) -> Result<(bool, String), String> {
    let mut r = Rng(seed ^ case.wrapping_mul(0x8f1b_bcdc));
    let mut u = Universe::new(&mut r);
    u.values.retain(|v| !format!("{:?}", v).contains("\\u{0}"));
    if u.values.is_empty() {
        u.values.push(ijson!(1));
    }
    let prof = Profile { orphans: r.chance(1, 4), adversarial: false, w: [6, 8, 0, 1, 10, 3, 2, 0, 0, 0, 0, 0] };
    let mut ctx = Ctx::new(Kind::Rocks, &u);
    let path = ctx.dir.path().join("db");
    let mut m = Model::new(EdgeOrder::LengthPrefixed);
    let mut log = vec![];
    for _ in 0..8 + r.below(14) {
        let op = gen_op(&mut r, &u, &m, &prof);
        advance(&mut m, &op);
        log.push(crate::short(&format!("{:?}", op)));
        let _ = exec(&ctx.store, &op, &u);
    }
    let crowded = r.chance(1, 5);
    if crowded {
        let n = *r.pick(&[40, 70, 130, 260, 600, 1100]);
        let op = crowd(&mut r, &u, n);
        log.push(crate::short(&format!("{:?}", op)));
        advance(&mut m, &op);
        let _ = exec(&ctx.store, &op, &u);
    }
    ctx.store = Store::Closed;
    let bad = corrupt(&mut r, &path);
    log.push(format!("-- unreadable records: {:?}", bad));
    let db = match RocksdbDatastore::new_db(&path) {
        Ok(db) => db,
        Err(e) => return Err(format!("cannot reopen: {:?}\n  {}", e, log.join("\n  "))),
    };
    ctx.store = Store::Rocks(db);
    let prof = Profile { orphans: true, adversarial: false, w: [2, 3, 0, 8, 8, 6, 4, 0, 0, 5, 4, 4] };
    let mut errs = 0;
    let mut before = raw_dump(&path);
    for _ in 0..12 {
        let op = if crowded && r.chance(1, 2) { sweep(&mut r, &u) } else { gen_op(&mut r, &u, &m, &prof) };
        log.push(crate::short(&format!("{:?}", op)));
        let ix = |s: &Store| -> Vec<String> {
            let db = match s {
                Store::Rocks(db) => db,
                _ => unreachable!(),
            };
            u.names
                .iter()
                .filter(|n| !matches!(db.get(VertexWithPropertyPresenceQuery::new(**n)), Err(Error::NotIndexed)))
                .map(|n| n.to_string())
                .collect()
        };
        let ib = ix(&ctx.store);
        let res = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(&ctx.store, &op, &u))) {
            Ok(x) => x,
            Err(_) => return Err(format!("{} panicked on an unreadable record\n  {}", op_name(&op), log.join("\n  "))),
        };
        let after = raw_dump(&path);
        let ia = ix(&ctx.store);
        if let Err(e) = res {
            errs += 1;
            if after != before {
                return Err(format!("{} returned error {:?} but changed the store: {} became {}\n  {}", op_name(&op), e, show(&before), show(&after), log.join("\n  ")));
            }
            if ia != ib {
                return Err(format!("{} returned error {:?} but changed the indexed properties: {:?} became {:?}\n  {}", op_name(&op), e, ib, ia, log.join("\n  ")));
            }
        } else {
            if let Op::Index(n) = &op {
                if !ia.contains(&n.to_string()) {
                    return Err(format!("index_property succeeded but {:?} is not indexed\n  {}", n, log.join("\n  ")));
                }
            }
            advance(&mut m, &op);
            if let Store::Rocks(db) = &ctx.store {
                if let Some(t) = dangling(db, &u) {
                    return Err(format!("{} succeeded, but only in part: {}\n  {}", op_name(&op), t, log.join("\n  ")));
                }
            }
        }
        before = after;
    }
    Ok((errs > 0, format!("{} of 12 operations failed on {:?}", errs, bad)))
}

/// A child process whose file writes fail beyond a limit, or that dies at some
/// system call of the sync that changes files: reads the image, applies ops,
/// syncs; prints whether sync succeeded.
pub fn syncchild() {
    let a: Vec<String> = std::env::args().collect();
    let (dir, seed, case, limit, exists) = (&a[2], a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap(), &a[6] == "1");
    let img = Path::new(dir).join("img");
    let db = if exists { MemoryDatastore::read_msgpack_db(&img).unwrap() } else { MemoryDatastore::create_msgpack_db(&img) };
    let mut r = Rng(seed ^ case.wrapping_mul(0x1234_5677));
    let u = Universe::new(&mut r);
    let prof = Profile { orphans: false, adversarial: false, w: [6, 8, 0, 1, 10, 3, 2, 0, 0, 0, 0, 0] };
    let mut m = Model::new(EdgeOrder::Lexicographic);
    let s = Store::Mem(db);
    for _ in 0..6 + r.below(10) {
        let op = gen_op(&mut r, &u, &m, &prof);
        advance(&mut m, &op);
        let _ = exec(&s, &op, &u);
    }
    let big = Identifier::new("big").unwrap();
    if r.chance(1, 2) {
        let v = Vertex::with_id(u.ids[0], u.types[0]);
        if let Store::Mem(db) = &s {
            let _ = db.create_vertex(&v);
            let n = *r.pick(&[10usize, 8100, 8192, 8300, 16384, 40000]);
            let _ = db.set_properties(SpecificVertexQuery::single(v.id), big, &ijson!("x".repeat(n)));
        }
    }
    let db = match s {
        Store::Mem(db) => db,
        _ => unreachable!(),
    };
    println!("STATE {}", state(&db));
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        if limit != u64::MAX {
            let l = libc::rlimit { rlim_cur: limit, rlim_max: limit };
            libc::setrlimit(libc::RLIMIT_FSIZE, &l);
        }
    }
    crash::arm(a[7].parse().unwrap(), a[8] == "1");
    let r = db.sync().is_ok();
    crash::arm(-1, false);
    println!("SYNC {}", if r { "ok" } else { "err" });
}

/// Everything stored, as text.
fn state<D: Datastore>(db: &Database<D>) -> String {
    let guard = db.datastore.transaction();
    let txn = unsafe { &*(&guard as *const D::Transaction<'_>) };
    let mut s = String::new();
    for v in txn.all_vertices().unwrap() {
        let v = v.unwrap();
        s += &format!("{:?}", v);
        for x in txn.all_vertex_properties_for_vertex(&v).unwrap() {
            s += &format!("{:?}", x.unwrap());
        }
    }
    for e in txn.all_edges().unwrap() {
        let e = e.unwrap();
        s += &format!("{:?}", e);
        for x in txn.all_edge_properties_for_edge(&e).unwrap() {
            s += &format!("{:?}", x.unwrap());
        }
    }
    for e in txn.range_reversed_edges(Edge::new(Default::default(), Default::default(), Default::default())).unwrap() {
        s += &format!("{:?}", e.unwrap());
    }
    s.replace('\n', " ")
}

/// With `deaths`, the second sync's process may die in it.
fn sync(seed: u64, case: u64, deaths: bool) -> Result<(bool, String), String> {
    let mut r = Rng(seed ^ case.wrapping_mul(0xca62_c1d6));
    let dir = tempfile::tempdir().unwrap();
    let img = dir.path().join("img");
    let child = |k: u64, limit: u64, exists: bool, dir: &Path, die: i64, half: bool| -> (String, String) {
        let o = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["syncchild", dir.to_str().unwrap(), &seed.to_string(), &k.to_string(), &limit.to_string(), if exists { "1" } else { "0" }, &die.to_string(), if half { "1" } else { "0" }])
            .env("TMPDIR", dir)
            .output()
            .unwrap();
        let t = String::from_utf8_lossy(&o.stdout).to_string();
        let f = |p: &str| t.lines().find(|l| l.starts_with(p)).map(|l| l[p.len()..].to_string()).unwrap_or_else(|| format!("missing, {}", o.status));
        (f("STATE "), f("SYNC "))
    };
    let (s0, r0) = child(case * 3, u64::MAX, false, dir.path(), -1, false);
    if r0 != "ok" {
        return Err(format!("an unhindered sync failed: {}", r0));
    }
    let read = || -> Result<String, String> {
        MemoryDatastore::read_msgpack_db(&img).map(|d| state(&d)).map_err(|e| format!("unreadable: {}", e))
    };
    if read() != Ok(s0.clone()) {
        return Err(format!("after a sync the image holds {:?}, expected {}", read(), s0));
    }
    let size = std::fs::metadata(&img).unwrap().len();
    let limit = match r.below(7) {
        0 => 0,
        1 => 1,
        2 => size / 2,
        3 => size.saturating_sub(1),
        4 => size + 20,
        5 => 8192,
        _ => r.below(size as usize + 100) as u64,
    };
    if deaths {
        let (at, half) = (r.below(7) as i64, r.chance(1, 2));
        let (s1, r1) = child(case * 3 + 1, u64::MAX, true, dir.path(), at, half);
        let now = read();
        let what = format!("a process that dies at the file-changing call {}{} of a sync: {}", at, if half { ", half way through it" } else { "" }, r1);
        let dead = r1.starts_with("missing");
        if now == Ok(s1.clone()) || (dead && now == Ok(s0.clone())) {
            return Ok((dead, what));
        }
        return Err(format!("{}, the image holds {:?}; before it was {}, the process held {}", what, now, s0, s1));
    }
    // the second state may be larger or smaller than the limit
    let (s1, r1) = child(case * 3 + 1, limit, true, dir.path(), -1, false);
    let now = read();
    let what = format!("sync with writes failing beyond {} bytes (previous image {} bytes) reports {}", limit, size, r1);
    match r1.as_str() {
        "ok" => {
            if now != Ok(s1.clone()) {
                return Err(format!("{}, but the image holds {:?}, expected {}", what, now, s1));
            }
        }
        "err" => {
            if now != Ok(s0.clone()) {
                return Err(format!("{}, but the previous image became {:?}, expected {}", what, now, s0));
            }
        }
        _ => return Err(what),
    }
    Ok((r1 == "err", what))
}

fn exact(j: &Value) -> bool {
    serde_json::from_str::<Value>(&j.to_string()).map_or(false, |k| format!("{:?}", k) == format!("{:?}", j))
}

fn nested(depth: usize) -> serde_json::Value {
    let mut v = serde_json::Value::Null;
    for _ in 0..depth {
        v = serde_json::Value::Array(vec![v]);
    }
    v
}

/// Reports which of the recorded known findings still fail.
pub fn known() {
    let fs = [-136128913123.45633f64, 2.547114365375239e-8, 7.31835074306e92];
    let mut vals: Vec<(String, serde_json::Value)> = fs.iter().map(|f| (json!(f).to_string(), json!(f))).collect();
    vals.push(("nested-128".into(), nested(128)));
    for (name, j) in vals {
        let _ = exact(&j);
        let dir = tempfile::tempdir().unwrap();
        let db = RocksdbDatastore::new_db(dir.path().join("db")).unwrap();
        let v = Vertex::new(Identifier::default());
        db.create_vertex(&v).unwrap();
        let n = Identifier::new("p").unwrap();
        let set = db.set_properties(SpecificVertexQuery::single(v.id), n, &Json::new(j.clone())).is_ok();
        let g = db.datastore.transaction();
        let same = set && g.vertex_property(&v, n).unwrap().map_or(false, |x| format!("{:?}", *x) == format!("{:?}", j));
        println!("rocksdb {} {}", name, if same { "ok" } else { "changed" });
        let m: indradb_proto::Json = Json::new(j.clone()).into();
        let b: Result<Json, _> = m.try_into();
        println!("proto {} {}", name, if b.map_or(false, |b| format!("{:?}", *b) == format!("{:?}", j)) { "ok" } else { "changed" });
    }
    let dir = tempfile::tempdir().unwrap();
    let path = dir.path().join("image");
    let db = MemoryDatastore::create_msgpack_db(&path);
    let v = Vertex::new(Identifier::default());
    db.create_vertex(&v).unwrap();
    let set = db.set_properties(SpecificVertexQuery::single(v.id), Identifier::new("p").unwrap(), &Json::new(nested(1100))).is_ok();
    let bad = set && db.sync().is_ok() && MemoryDatastore::read_msgpack_db(&path).is_err();
    println!("image nested-1100 {}", if bad { "changed" } else { "ok" });
}
