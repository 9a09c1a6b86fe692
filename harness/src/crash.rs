//! P23: a process working on a persistent database dies at some system call
//! that changes files (or half way through a write); the database is opened
//! again and must hold what the completed operations left, and all or nothing
//! of the one in progress.
use crate::gen::*;
use crate::model::*;
use crate::runner::*;
use indradb::*;
use std::path::Path;
use std::process::{Command, Stdio};
use std::result::Result;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};

static ARMED: AtomicBool = AtomicBool::new(false);
static LEFT: AtomicI64 = AtomicI64::new(i64::MAX);
static HALF: AtomicBool = AtomicBool::new(false);

/// calls fail instead, from that one on
static FAIL: AtomicBool = AtomicBool::new(false);
fn refuse() -> libc::ssize_t {
    unsafe {
        *libc::__errno_location() = libc::EIO;
    }
    -1
}

/// counts one call; true: this is the one to die at
fn due() -> bool {
    ARMED.load(SeqCst) && {
        let n = LEFT.fetch_sub(1, SeqCst);
        n == 0 || n < 0 && FAIL.load(SeqCst)
    }
}
fn die() -> ! {
    unsafe {
        libc::syscall(libc::SYS_exit_group, 9);
    }
    unreachable!()
}
// The system calls that change files, as RocksDB reaches them. Outside of
// `crashchild` they only pass through.
#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    if due() {
        if HALF.load(SeqCst) {
            libc::syscall(libc::SYS_write, fd, buf, n / 2);
        }
        if FAIL.load(SeqCst) {
            HALF.store(false, SeqCst);
            return refuse();
        }
        die();
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as libc::ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const libc::c_char, b: *const libc::c_char) -> libc::c_int {
    if due() {
        if FAIL.load(SeqCst) {
            return refuse() as libc::c_int;
        }
        die();
    }
    libc::syscall(libc::SYS_rename, a, b) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const libc::c_char) -> libc::c_int {
    if due() {
        if FAIL.load(SeqCst) {
            return refuse() as libc::c_int;
        }
        die();
    }
    libc::syscall(libc::SYS_unlink, a) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: libc::c_int) -> libc::c_int {
    if due() {
        if FAIL.load(SeqCst) {
            return refuse() as libc::c_int;
        }
        die();
    }
    libc::syscall(libc::SYS_fsync, fd) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: libc::c_int) -> libc::c_int {
    if due() {
        if FAIL.load(SeqCst) {
            return refuse() as libc::c_int;
        }
        die();
    }
    libc::syscall(libc::SYS_fdatasync, fd) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: libc::c_int, n: libc::off_t) -> libc::c_int {
    if due() {
        if FAIL.load(SeqCst) {
            return refuse() as libc::c_int;
        }
        die();
    }
    libc::syscall(libc::SYS_ftruncate, fd, n) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: libc::c_int, n: libc::off_t) -> libc::c_int {
    ftruncate(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t, at: libc::off_t) -> libc::ssize_t {
    if due() {
        if HALF.load(SeqCst) {
            libc::syscall(libc::SYS_pwrite64, fd, buf, n / 2, at);
        }
        if FAIL.load(SeqCst) {
            return refuse();
        }
        die();
    }
    libc::syscall(libc::SYS_pwrite64, fd, buf, n, at) as libc::ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: libc::c_int, v: *const libc::iovec, n: libc::c_int) -> libc::ssize_t {
    if due() {
        if HALF.load(SeqCst) {
            libc::syscall(libc::SYS_writev, fd, v, n / 2);
        }
        if FAIL.load(SeqCst) {
            return refuse();
        }
        die();
    }
    libc::syscall(libc::SYS_writev, fd, v, n) as libc::ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: libc::c_int, ao: *mut libc::off64_t, b: libc::c_int, bo: *mut libc::off64_t, n: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if due() {
        if FAIL.load(SeqCst) {
            return refuse();
        }
        die();
    }
    libc::syscall(libc::SYS_copy_file_range, a, ao, b, bo, n, flags) as libc::ssize_t
}
/// from here on, the process dies at its `left`-th call
pub fn arm(left: i64, half: bool) {
    LEFT.store(left, SeqCst);
    HALF.store(half, SeqCst);
    ARMED.store(left >= 0, SeqCst);
}

fn open(path: &Path, how: u64) -> indradb::Result<Database<RocksdbDatastore>> {
    match how % 2 {
        0 => RocksdbDatastore::new_db(path),
        _ => RocksdbDatastore::new_db_with_options(path, &RocksdbDatastore::get_options(None)),
    }
}
/// the first cases are one operation on more items than each number of the dictionary
fn bound(case: u64) -> Option<u64> {
    let d: Vec<u64> = dict().ints.iter().cloned().filter(|k| (3..8000).contains(k)).collect();
    d.get((case / 6) as usize).cloned()
}
fn operations(seed: u64, case: u64) -> (Universe, Vec<Op>) {
    let p = Profile { orphans: false, adversarial: false, w: [6, 8, 0, 3, 8, 5, 3, 0, 0, 2, 2, 2] };
    let (u, mut ops) = gen_case(Kind::Rocks, seed ^ 0x23, case, 12, &p);
    let mut r = Rng(seed ^ case.wrapping_mul(0x77_3b0d));
    if let Some(k) = bound(case) {
        let q = |i: u64| if i % 2 == 0 { Query::AllEdge } else { Query::AllVertex };
        let (name, value) = (u.names[0], u.values[0].clone());
        ops = vec![];
        if case % 3 == 0 {
            ops.push(Op::Index(name));
        }
        ops.push(crowded(&mut r, &u, k as usize + 2, true));
        ops.push(match case % 6 {
            0 | 1 => Op::SetProps(q(case), name, value),
            2 | 3 => Op::Delete(q(case)),
            4 => Op::Delete(Query::PipeProperty(PipePropertyQuery { inner: Box::new(q(r.next())), name: None })),
            _ => Op::Index(u.names[u.names.len() - 1]),
        });
    } else if r.chance(1, 4) {
        let n = *r.pick(&[40, 70, 130, 260, 600, 1100]);
        ops.truncate(4);
        ops.push(crowd(&mut r, &u, n));
        for _ in 0..1 + r.below(4) {
            ops.push(sweep(&mut r, &u));
        }
    }
    (u, ops)
}
fn say(s: String) {
    unsafe {
        libc::syscall(libc::SYS_write, 1, s.as_ptr(), s.len());
    }
}

/// crashchild DIR SEED CASE HOW LEFT HALF WITH-OPS
pub fn crashchild() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<i64>().unwrap();
    let (u, ops) = operations(n(3) as u64, n(4) as u64);
    let errors = a[8] == "2";
    if !errors {
        arm(n(6), a[7] == "1");
    }
    let db = match open(Path::new(&a[2]), n(5) as u64) {
        Ok(db) => db,
        Err(e) => {
            say(format!("\nopenerr {:?}\n", e));
            die()
        }
    };
    say(format!("\nopen {}\n", n(6) - LEFT.load(SeqCst)));
    let s = Store::Rocks(db);
    if errors {
        FAIL.store(true, SeqCst);
        arm(n(6), a[7] == "1");
    }
    if a[8] != "0" {
        for (i, op) in ops.iter().enumerate() {
            if errors {
                // output is not what fails
                say(format!("at {}\n", i));
            }
            let r = exec(&s, op, &u);
            if errors || a[8] == "1" {
                say(format!("used {}\n", n(6) - LEFT.load(SeqCst)));
            }
            say(format!("{} {}\n", if r.is_ok() { "ok" } else { "err" }, i));
        }
    }
    // without closing the database
    die();
}

/// what an opened database holds: everything but the set of indexed names as
/// it is stored, and that set
type Held = (Vec<(String, Vec<(Vec<u8>, Vec<u8>)>)>, Vec<String>);
fn held(path: &Path, how: u64, u: &Universe) -> Result<Held, String> {
    let db = open(path, how).map_err(|e| format!("the database cannot be opened: {:?}", e))?;
    let mut ix: Vec<String> = all_idents()
        .iter()
        .chain(u.names.iter())
        .filter(|n| !matches!(db.get(VertexWithPropertyPresenceQuery::new(**n)), Err(Error::NotIndexed)))
        .map(|n| n.to_string())
        .collect();
    ix.sort();
    ix.dedup();
    drop(db);
    let d = crate::fault::raw_dump(path).into_iter().filter(|(n, _)| !n.starts_with("metadata")).collect();
    Ok((d, ix))
}

/// a file-changing call in the middle of an operation that makes more than one
fn amid(r: &mut Rng, ops: &[Op], seed: u64, case: u64, how: u64, mode: &str) -> Option<u64> {
    let free = tempfile::tempdir().unwrap();
    let out = Command::new(std::env::current_exe().unwrap())
        .args(["crashchild", free.path().join("db").to_str().unwrap(), &seed.to_string(), &case.to_string(), &how.to_string(), "1000000", "0", mode])
        .stdin(Stdio::null())
        .output()
        .unwrap();
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let at = |p: &str| -> Vec<u64> { text.lines().filter_map(|l| l.strip_prefix(p).and_then(|n| n.parse::<u64>().ok())).collect() };
    let mut used = if mode == "1" { at("open ") } else { vec![0] };
    used.extend(at("used "));
    let long: Vec<(u64, u64)> = used.windows(2).zip(ops).filter(|(w, o)| w[1] >= w[0] + 2 && !matches!(o, Op::Sync | Op::Reopen)).map(|(w, _)| (w[0], w[1])).collect();
    if long.is_empty() {
        return None;
    }
    let (a, b) = *r.pick(&long);
    Some(a + 1 + r.next() % (b - a - 1))
}

/// P10: file writes fail from some call on; operations that return an error
/// must have changed nothing.
pub fn refused(seed: u64, case: u64) -> Result<(bool, String), String> {
    let mut r = Rng(seed ^ case.wrapping_mul(0x3c_91d5));
    let (u, ops) = operations(seed, case);
    let dir = tempfile::tempdir().unwrap();
    let path = dir.path().join("db");
    let how = r.next() % 2;
    let mut left = r.below(ops.len() + 2);
    let half = r.chance(1, 3);
    if r.chance(1, if ops.iter().any(|o| matches!(o, Op::Bulk(v) if v.len() > 60)) { 2 } else { 3 }) {
        if let Some(k) = amid(&mut r, &ops, seed, case, how, "2") {
            left = k as usize;
        }
    }
    let out = Command::new(std::env::current_exe().unwrap())
        .args(["crashchild", path.to_str().unwrap(), &seed.to_string(), &case.to_string(), &how.to_string(), &left.to_string(), if half { "1" } else { "0" }, "2"])
        .stdin(Stdio::null())
        .output()
        .unwrap();
    let mut oks = vec![];
    let mut errs = vec![];
    let mut at = None;
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let w: Vec<&str> = l.splitn(2, ' ').collect();
        match w[0] {
            "ok" => oks.push(w[1].parse::<usize>().unwrap()),
            "err" => errs.push(w[1].parse::<usize>().unwrap()),
            "at" => at = w[1].parse::<usize>().ok(),
            _ => {}
        }
    }
    let mut t = String::new();
    for (i, o) in ops.iter().enumerate() {
        t += &format!("  {}. {}: {}\n", i + 1, if oks.contains(&i) { "ok" } else { "error" }, crate::short(&format!("{:?}", o).chars().take(1000).collect::<String>()));
    }
    t += &format!("file writes fail from the {}. on after opening{}", left + 1, if half { ", which is cut in half" } else { "" });
    if oks.len() + errs.len() < ops.len() {
        return Err(format!("{}\n  -> the process ended in operation {:?}: {:?}", t, at.map(|n| n + 1), out.status));
    }
    let got = held(&path, r.next(), &u).map_err(|e| format!("{}\n  -> {}", t, e))?;
    let ref_dir = tempfile::tempdir().unwrap();
    let ref_path = ref_dir.path().join("db");
    {
        let s = Store::Rocks(open(&ref_path, how).map_err(|e| format!("{:?}", e))?);
        for i in &oks {
            let _ = exec(&s, &ops[*i], &u);
        }
    }
    let exp = held(&ref_path, 0, &u)?;
    if got != exp {
        let show = |h: &Held| -> String { h.0.iter().map(|(n, v)| format!("{}: {}", n, v.len())).collect::<Vec<_>>().join(", ") + &format!(", indexed {:?}", h.1) };
        return Err(format!("{}\n  -> it holds {}, the successful operations alone leave {}", t, show(&got), show(&exp)));
    }
    Ok((!errs.is_empty(), format!("{} operations fail after {} file writes", errs.len(), left)))
}

/// file-changing calls while a new database, and an existing one, is opened
static CREATE: AtomicU64 = AtomicU64::new(150);
static REOPEN: AtomicU64 = AtomicU64::new(60);

pub fn case(seed: u64, case: u64) -> Result<(bool, String), String> {
    let mut r = Rng(seed ^ case.wrapping_mul(0x51_7cc1));
    let (u, ops) = operations(seed, case);
    let dir = tempfile::tempdir().unwrap();
    let path = dir.path().join("db");
    let how = r.next() % 2;
    let mut log = vec![];
    let mut done = 0;
    let mut failed_ops = vec![];
    let mut child = |left: i64, half: bool, with_ops: bool, log: &mut Vec<String>| -> Result<bool, String> {
        let out = Command::new(std::env::current_exe().unwrap())
            .args(["crashchild", path.to_str().unwrap(), &seed.to_string(), &case.to_string(), &how.to_string(), &left.to_string(), if half { "1" } else { "0" }, if with_ops { "1" } else { "0" }])
            .stdin(Stdio::null())
            .output()
            .unwrap();
        let mut opened = false;
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            let w: Vec<&str> = l.splitn(2, ' ').collect();
            match w[0] {
                "open" => {
                    opened = true;
                    let c = w[1].parse::<u64>().unwrap();
                    if with_ops { CREATE.store(c, SeqCst) } else { REOPEN.store(c, SeqCst) }
                }
                "openerr" => return Err(format!("opening the database failed: {}", w[1])),
                "ok" | "err" if w.len() == 2 => {
                    done = w[1].parse::<usize>().unwrap() + 1;
                    if w[0] == "err" {
                        failed_ops.push(done - 1);
                    }
                }
                _ => {}
            }
        }
        log.push(format!("process dies at its file-changing call {}{}: {}", left, if half { ", half way" } else { "" },
            if !opened { "while opening".to_string() } else { format!("after {} operations", done) }));
        Ok(opened)
    };
    let create = CREATE.load(SeqCst);
    let among = if r.chance(1, 3) { amid(&mut r, &ops, seed, case, how, "1") } else { None };
    let left = match r.below(5) {
        _ if among.is_some() => among.unwrap(),
        0 | 1 => r.next() % (create + 1),
        2 | 3 => create + r.next() % (ops.len() as u64 + 2),
        _ => create + r.next() % 200,
    };
    let half = r.chance(1, 3);
    let opened = child(left as i64, half, true, &mut log).map_err(|e| format!("{} (the first time)", e))?;
    let text = |e: String, log: &[String], done: usize| -> String {
        let mut t = String::new();
        for (i, o) in ops.iter().enumerate().take(done + 1) {
            t += &format!("  {}. {}\n", i + 1, crate::short(&format!("{:?}", o).chars().take(3000).collect::<String>()));
        }
        format!("{}{}\n  -> {}", t, log.join("\n"), e)
    };
    let again = r.below(3);
    for _ in 0..again {
        let n = r.next() % (REOPEN.load(SeqCst).max(if opened { 1 } else { create }) + 1);
        let half = r.chance(1, 3);
        let d = log.len();
        if let Err(e) = child(n as i64, half, false, &mut log) {
            let _ = d;
            return Err(text(e, &log, done));
        }
    }
    let got = match held(&path, r.next(), &u) {
        Ok(g) => g,
        Err(e) => return Err(text(e, &log, done)),
    };
    // what the operations leave when nothing happens
    let ref_dir = tempfile::tempdir().unwrap();
    let ref_path = ref_dir.path().join("db");
    let run = |n: usize| -> Result<(), String> {
        let s = Store::Rocks(open(&ref_path, how).map_err(|e| format!("{:?}", e))?);
        for op in &ops[..n] {
            let _ = exec(&s, op, &u);
        }
        Ok(())
    };
    run(done).map_err(|e| text(e, &log, done))?;
    let before = held(&ref_path, 0, &u).map_err(|e| text(e, &log, done))?;
    if got != before {
        if opened && done < ops.len() {
            let s = Store::Rocks(open(&ref_path, how).map_err(|e| format!("{:?}", e))?);
            let _ = exec(&s, &ops[done], &u);
            drop(s);
            let after = held(&ref_path, 0, &u).map_err(|e| text(e, &log, done))?;
            if got == after {
                return Ok((true, log.join("; ")));
            }
        }
        let show = |h: &Held| -> String { h.0.iter().map(|(n, v)| format!("{}: {}", n, v.len())).collect::<Vec<_>>().join(", ") + &format!(", indexed {:?}", h.1) };
        return Err(text(format!("it holds {} -- neither what the {} completed operations leave ({}) nor that with the whole next one", show(&got), done, show(&before)), &log, done));
    }
    Ok((true, log.join("; ")))
}
