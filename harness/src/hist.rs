//! History module: generated operation histories on the real datastores,
//! compared step by step with the reference model.
use crate::gen::*;
use crate::model::*;
use crate::runner::*;
use crate::Outcome;
use serde_json::{json, Value};

/// Which properties a mismatch breaks.
pub fn broken(kind: Kind, x: &Mismatch, ops: &[Op], minimal: bool) -> Vec<&'static str> {
    let mut v = vec![];
    let modifying = !matches!(x.op, "get" | "sync" | "reopen");
    match x.op {
        "get" => {
            if x.aspect == "ret" || x.aspect == "panic" {
                v.push("P01");
                if let Some(Op::Get(q)) = ops.last() {
                    if uses_index(q) {
                        v.push("P06");
                    }
                }
            }
        }
        "create_vertex" | "create_edge" => v.push("P02"),
        "delete_v" | "tx_delete_vertices" => v.push("P03"),
        "delete_e" | "delete_p" | "delete_c" | "tx_delete_edges" | "tx_delete_props" => v.push("P04"),
        "set" | "tx_set" => v.push("P07"),
        "bulk" => v.push("P08"),
        "index" => v.push("P06"),
        "sync" | "reopen" => v.push(if kind == Kind::Rocks { "P13" } else { "P12" }),
        _ => {}
    }
    match x.aspect {
        "vertices" | "edges" | "counts" if x.op == "get" => v.push("P01"),
        "agree" => v.push("P05"),
        "redges" => v.push("P05"),
        "vprops" | "eprops" => v.push("P07"),
        "idx" => v.push("P06"),
        "panic" => v.push("P21"),
        _ => {}
    }
    if minimal && ops.iter().any(|o| matches!(o, Op::Reopen)) {
        match kind {
            Kind::Rocks => v.push("P13"),
            Kind::MemImage => v.push("P12"),
            _ => {}
        }
    }
    if kind == Kind::Rocks && modifying {
        v.push("P10");
        if matches!(x.aspect, "edges" | "redges" | "vprops" | "eprops" | "vertices" | "agree" | "idx") {
            v.push("P09");
        }
    }
    if kind == Kind::Rocks && x.op == "get" {
        v.push("P09");
    }
    v
}

fn uses_index(q: &indradb::Query) -> bool {
    use indradb::Query::*;
    match q {
        VertexWithPropertyPresence(_)
        | VertexWithPropertyValue(_)
        | EdgeWithPropertyPresence(_)
        | EdgeWithPropertyValue(_)
        | PipeWithPropertyPresence(_)
        | PipeWithPropertyValue(_) => true,
        Pipe(p) => uses_index(&p.inner),
        PipeProperty(p) => uses_index(&p.inner),
        Include(p) => uses_index(&p.inner),
        Count(p) => uses_index(&p.inner),
        _ => false,
    }
}

pub struct Conf {
    pub kinds: &'static [Kind],
    pub nops: usize,
    pub orphans: bool,
    pub adversarial: bool,
    // create_v, create_e, get, delete, set, bulk, index, sync, reopen, tx-delete, tx-set, tx-delprop
    pub w: [usize; 12],
}

pub fn conf(prop: &str) -> Conf {
    use Kind::*;
    let c = |kinds, nops, w| Conf { kinds, nops, orphans: false, adversarial: false, w };
    match prop {
        "P01" => c(&[Mem, Mem, Mem, Rocks], 24, [5, 8, 16, 1, 5, 4, 3, 0, 0, 0, 0, 0]),
        "P02" => c(&[Mem, Rocks], 20, [10, 12, 1, 4, 4, 2, 2, 0, 0, 1, 0, 0]),
        "P03" => c(&[Mem, Rocks], 24, [8, 10, 1, 8, 6, 3, 2, 0, 0, 4, 0, 0]),
        "P04" => c(&[Mem, Rocks], 24, [6, 8, 1, 8, 8, 3, 2, 0, 0, 3, 1, 3]),
        "P05" => c(&[Mem, Rocks, MemImage], 24, [8, 12, 1, 8, 2, 6, 0, 1, 1, 3, 0, 0]),
        "P06" => c(&[Mem, Rocks, Rocks], 24, [6, 6, 4, 6, 10, 5, 6, 0, 0, 2, 2, 2]),
        "P07" => c(&[Mem, Rocks], 24, [6, 6, 3, 4, 14, 4, 2, 0, 0, 1, 4, 2]),
        "P08" => c(&[Mem, Rocks, Rocks], 14, [4, 4, 2, 3, 3, 14, 3, 0, 0, 0, 0, 0]),
        "P09" => Conf { adversarial: true, ..c(&[Rocks], 20, [8, 10, 5, 2, 8, 3, 2, 0, 0, 1, 1, 1]) },
        "P10" => c(&[Rocks], 20, [6, 8, 1, 8, 8, 6, 3, 0, 0, 3, 2, 2]),
        "P11" => c(&[Mem, Rocks], 24, [6, 8, 8, 6, 8, 6, 4, 0, 0, 2, 2, 2]),
        "P12" => c(&[MemImage], 24, [6, 8, 2, 4, 8, 6, 3, 5, 5, 0, 1, 0]),
        "P13" => c(&[Rocks], 20, [6, 8, 2, 5, 8, 5, 4, 1, 6, 0, 1, 0]),
        "P21" => Conf { orphans: true, ..c(&[Mem, Mem, Rocks, MemImage], 24, [6, 8, 8, 6, 8, 6, 3, 1, 1, 2, 2, 2]) },
        _ => c(&[Mem, Rocks], 24, [6, 8, 8, 4, 6, 4, 2, 1, 1, 1, 1, 1]),
    }
}

fn setup(prop: &str, seed: u64, case: u64) -> (Kind, Universe, Vec<Op>) {
    let c = conf(prop);
    let kind = c.kinds[(case % c.kinds.len() as u64) as usize];
    let p = Profile { orphans: c.orphans || (case / 7) % 4 == 3 && prop != "P11" && prop != "P08", adversarial: c.adversarial, w: c.w };
    let (u, ops) = gen_case(kind, seed, case, c.nops, &p);
    (kind, u, ops)
}

/// Does this history break the property?  Gives the mismatch.
fn judge(prop: &str, kind: Kind, u: &Universe, ops: &[Op], minimal: bool) -> Option<(usize, Mismatch)> {
    let (k, xs) = run_ops(kind, u, ops)?;
    if prop == "P11" {
        // The datastores disagree when one follows the model and the other does not.
        let other = if kind == Kind::Mem { Kind::Rocks } else { Kind::Mem };
        return match run_ops(other, u, &ops[..=k]) {
            None => xs.into_iter().next().map(|x| (k, x)),
            Some((k2, _)) if k2 < k => None,
            Some((_, ys)) => xs.into_iter().find(|x| !ys.iter().any(|y| y.aspect == x.aspect)).map(|x| (k, x)),
        };
    }
    xs.into_iter().find(|x| broken(kind, x, &ops[..=k], minimal).contains(&prop)).map(|x| (k, x))
}

fn text(kind: Kind, ops: &[Op], x: &Mismatch) -> String {
    let mut t = format!("store {}\n", kind.name());
    for (i, o) in ops.iter().enumerate() {
        t += &format!("  {}. {}\n", i + 1, crate::short(&format!("{:?}", o)));
    }
    t += &format!("  -> {} ({}): {}", x.op, x.aspect, crate::short(&x.detail));
    t
}

pub fn case(prop: &str, seed: u64, case: u64) -> Outcome {
    let (kind, u, ops) = setup(prop, seed, case);
    // Reopen-related properties are decided on the minimal history.
    let lax = |p: &str, k: Kind, u: &Universe, o: &[Op]| -> Option<(usize, Mismatch)> {
        if p == "P12" || p == "P13" {
            run_ops(k, u, o).and_then(|(i, xs)| xs.into_iter().next().map(|x| (i, x)))
        } else {
            judge(p, k, u, o, false)
        }
    };
    match lax(prop, kind, &u, &ops) {
        None => Outcome::ok(
            ops.len() >= 4,
            format!("store {}: {}", kind.name(), ops.iter().map(|o| op_name(o)).collect::<Vec<_>>().join(" ")),
        ),
        Some((k, first)) => {
            let mut keep: Vec<usize> = (0..=k).collect();
            let mut last = first.clone();
            let t0 = std::time::Instant::now();
            let mut chunk = keep.len() / 2;
            while chunk >= 1 && t0.elapsed().as_secs() < 25 {
                let mut i = 0;
                while i < keep.len() {
                    let mut t = keep.clone();
                    t.drain(i..(i + chunk).min(keep.len()));
                    let o: Vec<Op> = t.iter().map(|i| ops[*i].clone()).collect();
                    match lax(prop, kind, &u, &o) {
                        Some((j, x)) if x.op == first.op && x.aspect == first.aspect => {
                            t.truncate(j + 1);
                            keep = t;
                            last = x;
                        }
                        _ => i += chunk,
                    }
                }
                chunk /= 2;
            }
            let o: Vec<Op> = keep.iter().map(|i| ops[*i].clone()).collect();
            if judge(prop, kind, &u, &o, true).is_none() {
                // broken, but another property's business
                return Outcome::ok(false, format!("other property: {}", text(kind, &o, &last)));
            }
            Outcome::fail(text(kind, &o, &last), json!({"keep": keep}))
        }
    }
}

pub fn replay(prop: &str, seed: u64, case: u64, extra: &Value) -> Option<String> {
    let (kind, u, ops) = setup(prop, seed, case);
    let o: Vec<Op> = match extra.get("keep").and_then(|k| k.as_array()) {
        Some(k) => k.iter().map(|i| ops[i.as_u64().unwrap() as usize].clone()).collect(),
        None => ops,
    };
    judge(prop, kind, &u, &o, true).map(|(k, x)| text(kind, &o[..=k], &x))
}
