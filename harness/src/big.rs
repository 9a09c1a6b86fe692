//! Few operations on many items: sizes around powers of two, of 1000 and other
//! thresholds that small histories never reach.
use crate::gen::*;
use crate::hist::{broken, conf};
use crate::model::*;
use crate::runner::*;
use crate::Outcome;
use indradb::*;
use serde_json::Value;
use uuid::Uuid;

const SIZES: [usize; 12] = [9, 17, 33, 65, 101, 129, 200, 257, 300, 513, 1001, 1025];

fn spec_v(ids: Vec<Uuid>) -> Query {
    Query::SpecificVertex(SpecificVertexQuery { ids })
}
fn range(limit: u32, start: Option<Uuid>) -> Query {
    Query::RangeVertex(RangeVertexQuery { limit, t: None, start_id: start })
}
fn pipe(q: Query, d: EdgeDirection, limit: u32) -> Query {
    Query::Pipe(PipeQuery { inner: Box::new(q), direction: d, limit, t: None })
}
fn props(q: Query, name: Option<Identifier>) -> Query {
    Query::PipeProperty(PipePropertyQuery { inner: Box::new(q), name })
}

/// a query yielding vertices or edges, many of them
fn many(r: &mut Rng, n: usize, ids: &[Uuid], es: &[Edge], names: &[Identifier]) -> Query {
    let lim = match r.below(5) {
        4 => near(r, u32::MAX as u64).map_or(n as u32 + 1, |k| k as u32),
        0 => u32::MAX,
        1 => n as u32,
        2 => n as u32 - 1,
        _ => 1 + r.below(n) as u32,
    };
    let c = *r.pick(&ids[..ids.len().min(3)]);
    let d = if r.chance(1, 2) { EdgeDirection::Outbound } else { EdgeDirection::Inbound };
    let name = *r.pick(names);
    match r.below(11) {
        0 => Query::AllVertex,
        1 => Query::AllEdge,
        2 => range(lim, if r.chance(1, 2) { Some(*r.pick(ids)) } else { None }),
        3 => spec_v(ids.iter().rev().step_by(1 + r.below(2)).cloned().collect()),
        4 => Query::SpecificEdge(SpecificEdgeQuery { edges: es.iter().rev().step_by(1 + r.below(2)).cloned().collect() }),
        5 => pipe(spec_v(vec![c]), d, lim),
        6 => pipe(pipe(spec_v(vec![c]), d, lim), EdgeDirection::Inbound, lim),
        7 => pipe(Query::AllVertex, d, lim),
        8 => pipe(Query::AllEdge, d, lim),
        9 => Query::PipeWithPropertyPresence(PipeWithPropertyPresenceQuery { inner: Box::new(Query::AllVertex), name, exists: r.chance(1, 2) }),
        _ => Query::VertexWithPropertyPresence(VertexWithPropertyPresenceQuery { name }),
    }
}

fn observers(u: &Universe, ids: &[Uuid]) -> Vec<(&'static str, Query)> {
    let mut v = vec![
        ("vertices", Query::AllVertex),
        ("edges", Query::AllEdge),
        ("counts", Query::Count(CountQuery { inner: Box::new(Query::AllVertex) })),
        ("counts", Query::Count(CountQuery { inner: Box::new(Query::AllEdge) })),
        ("redges", pipe(Query::AllVertex, EdgeDirection::Inbound, u32::MAX)),
        ("agree", pipe(Query::AllVertex, EdgeDirection::Outbound, u32::MAX)),
        ("vprops", props(Query::AllVertex, None)),
        ("eprops", props(Query::AllEdge, None)),
        ("redges", pipe(spec_v(ids[..3].to_vec()), EdgeDirection::Inbound, u32::MAX)),
    ];
    for n in &u.names {
        v.push(("idx", Query::VertexWithPropertyPresence(VertexWithPropertyPresenceQuery { name: *n })));
        v.push(("idx", Query::EdgeWithPropertyPresence(EdgeWithPropertyPresenceQuery { name: *n })));
        for j in &u.values {
            v.push(("idx", Query::VertexWithPropertyValue(VertexWithPropertyValueQuery { name: *n, value: j.clone() })));
            v.push(("idx", Query::EdgeWithPropertyValue(EdgeWithPropertyValueQuery { name: *n, value: j.clone() })));
        }
    }
    v
}

fn brief(q: &impl std::fmt::Debug) -> String {
    let s = format!("{:?}", q);
    if s.chars().count() > 300 {
        format!("{}... ({} characters)", s.chars().take(300).collect::<String>(), s.len())
    } else {
        s
    }
}

pub fn case(prop: &str, seed: u64, case: u64) -> Outcome {
    let c = conf(prop);
    let kind = c.kinds[(case % c.kinds.len() as u64) as usize];
    let mut r = Rng(seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ case.wrapping_mul(0xA24B_AED4_963E_E407));
    let mut u = Universe::new(&mut r);
    u.values.truncate(2);
    if case >= 4 * dict().ints.len() as u64 && case % 5 == 4 {
        return names(prop, kind, &|i| c.w[i] > 0, r, u);
    }
    let cap = if kind == Kind::Rocks && r.chance(3, 4) { 9 } else { 12 };
    let n = *r.pick(&SIZES[..cap]);
    let most = match r.below(8) {
        0 => 12000,
        1 if kind != Kind::Rocks => 70_000,
        _ => 3000,
    };
    let n = near(&mut r, most).map_or(n, |k| (k as usize).max(3));
    // the first cases go past each number of the dictionary
    let bounds: Vec<usize> = dict().ints.iter().filter(|k| **k <= 70_000).map(|k| (*k as usize).max(3)).collect();
    let edge = (case / 4 < bounds.len() as u64).then(|| bounds[(case / 4) as usize]);
    let n = edge.map_or(n, |k| k + 2);
    let kind = match edge {
        Some(_) => c.kinds[if case / 2 % 2 == 0 { 0 } else { c.kinds.len() - 1 }],
        None => kind,
    };
    let kind = if n > 12_000 && c.kinds.contains(&Kind::Mem) { Kind::Mem } else { kind };
    let large = n > 4_000;
    // few vertices with many properties
    let wide = edge.is_none() && r.chance(1, 5);
    let (n, width) = if wide { (5, n) } else { (n, 0) };
    let spread = r.chance(1, 2);
    let mut ids: Vec<Uuid> = (0..n as u128).map(|i| Uuid::from_u128(if spread { i << 104 | 7 } else { i + 1 })).collect();
    // the centre comes first, last or in the middle
    let k = *r.pick(&[0, n / 2, n - 1]);
    ids.swap(0, k);
    let t = u.types[0];
    let (hub, single) = (ids[0], edge.is_none() && r.chance(1, 3));
    let mut es = vec![];
    for (i, id) in ids.iter().enumerate() {
        let t = *r.pick(&u.types);
        if !single || i % 2 == 0 {
            es.push(Edge::new(hub, t, *id));
        }
        if !single && (edge.is_some() || i % 3 == 0) {
            es.push(Edge::new(*id, t, hub));
        }
    }
    let mut ops = vec![];
    let pre = r.chance(1, 2);
    if pre {
        ops.push(Op::Index(u.names[0]));
    }
    let mut items: Vec<BulkInsertItem> = ids.iter().map(|i| BulkInsertItem::Vertex(Vertex::with_id(*i, t))).collect();
    items.extend(es.iter().cloned().map(BulkInsertItem::Edge));
    // a value of its own for each, or few values
    let distinct = r.chance(1, 3);
    for (k, i) in ids.iter().enumerate() {
        if distinct && !large {
            items.push(BulkInsertItem::VertexProperty(*i, u.names[0], ijson!(k as u64)));
        } else if !large && r.chance(3, 4) {
            items.push(BulkInsertItem::VertexProperty(*i, *r.pick(&u.names), r.pick(&u.values).clone()));
        }
    }
    for (k, e) in es.iter().enumerate() {
        if distinct && !large {
            items.push(BulkInsertItem::EdgeProperty(e.clone(), u.names[0], ijson!(format!("{}", k / 2))));
        } else if !large && r.chance(3, 4) {
            items.push(BulkInsertItem::EdgeProperty(e.clone(), *r.pick(&u.names), r.pick(&u.values).clone()));
        }
    }
    for i in 0..width {
        let name = ident(&format!("p{}", i));
        items.push(BulkInsertItem::VertexProperty(hub, name, r.pick(&u.values).clone()));
        if let Some(e) = es.first() {
            items.push(BulkInsertItem::EdgeProperty(e.clone(), name, r.pick(&u.values).clone()));
        }
    }
    ops.push(Op::Bulk(items));
    if !pre && r.chance(2, 3) {
        ops.push(Op::Index(u.names[0]));
    }
    if let Some(k) = edge {
        let k = k as u32;
        for limit in [k + 1, n as u32 + 1, u32::MAX] {
            ops.push(Op::Get(pipe(spec_v(vec![hub]), EdgeDirection::Outbound, limit)));
            ops.push(Op::Get(range(limit, None)));
        }
        ops.push(Op::Get(Query::Count(CountQuery { inner: Box::new(pipe(spec_v(vec![hub]), EdgeDirection::Outbound, u32::MAX)) })));
        ops.push(Op::Get(spec_v(ids.clone())));
        ops.push(Op::Get(pipe(spec_v(ids.clone()), EdgeDirection::Inbound, u32::MAX)));
        // and then one operation on that many items
        let (name, value) = (u.names[0], u.values[0].clone());
        let out = pipe(spec_v(vec![hub]), EdgeDirection::Outbound, u32::MAX);
        let may = |i: usize| c.w[i] > 0;
        ops.push(match case % 2 {
            _ if may(6) && r.chance(1, 3) => Op::Index(name),
            0 if may(3) => Op::Delete(if prop == "P04" || prop == "P05" { out } else { spec_v(vec![hub]) }),
            _ if may(4) => Op::SetProps(if r.chance(1, 2) { out } else { spec_v(ids.clone()) }, name, value),
            _ => Op::Get(out),
        });
    }
    let total: usize = c.w.iter().sum();
    for _ in 0..3 {
        let q = many(&mut r, n, &ids, &es, &u.names);
        // the memory datastore deletes in the square of what it stores
        let few = spec_v(ids.iter().take(20).cloned().collect());
        let name = *r.pick(&u.names);
        let value = r.pick(&u.values).clone();
        let mut k = r.below(total);
        let mut i = 0;
        while k >= c.w[i] {
            k -= c.w[i];
            i += 1;
        }
        ops.push(match i {
            3 | 9 | 11 if large => Op::Delete(few),
            3 | 9 | 11 => {
                if r.chance(1, 3) {
                    Op::Delete(props(q, if r.chance(1, 2) { Some(name) } else { None }))
                } else {
                    Op::Delete(q)
                }
            }
            4 | 10 => Op::SetProps(q, name, value),
            5 => Op::Bulk(
                ids.iter().rev().map(|i| BulkInsertItem::VertexProperty(*i, name, value.clone())).collect(),
            ),
            6 => Op::Index(name),
            7 => Op::Sync,
            8 => Op::Reopen,
            _ => match r.below(4) {
                0 => Op::Get(Query::Count(CountQuery { inner: Box::new(q) })),
                1 => Op::Get(props(q, None)),
                _ => Op::Get(q),
            },
        });
    }
    let log = format!("store {}, {} vertices, {} edges", kind.name(), n, es.len());
    // the answers asked for come first: what observes the other properties could be wrong for the same reason
    let quiet = if edge.is_some() && prop == "P01" { ops.len() - 4 } else { 0 };
    let mut obs = observers(&u, &ids);
    if distinct {
        for k in [0, 1, n / 2, n - 1] {
            obs.push(("idx", Query::VertexWithPropertyValue(VertexWithPropertyValueQuery { name: u.names[0], value: ijson!(k as u64) })));
            obs.push(("idx", Query::EdgeWithPropertyValue(EdgeWithPropertyValueQuery { name: u.names[0], value: ijson!(format!("{}", k / 2)) })));
        }
    }
    if large {
        // RocksDB passes all that was deleted in every scan
        obs.retain(|(_, q)| !matches!(q, Query::Pipe(p) if matches!(*p.inner, Query::AllVertex)));
    }
    go(prop, kind, &u, ops, log, quiet, Some(hub), obs)
}

/// Many names, all of them indexed
fn names(prop: &str, kind: Kind, may: &dyn Fn(usize) -> bool, mut r: Rng, mut u: Universe) -> Outcome {
    u.values.truncate(2);
    let n = near(&mut r, 400).map_or(*r.pick(&[9, 17, 33, 65, 101, 129, 257, 300]), |k| (k as usize).max(3));
    let mut all: Vec<Identifier> = (0..n).map(|i| ident(&format!("p{}", i))).collect();
    for s in [String::new(), "a".repeat(255), "a".into(), "_".into()] {
        let at = r.below(all.len());
        all.insert(at, ident(&s));
    }
    let t = u.types[0];
    let ids: Vec<Uuid> = (1..4u128).map(Uuid::from_u128).collect();
    let es = vec![Edge::new(ids[0], t, ids[1]), Edge::new(ids[1], t, ids[1])];
    let mut items: Vec<BulkInsertItem> = ids.iter().map(|i| BulkInsertItem::Vertex(Vertex::with_id(*i, t))).collect();
    items.extend(es.iter().cloned().map(BulkInsertItem::Edge));
    let late = r.chance(1, 3);
    let mut ops = vec![];
    if late {
        ops.extend(all.iter().map(|x| Op::Index(*x)));
    }
    for x in &all {
        if r.chance(3, 4) {
            items.push(BulkInsertItem::VertexProperty(*r.pick(&ids), *x, r.pick(&u.values).clone()));
        }
        if r.chance(1, 2) {
            items.push(BulkInsertItem::EdgeProperty(r.pick(&es).clone(), *x, r.pick(&u.values).clone()));
        }
    }
    let at = r.below(ops.len() + 1);
    ops.insert(at, Op::Bulk(items));
    if !late {
        ops.extend(all.iter().map(|x| Op::Index(*x)));
    }
    if prop == "P12" || prop == "P13" {
        ops.push(Op::Sync);
        ops.push(Op::Reopen);
    }
    let quiet = ops.len() - 1;
    for _ in 0..3 {
        let x = *r.pick(&all[..all.len().min(20)]);
        let one = spec_v(vec![*r.pick(&ids)]);
        ops.push(match r.below(4) {
            0 if may(8) => Op::Reopen,
            1 if may(3) => Op::Delete(if r.chance(1, 2) { props(one, Some(x)) } else { one }),
            2 if may(6) => Op::Index(x),
            _ => Op::SetProps(one, x, r.pick(&u.values).clone()),
        });
    }
    let mut obs = vec![("vertices", Query::AllVertex), ("vprops", props(Query::AllVertex, None)), ("eprops", props(Query::AllEdge, None))];
    for x in &all {
        obs.push(("idx", Query::VertexWithPropertyPresence(VertexWithPropertyPresenceQuery { name: *x })));
        obs.push(("idx", Query::EdgeWithPropertyPresence(EdgeWithPropertyPresenceQuery { name: *x })));
        obs.push(("idx", Query::VertexWithPropertyValue(VertexWithPropertyValueQuery { name: *x, value: u.values[0].clone() })));
    }
    let log = format!("store {}, {} indexed names", kind.name(), all.len());
    go(prop, kind, &u, ops, log, quiet, Some(ids[0]), obs)
}

/// runs the operations, asks the queries after each from the `quiet`th on
fn go(prop: &str, kind: Kind, u: &Universe, ops: Vec<Op>, mut log: String, quiet: usize, hub: Option<Uuid>, obs: Vec<(&'static str, Query)>) -> Outcome {
    let sample = format!("{}: {}", log, ops.iter().rev().take(6).rev().map(|o| op_name(o)).collect::<Vec<_>>().join(" "));
    let mut ctx = Ctx::new(kind, u);
    let mut m = Model::new(kind.order());
    for i in 0..ops.len() {
        let op = &ops[i];
        if ops.len() < 40 || i >= quiet {
            log += &format!("\n  {}. {}", i + 1, crate::short(&brief(op)));
        }
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> std::result::Result<(), Mismatch> {
            apply_big(&mut ctx, &mut m, op, u)?;
            if i < quiet || matches!(op, Op::Bulk(_) if hub.map_or(false, |h| !m.vertices.contains_key(&h))) {
                return Ok(());
            }
            for (aspect, q) in &obs {
                let got = get(&ctx, q);
                let exp = m.eval(q);
                let ok = match (&got, &exp) {
                    (Ok(a), Ok(b)) => same_out(a, b, ordered(q)),
                    (Err(a), Err(b)) => a == b,
                    _ => false,
                };
                if !ok {
                    return Err(Mismatch { op: op_name(op), aspect, detail: format!("{} gives {}, expected {}", brief(q), brief(&got), brief(&exp)) });
                }
            }
            Ok(())
        }));
        let x = match res {
            Ok(Ok(())) => continue,
            Ok(Err(x)) => x,
            Err(p) => Mismatch { op: op_name(op), aspect: "panic", detail: format!("panicked: {}", panic_text(p)) },
        };
        if prop != "P11" && !broken(kind, &x, &ops[..=i], false).contains(&prop) {
            return Outcome::ok(false, format!("other property: {}", x.detail));
        }
        return Outcome::fail(format!("{}\n  -> {} ({}): {}", log, x.op, x.aspect, crate::short(&x.detail)), Value::Null);
    }
    Outcome::ok(true, sample)
}
