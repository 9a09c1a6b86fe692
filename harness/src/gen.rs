//! Seeded, directed generation of operation histories over a small universe
//! chosen to contain the boundary cases (nil / max / adjacent UUIDs, empty,
//! nested-prefix and 255-byte identifiers, JSON values whose hashes or numeric
//! values collide).
use crate::model::*;
use indradb::*;
use uuid::Uuid;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
}

/// Literals that /repo's sources have and its recorded state did not: sizes
/// and texts worth trying.
#[derive(Default, Clone, Debug)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<String>,
}
static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
pub fn set_dict(v: &serde_json::Value) {
    let ints = v["ints"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
    let strs = v["strs"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default();
    // the child processes of a case generate the same operations
    std::env::set_var("VH_DICT", v.to_string());
    let _ = DICT.set(Dict { ints, strs });
}
pub fn dict() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}
/// a number near one of the dictionary's, at most `max`
pub fn near(r: &mut Rng, max: u64) -> Option<u64> {
    let d: Vec<u64> = dict().ints.iter().cloned().filter(|n| *n <= max.saturating_add(1)).collect();
    if d.is_empty() || r.chance(1, 2) {
        return None;
    }
    let n = *r.pick(&d);
    let n = match r.below(8) {
        0 => n,
        1 => n.saturating_sub(1),
        2 | 3 => n.saturating_mul(2).saturating_add(r.below(2) as u64),
        _ => n.saturating_add(1),
    };
    if n <= max {
        Some(n)
    } else {
        None
    }
}
/// how many: below `n`, or a number of the dictionary
pub fn count(r: &mut Rng, n: usize, max: usize) -> usize {
    match if dict().ints.is_empty() || r.chance(1, 2) { None } else { near(r, max as u64) } {
        Some(k) => k as usize,
        None => r.below(n),
    }
}
/// a text of the dictionary, or one as long as its numbers
pub fn text(r: &mut Rng, max: usize) -> Option<String> {
    let d = dict();
    if !d.strs.is_empty() && r.chance(1, 2) {
        return Some(r.pick(&d.strs).clone());
    }
    let n = near(r, max as u64)? as usize;
    let c = *r.pick(&["a", "k", "é", "7"]);
    let mut s = c.repeat(n / c.len());
    while s.len() < n {
        s.push('b');
    }
    Some(s)
}

pub struct Universe {
    pub ids: Vec<Uuid>,
    pub types: Vec<Identifier>,
    pub names: Vec<Identifier>,
    pub values: Vec<Json>,
    /// the edges stored when the next operation is generated
    pub live: std::cell::RefCell<Vec<Edge>>,
}

/// `n` items, some of them repeated
fn list<T: Clone>(r: &mut Rng, n: usize, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let mut v: Vec<T> = vec![];
    for _ in 0..n {
        let x = if !v.is_empty() && r.chance(1, 4) { r.pick(&v).clone() } else { f(r) };
        v.push(x);
    }
    v
}

fn unique<T: PartialEq>(v: &mut Vec<T>) {
    let mut i = 0;
    while i < v.len() {
        if v[..i].contains(&v[i]) {
            v.remove(i);
        } else {
            i += 1;
        }
    }
}

pub fn ident(s: &str) -> Identifier {
    Identifier::new(s).unwrap()
}

pub fn all_ids() -> Vec<Uuid> {
    vec![
        Uuid::from_u128(0),
        Uuid::from_u128(1),
        Uuid::from_u128(0xff),
        Uuid::from_u128(0x100),
        Uuid::from_u128(0x00000000_00000000_00000000_61000000),
        Uuid::from_u128(0x0161_6161_6161_6161_6161_6161_6161_6161),
        Uuid::from_u128(0x6161_6161_6161_6161_6161_6161_6161_6161),
        Uuid::from_u128(u128::MAX - 1),
        Uuid::from_u128(u128::MAX),
        Uuid::from_u128(0xfeff_ffff_ffff_ffff_ffff_ffff_ffff_ffff),
        Uuid::from_u128(0xff00_0000_0000_0000_0000_0000_0000_0000),
    ]
}

pub fn all_idents() -> Vec<Identifier> {
    let long = "z".repeat(255);
    let long2 = format!("{}y", "z".repeat(254));
    vec![
        ident("a"),
        ident("a-"),
        ident("aa"),
        ident("ab"),
        ident("b"),
        ident(""),
        ident("aaa"),
        ident("é"),
        ident("-_"),
        ident(&long),
        ident(&long2),
        ident(&"a".repeat(16)),
        ident(&"a".repeat(97)),
        ident(&"k".repeat(127)),
        ident(&"k".repeat(128)),
        ident(&"k".repeat(129)),
        ident(&"é".repeat(127)),
        ident("A"),
        ident("0"),
    ]
}

pub fn all_values() -> Vec<Json> {
    let n = |x: serde_json::Number| Json::new(serde_json::Value::Number(x));
    vec![
        ijson!(null),
        ijson!(true),
        ijson!(false),
        ijson!(1),
        ijson!(1.0),
        ijson!(4607182418800017408i64), // bits of 1.0
        ijson!(3),
        ijson!(3.0),
        ijson!(0),
        ijson!(0.0),
        ijson!(-0.0),
        n(serde_json::Number::from(1u64 << 63)),
        n(serde_json::Number::from(i64::MIN)),
        n(serde_json::Number::from(u64::MAX)),
        ijson!(-1),
        ijson!(9007199254740992i64),
        ijson!(9007199254740993i64),
        ijson!(9007199254740992.0),
        ijson!("a"),
        ijson!(""),
        ijson!("1"),
        ijson!("null"),
        ijson!("a\"\\"),
        ijson!(0.1),
        ijson!(1e300),
        ijson!(-1.5),
        ijson!([1, 2, 3, 4, 5, 6, 7, 8]),
        ijson!([]),
        ijson!([[1], 2]),
        ijson!([[1, 2]]),
        ijson!([1, 2]),
        ijson!({}),
        ijson!({"a": 1}),
        ijson!({"a": 1.0}),
        ijson!({"a": {}, "b": 1}),
        ijson!({"a": {"b": 1}}),
        ijson!([null]),
        ijson!({"é\u{1F600}\n": ["\u{0}"]}),
    ]
}

impl Universe {
    pub fn new(r: &mut Rng) -> Universe {
        fn sub<T: Clone>(r: &mut Rng, all: &[T], n: usize) -> Vec<T> {
            let mut v: Vec<T> = vec![];
            let start = r.below(all.len());
            let mut idx: Vec<usize> = (0..all.len()).collect();
            for i in (1..idx.len()).rev() {
                let j = r.below(i + 1);
                idx.swap(i, j);
            }
            // half of the time a contiguous (thus colliding / adjacent) run
            if r.chance(1, 2) {
                for k in 0..n {
                    v.push(all[(start + k) % all.len()].clone());
                }
            } else {
                for k in idx.into_iter().take(n) {
                    v.push(all[k].clone());
                }
            }
            v
        }
        let nid = 2 + r.below(4);
        let nt = 1 + r.below(3);
        let nn = 1 + r.below(3);
        let nv = 1 + r.below(5);
        let mut u = Universe {
            ids: sub(r, &all_ids(), nid),
            types: sub(r, &all_idents(), nt),
            names: sub(r, &all_idents(), nn),
            values: sub(r, &all_values(), nv),
            live: Default::default(),
        };
        if !(dict().ints.is_empty() && dict().strs.is_empty()) && r.chance(1, 2) {
            if let Some(i) = text(r, 255).and_then(|s| Identifier::new(s).ok()) {
                u.names.push(i);
            }
            if let Some(i) = text(r, 255).and_then(|s| Identifier::new(s).ok()) {
                u.types.push(i);
            }
            if let Some(s) = text(r, 3000) {
                u.values.push(if r.chance(1, 3) { ijson!({ s: 1 }) } else { ijson!(s) });
            }
            if let Some(n) = near(r, u64::MAX) {
                u.values.push(match r.below(4) {
                    0 => ijson!(n.min(1 << 53) as f64),
                    1 => ijson!(-(n as i128).min(1 << 62) as i64),
                    _ => ijson!(n),
                });
                let n = n as u128;
                u.ids.push(Uuid::from_u128(match r.below(3) {
                    0 => n,
                    1 => n.wrapping_shl(120),
                    _ => n.wrapping_mul(0x0101_0101_0101_0101_0101_0101_0101_0101),
                }));
            }
            if let Some(n) = near(r, 300) {
                u.values.push(Json::new(serde_json::Value::Array(vec![serde_json::Value::from(7); n as usize])));
            }
            if let Some(n) = near(r, 60) {
                let mut v = serde_json::Value::from(1);
                for _ in 0..n {
                    v = serde_json::Value::Array(vec![v]);
                }
                u.values.push(Json::new(v));
            }
            u.ids.sort();
            unique(&mut u.ids);
            unique(&mut u.names);
            unique(&mut u.types);
            unique(&mut u.values);
        }
        u
    }
    pub fn edge(&self, r: &mut Rng) -> Edge {
        if r.chance(1, 3) {
            let l = self.live.borrow();
            if !l.is_empty() {
                return r.pick(&l).clone();
            }
        }
        Edge::new(*r.pick(&self.ids), *r.pick(&self.types), *r.pick(&self.ids))
    }
    pub fn edges(&self) -> Vec<Edge> {
        let mut v = vec![];
        for o in &self.ids {
            for t in &self.types {
                for i in &self.ids {
                    v.push(Edge::new(*o, *t, *i));
                }
            }
        }
        v
    }
}

pub fn ordered(q: &Query) -> bool {
    match q {
        Query::VertexWithPropertyPresence(_)
        | Query::VertexWithPropertyValue(_)
        | Query::EdgeWithPropertyPresence(_)
        | Query::EdgeWithPropertyValue(_) => false,
        Query::Pipe(p) => ordered(&p.inner),
        Query::PipeProperty(p) => ordered(&p.inner),
        Query::PipeWithPropertyPresence(p) => ordered(&p.inner),
        Query::PipeWithPropertyValue(p) => ordered(&p.inner),
        Query::Include(p) => ordered(&p.inner),
        Query::Count(p) => ordered(&p.inner),
        _ => true,
    }
}

fn limit(r: &mut Rng) -> u32 {
    if let Some(n) = near(r, u32::MAX as u64) {
        return n as u32;
    }
    match r.below(10) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => *r.pick(&[4, 5, 8, 10, 16, 100, 255, 256, 257, 1000, 65535, 65536, 65537, 1 << 24, i32::MAX as u32, 1 << 31, u32::MAX - 1]),
        _ => u32::MAX,
    }
}

/// `v`: want a vertex-valued (true) or edge-valued (false) query.
pub fn gen_query(r: &mut Rng, u: &Universe, v: bool, depth: usize) -> Query {
    let k = if depth == 0 { r.below(4) } else { r.below(12) };
    let name = *r.pick(&u.names);
    let value = r.pick(&u.values).clone();
    match k {
        0 => {
            if v {
                Query::AllVertex
            } else {
                Query::AllEdge
            }
        }
        1 | 2 => {
            if v {
                if r.chance(1, 2) {
                    Query::RangeVertex(RangeVertexQuery {
                        limit: limit(r),
                        t: if r.chance(1, 3) { Some(*r.pick(&u.types)) } else { None },
                        start_id: if r.chance(1, 2) { Some(*r.pick(&u.ids)) } else { None },
                    })
                } else {
                    let n = count(r, 4, 70);
                    Query::SpecificVertex(SpecificVertexQuery { ids: list(r, n, |r| *r.pick(&u.ids)) })
                }
            } else {
                let n = count(r, 4, 70).max(1);
                Query::SpecificEdge(SpecificEdgeQuery { edges: list(r, n, |r| u.edge(r)) })
            }
        }
        3 => match (v, r.chance(1, 2)) {
            (true, true) => Query::VertexWithPropertyPresence(VertexWithPropertyPresenceQuery { name }),
            (true, false) => Query::VertexWithPropertyValue(VertexWithPropertyValueQuery { name, value }),
            (false, true) => Query::EdgeWithPropertyPresence(EdgeWithPropertyPresenceQuery { name }),
            (false, false) => Query::EdgeWithPropertyValue(EdgeWithPropertyValueQuery { name, value }),
        },
        4..=7 => {
            let inner = gen_query(r, u, !v, depth - 1);
            let l = if ordered(&inner) { limit(r) } else { u32::MAX };
            Query::Pipe(PipeQuery {
                inner: Box::new(inner),
                direction: if r.chance(1, 2) { EdgeDirection::Outbound } else { EdgeDirection::Inbound },
                limit: l,
                t: if r.chance(1, 3) { Some(*r.pick(&u.types)) } else { None },
            })
        }
        8 => Query::PipeWithPropertyPresence(PipeWithPropertyPresenceQuery {
            inner: Box::new(gen_query(r, u, v, depth - 1)),
            name,
            exists: r.chance(1, 2),
        }),
        9 => Query::PipeWithPropertyValue(PipeWithPropertyValueQuery {
            inner: Box::new(gen_query(r, u, v, depth - 1)),
            name,
            value,
            equal: r.chance(1, 2),
        }),
        _ => Query::Include(IncludeQuery { inner: Box::new(gen_query(r, u, v, depth - 1)) }),
    }
}

pub fn gen_any_query(r: &mut Rng, u: &Universe) -> Query {
    let v = r.chance(1, 2);
    let d = count(r, 4, 12);
    let q = gen_query(r, u, v, d);
    match r.below(10) {
        0 | 1 => Query::PipeProperty(PipePropertyQuery {
            inner: Box::new(q),
            name: if r.chance(1, 2) { Some(*r.pick(&u.names)) } else { None },
        }),
        2 | 3 => Query::Count(CountQuery { inner: Box::new(q) }),
        4 => Query::Count(CountQuery {
            inner: Box::new(Query::PipeProperty(PipePropertyQuery { inner: Box::new(q), name: None })),
        }),
        5 => {
            // ill-typed nestings (only constructible through public fields)
            let bad = match r.below(3) {
                0 => Query::Count(CountQuery { inner: Box::new(q) }),
                1 => Query::PipeProperty(PipePropertyQuery { inner: Box::new(q), name: None }),
                _ => Query::Include(IncludeQuery { inner: Box::new(Query::Count(CountQuery { inner: Box::new(q) })) }),
            };
            let name = *r.pick(&u.names);
            match r.below(5) {
                0 => Query::Pipe(PipeQuery {
                    inner: Box::new(bad),
                    direction: EdgeDirection::Outbound,
                    limit: u32::MAX,
                    t: None,
                }),
                1 => Query::PipeProperty(PipePropertyQuery { inner: Box::new(bad), name: None }),
                2 => Query::PipeWithPropertyPresence(PipeWithPropertyPresenceQuery {
                    inner: Box::new(bad),
                    name,
                    exists: true,
                }),
                3 => Query::PipeWithPropertyValue(PipeWithPropertyValueQuery {
                    inner: Box::new(bad),
                    name,
                    value: r.pick(&u.values).clone(),
                    equal: true,
                }),
                _ => Query::Include(IncludeQuery { inner: Box::new(bad) }),
            }
        }
        _ => q,
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Profile {
    pub orphans: bool,
    pub adversarial: bool,
    pub w: [usize; 12],
    // create_v, create_e, get, delete, set, bulk, index, sync, reopen, tx-delete, tx-set, tx-delprop
}

/// a bulk insert of many items around one vertex
pub fn crowd(r: &mut Rng, u: &Universe, n: usize) -> Op {
    let n = near(r, 3000).map_or(n, |k| k as usize);
    // a number of the dictionary as the size of what is written, in bytes
    let sizes: Vec<u64> = dict().ints.iter().cloned().filter(|k| (1_000..200_000).contains(k)).collect();
    let n = if !sizes.is_empty() && r.chance(1, 2) { (*r.pick(&sizes) as usize / (20 + r.below(60))) * (1 + r.below(2)) } else { n };
    let many = r.chance(1, 2);
    crowded(r, u, n, many)
}
pub fn crowded(r: &mut Rng, u: &Universe, n: usize, many: bool) -> Op {
    let hub = u.ids[0];
    let mut items = vec![BulkInsertItem::Vertex(Vertex::with_id(hub, u.types[0]))];
    for i in 0..n as u128 {
        let id = Uuid::from_u128(if many { (7 << 100) + i } else { (7 << 100) + i % 3 });
        let e = if i % 3 == 0 { Edge::new(id, u.types[0], hub) } else { Edge::new(hub, u.types[0], id) };
        items.push(BulkInsertItem::Vertex(Vertex::with_id(id, u.types[0])));
        items.push(BulkInsertItem::Edge(e.clone()));
        let name = *r.pick(&u.names);
        items.push(match i % 4 {
            0 | 1 => BulkInsertItem::VertexProperty(id, name, r.pick(&u.values).clone()),
            _ => BulkInsertItem::EdgeProperty(e, name, r.pick(&u.values).clone()),
        });
    }
    Op::Bulk(items)
}
/// one operation on everything stored, or on all of one vertex
pub fn sweep(r: &mut Rng, u: &Universe) -> Op {
    let name = *r.pick(&u.names);
    let q = match r.below(5) {
        0 => Query::AllVertex,
        1 | 2 => Query::AllEdge,
        _ => Query::SpecificVertex(SpecificVertexQuery { ids: vec![u.ids[0]] }),
    };
    match r.below(4) {
        0 => Op::SetProps(q, name, r.pick(&u.values).clone()),
        1 => Op::Delete(Query::PipeProperty(PipePropertyQuery { inner: Box::new(q), name: if r.chance(1, 2) { Some(name) } else { None } })),
        2 => Op::Index(name),
        _ => Op::Delete(q),
    }
}

pub fn gen_op(r: &mut Rng, u: &Universe, m: &Model, p: &Profile) -> Op {
    let total: usize = p.w.iter().sum();
    let mut k = r.below(total);
    let mut i = 0;
    while k >= p.w[i] {
        k -= p.w[i];
        i += 1;
    }
    let name = *r.pick(&u.names);
    let value = r.pick(&u.values).clone();
    match i {
        0 => Op::CreateVertex(*r.pick(&u.ids), *r.pick(&u.types)),
        1 => Op::CreateEdge(u.edge(r)),
        2 => Op::Get(gen_any_query(r, u)),
        3 => {
            if r.chance(1, 3) {
                Op::Delete(match r.below(4) {
                    0 => Query::SpecificVertex(SpecificVertexQuery { ids: vec![*r.pick(&u.ids)] }),
                    1 => Query::SpecificEdge(SpecificEdgeQuery { edges: vec![u.edge(r)] }),
                    2 => Query::PipeProperty(PipePropertyQuery {
                        inner: Box::new(Query::AllVertex),
                        name: Some(name),
                    }),
                    _ => Query::PipeProperty(PipePropertyQuery { inner: Box::new(Query::AllEdge), name: Some(name) }),
                })
            } else {
                Op::Delete(gen_any_query(r, u))
            }
        }
        4 => {
            if r.chance(1, 2) {
                let q = if r.chance(1, 2) {
                    Query::SpecificVertex(SpecificVertexQuery { ids: list(r, 2, |r| *r.pick(&u.ids)) })
                } else if r.chance(1, 2) {
                    Query::SpecificEdge(SpecificEdgeQuery { edges: list(r, 2, |r| u.edge(r)) })
                } else {
                    Query::AllEdge
                };
                Op::SetProps(q, name, value)
            } else {
                Op::SetProps(gen_any_query(r, u), name, value)
            }
        }
        5 => {
            let n = count(r, 7, 70);
            let mut items = vec![];
            let mut vs = m.vertices.clone();
            let mut es = m.edges.clone();
            for _ in 0..n {
                match r.below(6) {
                    0 | 1 => {
                        let id = *r.pick(&u.ids);
                        let t = *vs.get(&id).unwrap_or(r.pick(&u.types));
                        vs.insert(id, t);
                        items.push(BulkInsertItem::Vertex(Vertex::with_id(id, t)));
                    }
                    2 => {
                        let e = u.edge(r);
                        if p.orphans || (vs.contains_key(&e.outbound_id) && vs.contains_key(&e.inbound_id)) {
                            es.push(e.clone());
                            items.push(BulkInsertItem::Edge(e));
                        }
                    }
                    3 | 4 => {
                        let id = *r.pick(&u.ids);
                        if p.orphans || vs.contains_key(&id) {
                            items.push(BulkInsertItem::VertexProperty(id, *r.pick(&u.names), r.pick(&u.values).clone()));
                        }
                    }
                    _ => {
                        let e = if !es.is_empty() && r.chance(2, 3) { r.pick(&es).clone() } else { u.edge(r) };
                        if p.orphans || es.contains(&e) {
                            items.push(BulkInsertItem::EdgeProperty(e, *r.pick(&u.names), r.pick(&u.values).clone()));
                        }
                    }
                }
            }
            Op::Bulk(items)
        }
        6 => Op::Index(name),
        7 => Op::Sync,
        8 => Op::Reopen,
        9 => {
            if r.chance(1, 2) {
                Op::TxDeleteVertices({ let n = count(r, 3, 70).max(1); list(r, n, |r| *r.pick(&u.ids)) })
            } else {
                Op::TxDeleteEdges({ let n = count(r, 3, 70).max(1); list(r, n, |r| u.edge(r)) })
            }
        }
        10 => {
            if r.chance(1, 2) {
                Op::TxSetVertexProps({ let n = count(r, 3, 70).max(1); list(r, n, |r| *r.pick(&u.ids)) }, name, value)
            } else {
                Op::TxSetEdgeProps({ let n = count(r, 3, 70).max(1); list(r, n, |r| u.edge(r)) }, name, value)
            }
        }
        _ => {
            if r.chance(1, 2) {
                Op::TxDeleteVertexProps({ let n = count(r, 3, 70).max(1); list(r, n, |r| (*r.pick(&u.ids), *r.pick(&u.names))) })
            } else {
                Op::TxDeleteEdgeProps({ let n = count(r, 3, 70).max(1); list(r, n, |r| (u.edge(r), *r.pick(&u.names))) })
            }
        }
    }
}
