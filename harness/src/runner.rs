//! Runs histories on the real datastores and compares every result and the
//! complete observable state with the reference model.
use crate::gen::*;
use crate::model::*;
use indradb::*;
use std::result::Result;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use tempfile::TempDir;
use uuid::Uuid;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Mem,
    MemImage,
    Rocks,
}
impl Kind {
    pub fn parse(s: &str) -> Kind {
        match s {
            "mem" => Kind::Mem,
            "image" => Kind::MemImage,
            "rocks" => Kind::Rocks,
            _ => panic!("unknown store {}", s),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Kind::Mem => "mem",
            Kind::MemImage => "image",
            Kind::Rocks => "rocks",
        }
    }
    pub fn order(&self) -> EdgeOrder {
        match self {
            Kind::Rocks => EdgeOrder::LengthPrefixed,
            _ => EdgeOrder::Lexicographic,
        }
    }
}

pub enum Store {
    Mem(Database<MemoryDatastore>),
    Rocks(Database<RocksdbDatastore>),
    Closed,
}

macro_rules! on {
    ($s:expr, $db:ident => $e:expr) => {
        match $s {
            Store::Mem($db) => $e,
            Store::Rocks($db) => $e,
            Store::Closed => unreachable!(),
        }
    };
}

pub struct Ctx {
    pub kind: Kind,
    pub dir: TempDir,
    pub store: Store,
    pub synced: Option<Model>,
    pub opens: usize,
}

/// Both ways of opening the persistent datastore, in turn.
fn open_rocks(dir: &TempDir, n: usize) -> indradb::Result<Database<RocksdbDatastore>> {
    let path = dir.path().join("db");
    match n % 3 {
        0 | 1 => RocksdbDatastore::new_db(path),
        _ => RocksdbDatastore::new_db_with_options(path, &RocksdbDatastore::get_options(None)),
    }
}

impl Ctx {
    pub fn new(kind: Kind, u: &Universe) -> Ctx {
        let opens = u.ids.len() + u.names.len() + u.values.len();
        let dir = tempfile::tempdir().unwrap();
        let store = match kind {
            Kind::Mem => Store::Mem(MemoryDatastore::new_db()),
            Kind::MemImage => Store::Mem(MemoryDatastore::create_msgpack_db(dir.path().join("img"))),
            Kind::Rocks => Store::Rocks(open_rocks(&dir, opens).unwrap()),
        };
        Ctx { kind, dir, store, synced: None, opens }
    }
    pub fn img(&self) -> PathBuf {
        self.dir.path().join("img")
    }
}

#[derive(Clone, Debug)]
pub struct Mismatch {
    pub op: &'static str,
    pub aspect: &'static str,
    pub detail: String,
}

/// What a query yields: 'v'ertices, 'e'dges, 'p'roperties or a 'c'ount.
pub fn out_kind(q: &Query) -> char {
    match q {
        Query::AllVertex
        | Query::RangeVertex(_)
        | Query::SpecificVertex(_)
        | Query::VertexWithPropertyPresence(_)
        | Query::VertexWithPropertyValue(_) => 'v',
        Query::AllEdge | Query::SpecificEdge(_) | Query::EdgeWithPropertyPresence(_) | Query::EdgeWithPropertyValue(_) => 'e',
        Query::Pipe(p) => match out_kind(&p.inner) {
            'v' => 'e',
            'e' => 'v',
            x => x,
        },
        Query::PipeProperty(_) => 'p',
        Query::PipeWithPropertyPresence(p) => out_kind(&p.inner),
        Query::PipeWithPropertyValue(p) => out_kind(&p.inner),
        Query::Include(p) => out_kind(&p.inner),
        Query::Count(_) => 'c',
    }
}

pub fn op_name(o: &Op) -> &'static str {
    match o {
        Op::CreateVertex(..) => "create_vertex",
        Op::CreateEdge(..) => "create_edge",
        Op::Get(..) => "get",
        Op::Delete(q) => match out_kind(q) {
            'v' => "delete_v",
            'e' => "delete_e",
            'p' => "delete_p",
            _ => "delete_c",
        },
        Op::SetProps(..) => "set",
        Op::Bulk(..) => "bulk",
        Op::Index(..) => "index",
        Op::Sync => "sync",
        Op::Reopen => "reopen",
        Op::TxDeleteVertices(..) => "tx_delete_vertices",
        Op::TxDeleteEdges(..) => "tx_delete_edges",
        Op::TxSetVertexProps(..) => "tx_set",
        Op::TxSetEdgeProps(..) => "tx_set",
        Op::TxDeleteVertexProps(..) => "tx_delete_props",
        Op::TxDeleteEdgeProps(..) => "tx_delete_props",
    }
}

fn vkey(v: &Vertex) -> (Uuid, String) {
    (v.id, v.t.as_str().to_string())
}
fn same_props(a: &[NamedProperty], b: &[NamedProperty]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.name == y.name && same_json(&x.value, &y.value))
}
fn perm<T: Clone + std::fmt::Debug>(a: &[T], b: &[T], eq: impl Fn(&T, &T) -> bool) -> bool {
    if a.len() != b.len() {
        return false;
    }
    // mostly the same order
    let k = a.iter().zip(b).take_while(|(x, y)| eq(x, y)).count();
    if a.len() - k > 64 {
        let (mut a, mut b) = (a[k..].to_vec(), b[k..].to_vec());
        a.sort_by_cached_key(|x| format!("{:?}", x));
        b.sort_by_cached_key(|x| format!("{:?}", x));
        return seq(&a, &b, eq);
    }
    let mut rest: Vec<T> = b[k..].to_vec();
    for x in &a[k..] {
        match rest.iter().position(|y| eq(x, y)) {
            Some(i) => {
                rest.swap_remove(i);
            }
            None => return false,
        }
    }
    true
}
fn seq<T>(a: &[T], b: &[T], eq: impl Fn(&T, &T) -> bool) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq(x, y))
}
pub fn same_value(a: &QueryOutputValue, b: &QueryOutputValue, ord: bool) -> bool {
    use QueryOutputValue::*;
    match (a, b) {
        (Vertices(x), Vertices(y)) => {
            let e = |p: &Vertex, q: &Vertex| vkey(p) == vkey(q);
            if ord {
                seq(x, y, e)
            } else {
                perm(x, y, e)
            }
        }
        (Edges(x), Edges(y)) => {
            let e = |p: &Edge, q: &Edge| p == q;
            if ord {
                seq(x, y, e)
            } else {
                perm(x, y, e)
            }
        }
        (VertexProperties(x), VertexProperties(y)) => {
            let e = |p: &indradb::VertexProperties, q: &indradb::VertexProperties| {
                vkey(&p.vertex) == vkey(&q.vertex) && same_props(&p.props, &q.props)
            };
            if ord {
                seq(x, y, e)
            } else {
                perm(x, y, e)
            }
        }
        (EdgeProperties(x), EdgeProperties(y)) => {
            let e = |p: &indradb::EdgeProperties, q: &indradb::EdgeProperties| {
                p.edge == q.edge && same_props(&p.props, &q.props)
            };
            if ord {
                seq(x, y, e)
            } else {
                perm(x, y, e)
            }
        }
        (Count(x), Count(y)) => x == y,
        _ => false,
    }
}
pub fn same_out(a: &[QueryOutputValue], b: &[QueryOutputValue], ord: bool) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_value(x, y, ord))
}

fn ret<T: std::fmt::Debug, E: std::fmt::Debug>(
    op: &Op,
    got: &Result<T, E>,
    exp: &Result<T, E>,
    same: impl Fn(&T, &T) -> bool,
    same_err: impl Fn(&E, &E) -> bool,
) -> Result<(), Mismatch> {
    let ok = match (got, exp) {
        (Ok(a), Ok(b)) => same(a, b),
        (Err(a), Err(b)) => same_err(a, b),
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(Mismatch { op: op_name(op), aspect: "ret", detail: format!("returned {:?}, expected {:?}", got, exp) })
    }
}

/// Applies one op on the real store and on the model, comparing results.
fn apply(ctx: &mut Ctx, m: &mut Model, op: &Op, u: &Universe) -> Result<(), Mismatch> {
    let err_eq = |a: &MErr, b: &MErr| a == b;
    match op {
        Op::CreateVertex(id, t) => {
            let got = on!(&ctx.store, db => db.create_vertex(&Vertex::with_id(*id, *t))).map_err(merr);
            ret(op, &got, &Ok(m.create_vertex(*id, *t)), |a, b| a == b, err_eq)
        }
        Op::CreateEdge(e) => {
            let got = on!(&ctx.store, db => db.create_edge(e)).map_err(merr);
            ret(op, &got, &Ok(m.create_edge(e)), |a, b| a == b, err_eq)
        }
        Op::Get(q) => {
            let got = on!(&ctx.store, db => db.get(q.clone())).map_err(merr);
            let exp = m.eval(q);
            let ord = ordered(q);
            ret(op, &got, &exp, |a, b| same_out(a, b, ord), err_eq)
        }
        Op::Delete(q) => {
            let got = on!(&ctx.store, db => db.delete(q.clone())).map_err(merr);
            let exp = m.delete(q);
            ret(op, &got, &exp, |_, _| true, err_eq)
        }
        Op::SetProps(q, n, j) => {
            let got = on!(&ctx.store, db => db.set_properties(q.clone(), *n, j)).map_err(merr);
            let exp = m.set_props(q, *n, j);
            ret(op, &got, &exp, |_, _| true, err_eq)
        }
        Op::Bulk(items) => {
            let items = &proper(items, m);
            let got = on!(&ctx.store, db => db.bulk_insert(items.clone())).map_err(merr);
            // Dangling edges are at the datastore's discretion: adopt the
            // store's choice for exactly those edges.
            let mut mm = m.clone();
            for i in items {
                if let BulkInsertItem::Edge(e) = i {
                    let present = on!(&ctx.store, db => {
                        let guard = db.datastore.transaction();
                        let txn = unsafe { &*(&guard as *const _) };
                        let x: Vec<_> = Transaction::specific_edges(txn, vec![e.clone()]).unwrap().collect();
                        x.len() == 1
                    });
                    let dangling = {
                        let known = |id: &Uuid| {
                            m.vertices.contains_key(id)
                                || items.iter().any(|x| matches!(x, BulkInsertItem::Vertex(v) if v.id == *id))
                        };
                        !known(&e.outbound_id) || !known(&e.inbound_id)
                    };
                    // also discretionary: endpoints inserted later in the batch
                    let mut early = false;
                    let mut seen: Vec<Uuid> = m.vertices.keys().cloned().collect();
                    for x in items {
                        match x {
                            BulkInsertItem::Vertex(v) => seen.push(v.id),
                            BulkInsertItem::Edge(f) if f == e => {
                                if !seen.contains(&e.outbound_id) || !seen.contains(&e.inbound_id) {
                                    early = true;
                                }
                            }
                            _ => {}
                        }
                    }
                    if (dangling || early) && !present {
                        continue;
                    }
                    mm.add_edge(e);
                }
            }
            let rest: Vec<BulkInsertItem> =
                items.iter().filter(|i| !matches!(i, BulkInsertItem::Edge(_))).cloned().collect();
            mm.bulk(&rest);
            *m = mm;
            ret(op, &got, &Ok(()), |_, _| true, err_eq)
        }
        Op::Index(n) => {
            let got = on!(&ctx.store, db => db.index_property(*n)).map_err(merr);
            m.indexed.insert(n.as_str().to_string());
            ret(op, &got, &Ok(()), |_, _| true, err_eq)
        }
        Op::Sync => {
            if ctx.kind == Kind::Mem {
                // no path: sync is a no-op that must succeed
                let got = on!(&ctx.store, db => db.sync()).map_err(merr);
                return ret(op, &got, &Ok(()), |_, _| true, err_eq);
            }
            let got = on!(&ctx.store, db => db.sync()).map_err(merr);
            ctx.synced = Some(m.clone());
            ret(op, &got, &Ok(()), |_, _| true, err_eq)
        }
        Op::Reopen => {
            match ctx.kind {
                Kind::Mem => {}
                Kind::MemImage => {
                    if let Some(s) = &ctx.synced {
                        *m = s.clone();
                        ctx.store = Store::Closed;
                        ctx.store = Store::Mem(MemoryDatastore::read_msgpack_db(ctx.img()).map_err(|e| Mismatch {
                            op: "reopen",
                            aspect: "ret",
                            detail: format!("image unreadable: {:?}", e),
                        })?);
                    }
                }
                Kind::Rocks => {
                    ctx.store = Store::Closed;
                    ctx.opens += 1;
                    ctx.store = Store::Rocks(open_rocks(&ctx.dir, ctx.opens).map_err(|e| {
                        Mismatch { op: "reopen", aspect: "ret", detail: format!("cannot reopen: {:?}", e) }
                    })?);
                }
            }
            Ok(())
        }
        Op::TxDeleteVertices(ids) => {
            let vs: Vec<Vertex> = ids.iter().map(|i| Vertex::with_id(*i, u.types[0])).collect();
            let got = on!(&ctx.store, db => db.datastore.transaction().delete_vertices(vs)).map_err(merr);
            ids.iter().for_each(|i| m.delete_vertex(*i));
            ret(op, &got, &Ok(()), |_, _| true, err_eq)
        }
        Op::TxDeleteEdges(es) => {
            let got = on!(&ctx.store, db => db.datastore.transaction().delete_edges(es.clone())).map_err(merr);
            es.iter().for_each(|e| m.delete_edge(e));
            ret(op, &got, &Ok(()), |_, _| true, err_eq)
        }
        Op::TxSetVertexProps(ids, n, j) => {
            let got = on!(&ctx.store, db => db.datastore.transaction().set_vertex_properties(ids.clone(), *n, j)).map_err(merr);
            for i in ids {
                m.vprops.insert((*i, n.as_str().to_string()), j.clone());
            }
            ret(op, &got, &Ok(()), |_, _| true, err_eq)
        }
        Op::TxSetEdgeProps(es, n, j) => {
            let got = on!(&ctx.store, db => db.datastore.transaction().set_edge_properties(es.clone(), *n, j)).map_err(merr);
            for e in es {
                m.set_eprop(e, n.as_str(), j);
            }
            ret(op, &got, &Ok(()), |_, _| true, err_eq)
        }
        Op::TxDeleteVertexProps(ps) => {
            let got = on!(&ctx.store, db => db.datastore.transaction().delete_vertex_properties(ps.clone())).map_err(merr);
            for (i, n) in ps {
                m.vprops.remove(&(*i, n.as_str().to_string()));
            }
            ret(op, &got, &Ok(()), |_, _| true, err_eq)
        }
        Op::TxDeleteEdgeProps(ps) => {
            let got = on!(&ctx.store, db => db.datastore.transaction().delete_edge_properties(ps.clone())).map_err(merr);
            for (e, n) in ps {
                m.del_eprop(e, n.as_str());
            }
            ret(op, &got, &Ok(()), |_, _| true, err_eq)
        }
    }
}

fn observe<D: Datastore>(db: &Database<D>, m: &Model, u: &Universe, op: &'static str) -> Vec<Mismatch> {
    let mut out: Vec<Mismatch> = vec![];
    macro_rules! section {
        ($($t:tt)*) => {{
            let r: Result<(), Mismatch> = (|| { $($t)* ; Ok(()) })();
            if let Err(x) = r { out.push(x) }
        }};
    }
    macro_rules! bad {
        ($a:expr, $($t:tt)*) => { return Err(Mismatch { op, aspect: $a, detail: format!($($t)*) }) };
    }
    let guard = db.datastore.transaction();
    // the trait ties iterator lifetimes to the transaction's own lifetime
    let txn = unsafe { &*(&guard as *const D::Transaction<'_>) };
    macro_rules! all {
        ($a:expr, $e:expr) => {{
            let it = match $e {
                Ok(it) => it,
                Err(e) => bad!($a, "error {:?}", e),
            };
            let r: indradb::Result<Vec<_>> = it.collect();
            match r {
                Ok(v) => v,
                Err(e) => bad!($a, "error {:?}", e),
            }
        }};
    }
    let ev: Vec<Vertex> = m.vertices.iter().map(|(i, t)| Vertex::with_id(*i, *t)).collect();
    section! {
    let vs = all!("vertices", txn.all_vertices());
    if !seq(&vs, &ev, |a, b| vkey(a) == vkey(b)) {
        bad!("vertices", "stored vertices {:?}, expected {:?}", vs, ev);
    }
    for id in &u.ids {
        let rv = all!("vertices", txn.range_vertices(*id));
        if !seq(&rv, &ev.iter().filter(|v| v.id >= *id).cloned().collect::<Vec<_>>(), |a, b| vkey(a) == vkey(b)) {
            bad!("vertices", "range from {:?} gives {:?}", id, rv);
        }
    }
    }
    section! {
    let es = all!("edges", txn.all_edges());
    if es != m.edges {
        bad!("edges", "stored edges {:?}, expected {:?}", es, m.edges);
    }
    }
    section! {
    let re = all!("redges", txn.range_reversed_edges(Edge::new(Uuid::default(), Identifier::default(), Uuid::default())));
    let mut exp: Vec<Edge> = m.edges.iter().map(|e| e.reversed()).collect();
    exp.sort_by_key(|e| edge_key(m.order, e));
    if re != exp {
        bad!("redges", "reversed edges {:?}, expected {:?}", re, exp);
    }
    }
    section! {
        let mut es: Vec<Edge> = all!("agree", txn.all_edges());
        let mut re: Vec<Edge> = all!("agree", txn.range_reversed_edges(Edge::new(Uuid::default(), Identifier::default(), Uuid::default())));
        for e in re.iter_mut() {
            *e = e.reversed();
        }
        es.sort_by_key(|e| edge_key(EdgeOrder::Lexicographic, e));
        re.sort_by_key(|e| edge_key(EdgeOrder::Lexicographic, e));
        if es != re {
            bad!("agree", "edges {:?} but reversed edges {:?} (ends swapped back)", es, re);
        }
        let mut sp: Vec<Edge> = all!("agree", txn.specific_edges(u.edges()));
        sp.sort_by_key(|e| edge_key(EdgeOrder::Lexicographic, e));
        if es != sp {
            bad!("agree", "listing gives {:?} but naming the edges gives {:?}", es, sp);
        }
    }
    section! {
    for e in u.edges().iter().take(12) {
        let f = all!("edges", txn.range_edges(e.clone()));
        let x: Vec<Edge> = m.edges.iter().filter(|f| edge_key(m.order, f) >= edge_key(m.order, e)).cloned().collect();
        if f != x {
            bad!("edges", "range_edges({:?}) gives {:?}, expected {:?}", e, f, x);
        }
    }
    }
    section! {
    if txn.vertex_count() != m.vertices.len() as u64 {
        bad!("counts", "vertex_count {} expected {}", txn.vertex_count(), m.vertices.len());
    }
    if txn.edge_count() != m.edges.len() as u64 {
        bad!("counts", "edge_count {} expected {}", txn.edge_count(), m.edges.len());
    }
    }
    section! {
    for id in &u.ids {
        let v = Vertex::with_id(*id, u.types[0]);
        let mut got: Vec<NamedProperty> = all!("vprops", txn.all_vertex_properties_for_vertex(&v))
            .into_iter()
            .map(|(n, j)| NamedProperty::new(n, j))
            .collect();
        got.sort_by(|a, b| a.name.as_str().cmp(b.name.as_str()));
        let exp = m.props_of_vertex(*id);
        if !same_props(&got, &exp) {
            bad!("vprops", "properties of vertex {:?}: {:?}, expected {:?}", id, got, exp);
        }
        for n in &u.names {
            let g = match txn.vertex_property(&v, *n) {
                Ok(x) => x,
                Err(e) => bad!("vprops", "error {:?}", e),
            };
            let e = m.vprops.get(&(*id, n.as_str().to_string()));
            if g.is_some() != e.is_some() || (g.is_some() && !same_json(g.as_ref().unwrap(), e.unwrap())) {
                bad!("vprops", "property {:?} of {:?}: {:?}, expected {:?}", n, id, g, e);
            }
        }
    }
    }
    section! {
    let mut edges = u.edges();
    if edges.len() > 24 {
        edges.retain(|e| m.has_edge(e) || !m.props_of_edge(e).is_empty() || m.has_edge(&e.reversed()));
    }
    for e in &edges {
        let mut got: Vec<NamedProperty> = all!("eprops", txn.all_edge_properties_for_edge(e))
            .into_iter()
            .map(|(n, j)| NamedProperty::new(n, j))
            .collect();
        got.sort_by(|a, b| a.name.as_str().cmp(b.name.as_str()));
        let exp = m.props_of_edge(e);
        if !same_props(&got, &exp) {
            bad!("eprops", "properties of edge {:?}: {:?}, expected {:?}", e, got, exp);
        }
        for n in &u.names {
            let g = match txn.edge_property(e, *n) {
                Ok(x) => x,
                Err(e) => bad!("eprops", "error {:?}", e),
            };
            let x = m.eprop(e, n.as_str());
            if g.is_some() != x.is_some() || (g.is_some() && !same_json(g.as_ref().unwrap(), x.unwrap())) {
                bad!("eprops", "property {:?} of {:?}: {:?}, expected {:?}", n, e, g, x);
            }
        }
    }
    }
    drop(guard);
    section! {
    // The property index, observed through the public query interface.
    for n in &u.names {
        let mut qs = vec![
            Query::VertexWithPropertyPresence(VertexWithPropertyPresenceQuery { name: *n }),
            Query::EdgeWithPropertyPresence(EdgeWithPropertyPresenceQuery { name: *n }),
        ];
        for j in &u.values {
            qs.push(Query::VertexWithPropertyValue(VertexWithPropertyValueQuery { name: *n, value: j.clone() }));
            qs.push(Query::EdgeWithPropertyValue(EdgeWithPropertyValueQuery { name: *n, value: j.clone() }));
        }
        for q in qs {
            let got = db.get(q.clone()).map_err(merr);
            let exp = m.eval(&q);
            let ok = match (&got, &exp) {
                (Ok(a), Ok(b)) => same_out(a, b, false),
                (Err(a), Err(b)) => a == b,
                _ => false,
            };
            if !ok {
                bad!("idx", "index query {:?} gives {:?}, expected {:?}", q, got, exp);
            }
        }
    }
    }
    out
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default()
}

/// Applies an op, then compares the whole observable state with the model.
pub fn step(ctx: &mut Ctx, m: &mut Model, op: &Op, u: &Universe) -> Vec<Mismatch> {
    let name = op_name(op);
    let mut out = vec![];
    match catch_unwind(AssertUnwindSafe(|| apply(ctx, m, op, u))) {
        Ok(Ok(())) => {}
        Ok(Err(x)) => out.push(x),
        Err(p) => {
            out.push(Mismatch { op: name, aspect: "panic", detail: format!("panicked: {}", panic_text(p)) });
            return out;
        }
    }
    if matches!(ctx.store, Store::Closed) {
        return out;
    }
    match catch_unwind(AssertUnwindSafe(|| on!(&ctx.store, db => observe(db, m, u, name)))) {
        Ok(v) => out.extend(v),
        Err(p) => out.push(Mismatch { op: name, aspect: "panic", detail: format!("panicked: {}", panic_text(p)) }),
    }
    out
}

/// Re-runs a fixed list of ops up to the first op with a mismatch.
pub fn run_ops(kind: Kind, u: &Universe, ops: &[Op]) -> Option<(usize, Vec<Mismatch>)> {
    let mut ctx = Ctx::new(kind, u);
    let mut m = Model::new(kind.order());
    for (i, op) in ops.iter().enumerate() {
        let x = step(&mut ctx, &mut m, op, u);
        if !x.is_empty() {
            return Some((i, x));
        }
    }
    None
}

/// The universe and operations of one generated case (independent of any store).
pub fn gen_case(kind: Kind, seed: u64, case: u64, nops: usize, p: &Profile) -> (Universe, Vec<Op>) {
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ case.wrapping_mul(0xD1B54A32D192ED03));
    let u = Universe::new(&mut r);
    let mut m = Model::new(kind.order());
    let mut ops = vec![];
    let n = 1 + r.below(nops);
    for _ in 0..n {
        *u.live.borrow_mut() = m.edges.clone();
        let op = gen_op(&mut r, &u, &m, p);
        advance(&mut m, &op);
        ops.push(op);
    }
    (u, ops)
}

/// The model's view of an op, used to steer generation.
pub fn advance(m: &mut Model, op: &Op) {
    match op {
        Op::CreateVertex(id, t) => {
            m.create_vertex(*id, *t);
        }
        Op::CreateEdge(e) => {
            m.create_edge(e);
        }
        Op::Delete(q) => {
            let _ = m.delete(q);
        }
        Op::SetProps(q, n, j) => {
            let _ = m.set_props(q, *n, j);
        }
        Op::Bulk(items) => m.bulk(items),
        Op::Index(n) => {
            m.indexed.insert(n.as_str().to_string());
        }
        Op::TxDeleteVertices(ids) => ids.iter().for_each(|i| m.delete_vertex(*i)),
        Op::TxDeleteEdges(es) => es.iter().for_each(|e| m.delete_edge(e)),
        Op::TxSetVertexProps(ids, n, j) => ids.iter().for_each(|i| {
            m.vprops.insert((*i, n.as_str().to_string()), j.clone());
        }),
        Op::TxSetEdgeProps(es, n, j) => es.iter().for_each(|e| m.set_eprop(e, n.as_str(), j)),
        Op::TxDeleteVertexProps(ps) => ps.iter().for_each(|(i, n)| {
            m.vprops.remove(&(*i, n.as_str().to_string()));
        }),
        Op::TxDeleteEdgeProps(ps) => ps.iter().for_each(|(e, n)| m.del_eprop(e, n.as_str())),
        Op::Get(_) | Op::Sync | Op::Reopen => {}
    }
}

/// A bulk insert's items without vertices that exist with another type: what
/// becomes of those is not specified (and the shortening of a history, or a
/// datastore's freedom in dangling edges, may lead to some).
fn proper(items: &[BulkInsertItem], m: &Model) -> Vec<BulkInsertItem> {
    let mut ts: std::collections::HashMap<Uuid, indradb::Identifier> = Default::default();
    items
        .iter()
        .filter(|i| match i {
            BulkInsertItem::Vertex(v) => *ts.entry(v.id).or_insert_with(|| m.vertices.get(&v.id).copied().unwrap_or(v.t)) == v.t,
            _ => true,
        })
        .cloned()
        .collect()
}

/// Runs a modifying op without looking at its result's value.
pub fn exec(s: &Store, op: &Op, u: &Universe) -> indradb::Result<()> {
    on!(s, db => match op {
        Op::CreateVertex(id, t) => db.create_vertex(&Vertex::with_id(*id, *t)).map(|_| ()),
        Op::CreateEdge(e) => db.create_edge(e).map(|_| ()),
        Op::Get(q) => db.get(q.clone()).map(|_| ()),
        Op::Delete(q) => db.delete(q.clone()),
        Op::SetProps(q, n, j) => db.set_properties(q.clone(), *n, j),
        Op::Bulk(items) => db.bulk_insert(items.clone()),
        Op::Index(n) => db.index_property(*n),
        Op::Sync => db.sync(),
        Op::Reopen => Ok(()),
        Op::TxDeleteVertices(ids) => {
            let vs: Vec<Vertex> = ids.iter().map(|i| Vertex::with_id(*i, u.types[0])).collect();
            db.datastore.transaction().delete_vertices(vs)
        }
        Op::TxDeleteEdges(es) => db.datastore.transaction().delete_edges(es.clone()),
        Op::TxSetVertexProps(ids, n, j) => db.datastore.transaction().set_vertex_properties(ids.clone(), *n, j),
        Op::TxSetEdgeProps(es, n, j) => db.datastore.transaction().set_edge_properties(es.clone(), *n, j),
        Op::TxDeleteVertexProps(ps) => db.datastore.transaction().delete_vertex_properties(ps.clone()),
        Op::TxDeleteEdgeProps(ps) => db.datastore.transaction().delete_edge_properties(ps.clone()),
    })
}

/// `apply` for many items: bulk inserts are known to be proper.
pub fn apply_big(ctx: &mut Ctx, m: &mut Model, op: &Op, u: &Universe) -> Result<(), Mismatch> {
    if let Op::Bulk(items) = op {
        let known = |id: &Uuid| m.vertices.contains_key(id);
        // properties of vertices that are gone by now
        let items: Vec<BulkInsertItem> = if m.vertices.is_empty() {
            items.clone()
        } else {
            items.iter().filter(|i| matches!(i, BulkInsertItem::VertexProperty(id, _, _) if known(id))).cloned().collect()
        };
        let got = on!(&ctx.store, db => db.bulk_insert(items.clone())).map_err(merr);
        m.bulk(&items);
        return ret(op, &got, &Ok(()), |_, _| true, |a: &MErr, b: &MErr| a == b);
    }
    apply(ctx, m, op, u)
}
pub fn get(ctx: &Ctx, q: &Query) -> Result<Vec<QueryOutputValue>, MErr> {
    on!(&ctx.store, db => db.get(q.clone())).map_err(merr)
}
