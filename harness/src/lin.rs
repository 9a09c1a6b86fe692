//! P22: operations on one in-memory database from several threads; their
//! results and the final state must be those of the same operations in some
//! sequential order. In one half of the runs the threads race; in the other
//! one thread is stopped before or after a chosen step of its operations (each
//! begin, call and end of a transaction is one) until the other thread is done
//! or seen to wait for it.
use crate::gen::*;
use indradb::*;
use std::collections::HashSet;
use std::result::Result;
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::Duration;
use uuid::Uuid;

#[derive(Clone, Debug)]
enum Op {
    CreateVertex(Vertex),
    CreateEdge(Edge),
    Get(Query),
    Delete(Query),
    Set(Query, Identifier, Json),
    Bulk(Vec<BulkInsertItem>),
    Index(Identifier),
    Sync,
}
type Db = Database<Stepped>;

/// the steps this thread takes, and what is to happen at one of them
#[derive(Default)]
struct Steps {
    taken: usize,
    at: Option<usize>,
    go: Option<Box<dyn FnOnce()>>,
}
thread_local! {
    static STEPS: RefCell<Steps> = RefCell::new(Steps::default());
}
fn step() {
    let go = STEPS.with(|s| {
        let mut s = s.borrow_mut();
        s.taken += 1;
        if s.at == Some(s.taken - 1) {
            s.go.take()
        } else {
            None
        }
    });
    if let Some(f) = go {
        f()
    }
}
/// a datastore that does what another does, in steps
struct Stepped(MemoryDatastore);
struct SteppedTxn<T>(Option<T>);
impl Datastore for Stepped {
    type Transaction<'a> = SteppedTxn<<MemoryDatastore as Datastore>::Transaction<'a>>;
    fn transaction(&self) -> Self::Transaction<'_> {
        step();
        let t = self.0.transaction();
        step();
        SteppedTxn(Some(t))
    }
}
impl<T> Drop for SteppedTxn<T> {
    fn drop(&mut self) {
        step();
        self.0 = None;
        step();
    }
}
impl<T> SteppedTxn<T> {
    fn t(&self) -> &T {
        step();
        self.0.as_ref().unwrap()
    }
    fn m(&mut self) -> &mut T {
        step();
        self.0.as_mut().unwrap()
    }
}
type R<T> = indradb::Result<T>;
impl<'a, T: Transaction<'a>> Transaction<'a> for SteppedTxn<T> {
    fn vertex_count(&self) -> u64 {
        self.t().vertex_count()
    }
    fn all_vertices(&'a self) -> R<DynIter<'a, Vertex>> {
        self.t().all_vertices()
    }
    fn range_vertices(&'a self, offset: Uuid) -> R<DynIter<'a, Vertex>> {
        self.t().range_vertices(offset)
    }
    fn specific_vertices(&'a self, ids: Vec<Uuid>) -> R<DynIter<'a, Vertex>> {
        self.t().specific_vertices(ids)
    }
    fn vertex_ids_with_property(&'a self, name: Identifier) -> R<Option<DynIter<'a, Uuid>>> {
        self.t().vertex_ids_with_property(name)
    }
    fn vertex_ids_with_property_value(&'a self, name: Identifier, value: &Json) -> R<Option<DynIter<'a, Uuid>>> {
        self.t().vertex_ids_with_property_value(name, value)
    }
    fn edge_count(&self) -> u64 {
        self.t().edge_count()
    }
    fn all_edges(&'a self) -> R<DynIter<'a, Edge>> {
        self.t().all_edges()
    }
    fn range_edges(&'a self, offset: Edge) -> R<DynIter<'a, Edge>> {
        self.t().range_edges(offset)
    }
    fn range_reversed_edges(&'a self, offset: Edge) -> R<DynIter<'a, Edge>> {
        self.t().range_reversed_edges(offset)
    }
    fn specific_edges(&'a self, edges: Vec<Edge>) -> R<DynIter<'a, Edge>> {
        self.t().specific_edges(edges)
    }
    fn edges_with_property(&'a self, name: Identifier) -> R<Option<DynIter<'a, Edge>>> {
        self.t().edges_with_property(name)
    }
    fn edges_with_property_value(&'a self, name: Identifier, value: &Json) -> R<Option<DynIter<'a, Edge>>> {
        self.t().edges_with_property_value(name, value)
    }
    fn vertex_property(&self, vertex: &Vertex, name: Identifier) -> R<Option<Json>> {
        self.t().vertex_property(vertex, name)
    }
    fn all_vertex_properties_for_vertex(&'a self, vertex: &Vertex) -> R<DynIter<'a, (Identifier, Json)>> {
        self.t().all_vertex_properties_for_vertex(vertex)
    }
    fn edge_property(&self, edge: &Edge, name: Identifier) -> R<Option<Json>> {
        self.t().edge_property(edge, name)
    }
    fn all_edge_properties_for_edge(&'a self, edge: &Edge) -> R<DynIter<'a, (Identifier, Json)>> {
        self.t().all_edge_properties_for_edge(edge)
    }
    fn delete_vertices(&mut self, vertices: Vec<Vertex>) -> R<()> {
        self.m().delete_vertices(vertices)
    }
    fn delete_edges(&mut self, edges: Vec<Edge>) -> R<()> {
        self.m().delete_edges(edges)
    }
    fn delete_vertex_properties(&mut self, props: Vec<(Uuid, Identifier)>) -> R<()> {
        self.m().delete_vertex_properties(props)
    }
    fn delete_edge_properties(&mut self, props: Vec<(Edge, Identifier)>) -> R<()> {
        self.m().delete_edge_properties(props)
    }
    fn sync(&self) -> R<()> {
        self.t().sync()
    }
    fn create_vertex(&mut self, vertex: &Vertex) -> R<bool> {
        self.m().create_vertex(vertex)
    }
    fn create_edge(&mut self, edge: &Edge) -> R<bool> {
        self.m().create_edge(edge)
    }
    fn bulk_insert(&mut self, items: Vec<BulkInsertItem>) -> R<()> {
        self.m().bulk_insert(items)
    }
    fn index_property(&mut self, name: Identifier) -> R<()> {
        self.m().index_property(name)
    }
    fn set_vertex_properties(&mut self, vertices: Vec<Uuid>, name: Identifier, value: &Json) -> R<()> {
        self.m().set_vertex_properties(vertices, name, value)
    }
    fn set_edge_properties(&mut self, edges: Vec<Edge>, name: Identifier, value: &Json) -> R<()> {
        self.m().set_edge_properties(edges, name, value)
    }
}

fn pipe(q: Query, direction: EdgeDirection) -> Query {
    Query::Pipe(PipeQuery { inner: Box::new(q), direction, limit: u32::MAX, t: None })
}
fn props(q: Query, name: Option<Identifier>) -> Query {
    Query::PipeProperty(PipePropertyQuery { inner: Box::new(q), name })
}
fn items(o: Vec<QueryOutputValue>) -> Vec<Vec<String>> {
    fn row<T: std::fmt::Debug>(v: Vec<T>) -> Vec<String> {
        let mut v: Vec<String> = v.iter().map(|x| format!("{:?}", x)).collect();
        v.sort();
        v
    }
    o.into_iter()
        .map(|v| match v {
            QueryOutputValue::Vertices(v) => row(v),
            QueryOutputValue::Edges(v) => row(v),
            QueryOutputValue::Count(n) => vec![n.to_string()],
            QueryOutputValue::VertexProperties(v) => row(v),
            QueryOutputValue::EdgeProperties(v) => row(v),
        })
        .collect()
}
fn run(db: &Db, op: &Op) -> String {
    match op {
        Op::CreateVertex(v) => format!("{:?}", db.create_vertex(v)),
        Op::CreateEdge(e) => format!("{:?}", db.create_edge(e)),
        Op::Get(q) => format!("{:?}", db.get(q.clone()).map(items)),
        Op::Delete(q) => format!("{:?}", db.delete(q.clone())),
        Op::Set(q, n, j) => format!("{:?}", db.set_properties(q.clone(), *n, j)),
        Op::Bulk(i) => format!("{:?}", db.bulk_insert(i.clone())),
        Op::Index(n) => format!("{:?}", db.index_property(*n)),
        Op::Sync => format!("{:?}", db.sync()),
    }
}
fn state(db: &Db, names: &[Identifier]) -> String {
    let all = |q: Query| format!("{:?}", db.get(q).map(items));
    let vs: Query = AllVertexQuery.into();
    let es: Query = AllEdgeQuery.into();
    let mut s = all(vs.clone()) + &all(es.clone());
    s += &all(pipe(vs.clone(), EdgeDirection::Outbound));
    s += &all(pipe(vs.clone(), EdgeDirection::Inbound));
    // by name: also properties without an owner would show when it comes back
    for n in names {
        s += &all(VertexWithPropertyPresenceQuery::new(*n).into());
        s += &all(EdgeWithPropertyPresenceQuery::new(*n).into());
    }
    s += &all(props(vs, None));
    s += &all(props(es, None));
    s
}
/// all ways to merge the threads' operations
fn orders(n: &[usize], so_far: &mut Vec<usize>, at: &mut Vec<usize>, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
    let mut done = true;
    for t in 0..n.len() {
        if at[t] < n[t] {
            done = false;
            at[t] += 1;
            so_far.push(t);
            if orders(n, so_far, at, f) {
                return true;
            }
            so_far.pop();
            at[t] -= 1;
        }
    }
    done && f(so_far)
}

pub fn case(seed: u64, case: u64) -> Result<(bool, String), String> {
    let mut r = Rng(seed ^ case.wrapping_mul(0x9e37_79b9));
    let ids: Vec<uuid::Uuid> = (1..=3).map(uuid::Uuid::from_u128).collect();
    let ts = [ident("t"), ident("u")];
    let names = if r.chance(1, 2) { vec![ident("p")] } else { vec![ident("p"), ident("q")] };
    let vertex = |r: &mut Rng| Vertex::with_id(*r.pick(&ids), *r.pick(&ts));
    let edge = |r: &mut Rng| Edge::new(*r.pick(&ids), ident("e"), *r.pick(&ids));
    let value = |r: &mut Rng| ijson!(r.below(3));
    let query = |r: &mut Rng| -> Query {
        let q: Query = match r.below(7) {
            0 => AllVertexQuery.into(),
            1 => AllEdgeQuery.into(),
            2 => SpecificVertexQuery::single(*r.pick(&ids)).into(),
            3 => SpecificEdgeQuery::single(edge(r)).into(),
            4 => VertexWithPropertyPresenceQuery::new(*r.pick(&names)).into(),
            5 => VertexWithPropertyValueQuery::new(*r.pick(&names), value(r)).into(),
            _ => EdgeWithPropertyPresenceQuery::new(*r.pick(&names)).into(),
        };
        match r.below(4) {
            0 => {
                if r.chance(1, 2) {
                    pipe(q, EdgeDirection::Outbound)
                } else {
                    pipe(q, EdgeDirection::Inbound)
                }
            }
            _ => q,
        }
    };
    let op = |r: &mut Rng| match r.below(16) {
        0 | 1 => Op::CreateVertex(vertex(r)),
        2 | 3 | 4 => Op::CreateEdge(edge(r)),
        5 => Op::Get(query(r)),
        6 => Op::Get(props(Query::Include(IncludeQuery { inner: Box::new(query(r)) }), None)),
        7 => Op::Get(Query::Count(CountQuery { inner: Box::new(query(r)) })),
        8 | 9 => Op::Delete(query(r)),
        10 => Op::Delete(props(query(r), Some(*r.pick(&names)))),
        11 | 12 => Op::Set(query(r), *r.pick(&names), value(r)),
        13 => {
            let (v, e) = (vertex(r), edge(r));
            Op::Bulk(
                (0..if r.chance(1, 6) { near(r, 12000).unwrap_or(500 + r.below(2000) as u64) as usize } else { 1 + count(r, 4, 60) })
                    .map(|_| match r.below(5) {
                        0 => BulkInsertItem::Vertex(v.clone()),
                        1 | 2 => BulkInsertItem::VertexProperty(v.id, *r.pick(&names), value(r)),
                        3 => BulkInsertItem::Edge(e.clone()),
                        _ => BulkInsertItem::EdgeProperty(e.clone(), *r.pick(&names), value(r)),
                    })
                    .collect(),
            )
        }
        14 => Op::Index(*r.pick(&names)),
        _ => Op::Sync,
    };
    let mut before: Vec<Op> = if r.chance(2, 3) { vec![Op::Index(names[0])] } else { vec![] };
    before.extend(ids.iter().map(|i| Op::CreateVertex(Vertex::with_id(*i, ts[0]))));
    for _ in 0..6 {
        let o = op(&mut r);
        if !matches!(o, Op::Get(_) | Op::Delete(_)) {
            before.push(o);
        }
    }
    let threads: Vec<Vec<Op>> = (0..if r.chance(3, 4) { 2 } else { 3 }).map(|_| (0..1 + r.below(2)).map(|_| op(&mut r)).collect()).collect();
    let dir = tempfile::tempdir().unwrap();
    let images = AtomicUsize::new(0);
    let image = threads.iter().flatten().any(|o| matches!(o, Op::Sync));
    let fresh = || -> (Db, Option<std::path::PathBuf>) {
        let img = dir.path().join(images.fetch_add(1, SeqCst).to_string());
        let db = Database::new(Stepped(if image { MemoryDatastore::create_msgpack_db(&img) } else { MemoryDatastore::new_db() }.datastore));
        for o in &before {
            run(&db, o);
        }
        (db, Some(img).filter(|_| image))
    };
    let end = |db: (Db, Option<std::path::PathBuf>)| -> String {
        let mut s = state(&db.0, &names);
        if let Some(i) = db.1 {
            s += &match MemoryDatastore::read_msgpack_db(&i) {
                Ok(d) => format!("; saved: {}", state(&Database::new(Stepped(d.datastore)), &names)),
                Err(e) => format!("; not saved: {}", e.to_string().replace(&i.display().to_string(), "the image")),
            };
            let _ = std::fs::remove_file(&i);
        }
        s
    };
    let lens: Vec<usize> = threads.iter().map(|t| t.len()).collect();
    let mut allowed: HashSet<(Vec<Vec<String>>, String)> = HashSet::new();
    orders(&lens, &mut vec![], &mut vec![0; lens.len()], &mut |o| {
        let db = fresh();
        let mut got: Vec<Vec<String>> = vec![vec![]; lens.len()];
        for t in o {
            let x = run(&db.0, &threads[*t][got[*t].len()]);
            got[*t].push(x);
        }
        allowed.insert((got, end(db)));
        false
    });
    let mut seen = HashSet::new();
    let mut check = |got: Vec<Vec<String>>, how: &str, db| -> Result<(), String> {
        let x = (got, end(db));
        if !allowed.contains(&x) {
            let mut t = String::from("  before:\n");
            let brief = |o: &Op| -> String { format!("{:?}", o).chars().take(400).collect() };
            for o in before.iter().map(brief) {
                t += &format!("    {}\n", o);
            }
            for (i, ops) in threads.iter().enumerate() {
                t += &format!("  thread {}:\n", i + 1);
                for (o, g) in ops.iter().zip(&x.0[i]) {
                    t += &format!("    {} -> {}\n", brief(o), g);
                }
            }
            return Err(format!("{}  {}: no sequential order of these operations gives these results and leaves {}", t, how, x.1));
        }
        seen.insert(x);
        Ok(())
    };
    let panicked = || vec!["panicked".to_string()];
    for _ in 0..if threads.len() == 2 { 3 } else { 10 } {
        let db = fresh();
        let ready = AtomicUsize::new(0);
        let got: Vec<Vec<String>> = std::thread::scope(|s| {
            let hs: Vec<_> = threads
                .iter()
                .map(|ops| {
                    let (db, ready, n) = (&db.0, &ready, threads.len());
                    s.spawn(move || {
                        ready.fetch_add(1, SeqCst);
                        let t0 = std::time::Instant::now();
                        while ready.load(SeqCst) < n && t0.elapsed().as_millis() < 5 {
                            std::hint::spin_loop();
                        }
                        ops.iter().map(|o| run(db, o)).collect::<Vec<_>>()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| panicked())).collect()
        });
        check(got, "racing", db)?;
    }
    let mut stops = 0;
    if threads.len() == 2 {
        for first in 0..2 {
            // how many steps there are without the other thread
            let db = fresh();
            STEPS.with(|s| *s.borrow_mut() = Steps::default());
            for o in &threads[first] {
                run(&db.0, o);
            }
            let n = STEPS.with(|s| s.borrow().taken);
            for _ in 0..n.min(12) {
                let at = r.below(n);
                let db = fresh();
                let (tx, rx) = std::sync::mpsc::channel::<()>();
                let (done_tx, done_rx) = std::sync::mpsc::channel::<()>();
                let (mine, theirs) = std::thread::scope(|s| {
                    let d = &db.0;
                    let ops = &threads[1 - first];
                    let other = s.spawn(move || {
                        let _ = rx.recv();
                        let x: Vec<String> = ops.iter().map(|o| run(d, o)).collect();
                        let _ = done_tx.send(());
                        x
                    });
                    STEPS.with(|s| {
                        *s.borrow_mut() = Steps {
                            taken: 0,
                            at: Some(at),
                            go: Some(Box::new(move || {
                                let _ = tx.send(());
                                let _ = done_rx.recv_timeout(Duration::from_micros(400));
                            })),
                        }
                    });
                    let mine: Vec<String> = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| threads[first].iter().map(|o| run(d, o)).collect())).unwrap_or_else(|_| panicked());
                    STEPS.with(|s| *s.borrow_mut() = Steps::default());
                    (mine, other.join().unwrap_or_else(|_| panicked()))
                });
                stops += 1;
                let got = if first == 0 { vec![mine, theirs] } else { vec![theirs, mine] };
                check(got, &format!("thread {} stopped at its step {} until the other had ended or was waiting", first + 1, at), db)?;
            }
        }
    }
    Ok((
        allowed.len() > 1,
        format!("{} threads, {:.600}, {} stops, {} of {} sequential outcomes seen", threads.len(), format!("{:?}", threads), stops, seen.len(), allowed.len()),
    ))
}
