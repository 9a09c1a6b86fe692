//! P19: the parallel vertex map.
use crate::gen::{ident, near, Rng};
use indradb::*;
use indradb_plugin_host::util::{map, VertexMapper};
use std::collections::HashMap;
use std::result::Result;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use uuid::Uuid;

struct M {
    threads: usize,
    fail: Vec<usize>,
    ids: HashMap<Uuid, usize>,
    delay: usize,
    n: AtomicUsize,
    active: AtomicUsize,
    seen: Mutex<HashMap<(Uuid, String), usize>>,
}
/// one of every kind
fn error(i: usize) -> indradb_plugin_host::Error {
    use indradb_plugin_host::Error as E;
    let io = || std::io::Error::new(std::io::ErrorKind::Other, format!("fail {}", i));
    match i % 13 {
        0 => E::IndraDB(Error::NotIndexed),
        1 => E::Json(serde_json::from_str::<serde_json::Value>("{").unwrap_err()),
        2 => E::Other(Box::new(io())),
        3 => E::InvalidArgument(String::new()),
        4 => E::IndraDB(Error::Unsupported),
        5 => E::IndraDB(Error::UuidTaken),
        6 => E::IndraDB(Error::OperationOnQuery),
        7 => E::IndraDB(Error::Io(io())),
        8 => E::IndraDB(Error::Io(std::io::ErrorKind::Interrupted.into())),
        9 => E::IndraDB(Error::Datastore(Box::new(io()))),
        10 => E::IndraDB(Error::Invalid(ValidationError::InvalidValue)),
        11 => E::IndraDB(Error::Invalid(ValidationError::CannotIncrementUuid)),
        _ => E::InvalidArgument(format!("fail {}", i)),
    }
}
/// A transaction whose vertices cannot all be read.
struct Faulty(Vec<Option<Vertex>>);
type R<T> = indradb::Result<T>;
impl<'a> Transaction<'a> for Faulty {
    fn all_vertices(&'a self) -> R<DynIter<'a, Vertex>> {
        Ok(Box::new(self.0.iter().map(|v| v.clone().ok_or(Error::OperationOnQuery))))
    }
    fn vertex_count(&self) -> u64 {
        self.0.len() as u64
    }
    fn range_vertices(&'a self, _: Uuid) -> R<DynIter<'a, Vertex>> {
        unimplemented!()
    }
    fn specific_vertices(&'a self, _: Vec<Uuid>) -> R<DynIter<'a, Vertex>> {
        unimplemented!()
    }
    fn vertex_ids_with_property(&'a self, _: Identifier) -> R<Option<DynIter<'a, Uuid>>> {
        unimplemented!()
    }
    fn vertex_ids_with_property_value(&'a self, _: Identifier, _: &Json) -> R<Option<DynIter<'a, Uuid>>> {
        unimplemented!()
    }
    fn edge_count(&self) -> u64 {
        0
    }
    fn all_edges(&'a self) -> R<DynIter<'a, Edge>> {
        unimplemented!()
    }
    fn range_edges(&'a self, _: Edge) -> R<DynIter<'a, Edge>> {
        unimplemented!()
    }
    fn range_reversed_edges(&'a self, _: Edge) -> R<DynIter<'a, Edge>> {
        unimplemented!()
    }
    fn specific_edges(&'a self, _: Vec<Edge>) -> R<DynIter<'a, Edge>> {
        unimplemented!()
    }
    fn edges_with_property(&'a self, _: Identifier) -> R<Option<DynIter<'a, Edge>>> {
        unimplemented!()
    }
    fn edges_with_property_value(&'a self, _: Identifier, _: &Json) -> R<Option<DynIter<'a, Edge>>> {
        unimplemented!()
    }
    fn vertex_property(&self, _: &Vertex, _: Identifier) -> R<Option<Json>> {
        unimplemented!()
    }
    fn all_vertex_properties_for_vertex(&'a self, _: &Vertex) -> R<DynIter<'a, (Identifier, Json)>> {
        unimplemented!()
    }
    fn edge_property(&self, _: &Edge, _: Identifier) -> R<Option<Json>> {
        unimplemented!()
    }
    fn all_edge_properties_for_edge(&'a self, _: &Edge) -> R<DynIter<'a, (Identifier, Json)>> {
        unimplemented!()
    }
    fn delete_vertices(&mut self, _: Vec<Vertex>) -> R<()> {
        unimplemented!()
    }
    fn delete_edges(&mut self, _: Vec<Edge>) -> R<()> {
        unimplemented!()
    }
    fn delete_vertex_properties(&mut self, _: Vec<(Uuid, Identifier)>) -> R<()> {
        unimplemented!()
    }
    fn delete_edge_properties(&mut self, _: Vec<(Edge, Identifier)>) -> R<()> {
        unimplemented!()
    }
    fn create_vertex(&mut self, _: &Vertex) -> R<bool> {
        unimplemented!()
    }
    fn create_edge(&mut self, _: &Edge) -> R<bool> {
        unimplemented!()
    }
    fn index_property(&mut self, _: Identifier) -> R<()> {
        unimplemented!()
    }
    fn set_vertex_properties(&mut self, _: Vec<Uuid>, _: Identifier, _: &Json) -> R<()> {
        unimplemented!()
    }
    fn set_edge_properties(&mut self, _: Vec<Edge>, _: Identifier, _: &Json) -> R<()> {
        unimplemented!()
    }
}
impl VertexMapper for M {
    fn num_threads(&self) -> usize {
        self.threads
    }
    fn map(&self, v: Vertex) -> Result<(), indradb_plugin_host::Error> {
        self.active.fetch_add(1, SeqCst);
        let k = self.n.fetch_add(1, SeqCst);
        if self.delay > 0 && k % self.delay == 0 {
            std::thread::sleep(Duration::from_millis(3));
        }
        *self.seen.lock().unwrap().entry((v.id, v.t.to_string())).or_insert(0) += 1;
        let i = self.ids.get(&v.id).copied();
        self.active.fetch_sub(1, SeqCst);
        if i.map_or(false, |i| self.fail.contains(&i)) {
            return Err(error(i.unwrap()));
        }
        Ok(())
    }
}
pub fn case(seed: u64, case: u64) -> Result<(bool, String), String> {
    let mut r = Rng(seed ^ case.wrapping_mul(0x1357_9bdf));
    let n = match r.below(7) {
        0 => r.below(3),
        1 => 998 + r.below(5),
        2 => 1998 + r.below(6),
        3 => 3000 + r.below(2500),
        _ => r.below(40),
    };
    let n = near(&mut r, 12000).map_or(n, |n| n as usize);
    let threads = *r.pick(&[0, 1, 1, 2, 3, 8, 64, 200]);
    let mut fail = vec![];
    if r.chance(1, 2) && n > 0 {
        for _ in 0..1 + r.below(3) {
            fail.push(match r.below(4) {
                0 => 0,
                1 => n - 1,
                2 => (999usize).min(n - 1),
                _ => r.below(n),
            });
        }
    }
    let db = MemoryDatastore::new_db();
    let mut ids = HashMap::new();
    let ts = [ident("a"), ident(""), ident("b")];
    let mut vs = HashMap::new();
    let base = r.next() as u128;
    let mut items = vec![];
    for i in 0..n {
        let id = if i == 0 { Uuid::nil() } else if i == 1 { Uuid::max() } else { Uuid::from_u128((base << 40) + i as u128 * 7919) };
        ids.insert(id, i);
        let t = ts[i % 3];
        vs.insert(id, t.to_string());
        items.push(BulkInsertItem::Vertex(Vertex::with_id(id, t)));
    }
    // vertex number by listing order is what `fail` refers to
    db.bulk_insert(items).map_err(|e| format!("{:?}", e))?;
    let mut sorted: Vec<Uuid> = ids.keys().cloned().collect();
    sorted.sort();
    for (i, id) in sorted.iter().enumerate() {
        ids.insert(*id, i);
    }
    let m = Arc::new(M { threads, fail: fail.clone(), ids, delay: *r.pick(&[0, 1000, 40, 7]), n: AtomicUsize::new(0), active: AtomicUsize::new(0), seen: Mutex::new(HashMap::new()) });
    // vertices that cannot be read, at the ends and within
    let mut torn: Vec<usize> = vec![];
    if n > 0 && r.chance(1, 4) {
        for _ in 0..1 + r.below(3) {
            torn.push(match r.below(4) {
                0 => 0,
                1 => n - 1,
                2 => (999usize).min(n - 1),
                _ => r.below(n),
            });
        }
    }
    let what = format!("{} vertices, {} threads, failing calls {:?}, unreadable vertices {:?}", n, threads, fail, torn);
    let faulty = Faulty(sorted.iter().enumerate().map(|(i, id)| if torn.contains(&i) { None } else { Some(Vertex::with_id(*id, ident(&vs[id]))) }).collect());
    let res = if !torn.is_empty() {
        let t: &(dyn Transaction<'_> + '_) = &faulty;
        map(t, m.clone()).map_err(|e| format!("{}", e))
    } else {
        let txn = db.datastore.transaction();
        let txn: Box<dyn Transaction<'_> + '_> = Box::new(txn);
        map(&*txn, m.clone()).map_err(|e| format!("{}", e))
    };
    if m.active.load(SeqCst) != 0 {
        return Err(format!("{}: returned while calls are running", what));
    }
    let calls = m.n.load(SeqCst);
    std::thread::sleep(Duration::from_millis(1));
    if m.n.load(SeqCst) != calls {
        return Err(format!("{}: returned before all calls were made", what));
    }
    let seen = m.seen.lock().unwrap();
    for ((id, t), k) in seen.iter() {
        if *k != 1 {
            return Err(format!("{}: vertex {} mapped {} times", what, id, k));
        }
        if vs.get(id) != Some(t) {
            return Err(format!("{}: mapped {} of type {:?}, which is not stored", what, id, t));
        }
    }
    match (&res, fail.is_empty() && torn.is_empty()) {
        (Ok(()), true) => {
            if seen.len() != n {
                return Err(format!("{}: only {} vertices mapped", what, seen.len()));
            }
        }
        (Err(e), false) => {
            let mut may: Vec<String> = fail.iter().map(|i| format!("{}", error(*i))).collect();
            if !torn.is_empty() {
                may.push(format!("{}", indradb_plugin_host::Error::IndraDB(Error::OperationOnQuery)));
            }
            if !may.contains(e) {
                return Err(format!("{}: error {:?} is not the mapper's", what, e));
            }
        }
        _ => return Err(format!("{}: returned {:?}", what, res)),
    }
    Ok((n > 1, what))
}
