//! Executable reference model of the datastore semantics: the declarative
//! meaning of every `Database` operation, written from the property
//! statements (never from a datastore's code).  It is the oracle the
//! replay/bounded harness compares the real code against.
use indradb::*;
use std::result::Result;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use uuid::Uuid;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EdgeOrder {
    /// (outbound, type string, inbound)
    Lexicographic,
    /// (outbound, type length, type bytes, inbound)
    LengthPrefixed,
}

pub type EKey = (Uuid, Vec<u8>, Uuid);
pub fn ekey(e: &Edge) -> EKey {
    (e.outbound_id, e.t.as_str().as_bytes().to_vec(), e.inbound_id)
}

#[derive(Clone, Debug)]
pub struct Model {
    pub order: EdgeOrder,
    pub vertices: BTreeMap<Uuid, Identifier>,
    pub edges: Vec<Edge>, // kept sorted by `order`
    pub vprops: BTreeMap<(Uuid, String), Json>,
    pub eprops: BTreeMap<(EKey, String), (Edge, Json)>,
    pub indexed: BTreeSet<String>,
}

#[derive(Clone, Debug)]
pub enum Op {
    CreateVertex(Uuid, Identifier),
    CreateEdge(Edge),
    Get(Query),
    Delete(Query),
    SetProps(Query, Identifier, Json),
    Bulk(Vec<BulkInsertItem>),
    Index(Identifier),
    Sync,
    Reopen,
    // direct Transaction-level calls
    TxDeleteVertices(Vec<Uuid>),
    TxDeleteEdges(Vec<Edge>),
    TxSetVertexProps(Vec<Uuid>, Identifier, Json),
    TxSetEdgeProps(Vec<Edge>, Identifier, Json),
    TxDeleteVertexProps(Vec<(Uuid, Identifier)>),
    TxDeleteEdgeProps(Vec<(Edge, Identifier)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum MErr {
    NotIndexed,
    OperationOnQuery,
    Other(String),
}

pub fn merr(e: Error) -> MErr {
    match e {
        Error::NotIndexed => MErr::NotIndexed,
        Error::OperationOnQuery => MErr::OperationOnQuery,
        e => MErr::Other(format!("{:?}", e)),
    }
}

pub fn edge_key(o: EdgeOrder, e: &Edge) -> (Uuid, usize, Vec<u8>, Uuid) {
    let l = match o {
        EdgeOrder::Lexicographic => 0,
        EdgeOrder::LengthPrefixed => e.t.as_str().len(),
    };
    (e.outbound_id, l, e.t.as_str().as_bytes().to_vec(), e.inbound_id)
}

/// Exact JSON identity: same kind, same number representation (this is the
/// relation a stored value must be preserved under).
pub fn same_json(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value::*;
    match (a, b) {
        (Null, Null) => true,
        (Bool(x), Bool(y)) => x == y,
        (String(x), String(y)) => x == y,
        (Number(x), Number(y)) => {
            if x.is_f64() || y.is_f64() {
                x.is_f64() && y.is_f64() && x.as_f64().unwrap().to_bits() == y.as_f64().unwrap().to_bits()
            } else if x.is_i64() && y.is_i64() {
                x.as_i64() == y.as_i64()
            } else {
                x.is_u64() && y.is_u64() && x.as_u64() == y.as_u64()
            }
        }
        (Array(x), Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_json(p, q)),
        (Object(x), Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| same_json(v, w)))
        }
        _ => false,
    }
}

impl Model {
    pub fn new(order: EdgeOrder) -> Self {
        Model {
            order,
            vertices: BTreeMap::new(),
            edges: vec![],
            vprops: BTreeMap::new(),
            eprops: BTreeMap::new(),
            indexed: BTreeSet::new(),
        }
    }
    pub fn has_edge(&self, e: &Edge) -> bool {
        self.place(e).is_ok()
    }
    fn place(&self, e: &Edge) -> Result<usize, usize> {
        let k = edge_key(self.order, e);
        self.edges.binary_search_by(|x| x.outbound_id.cmp(&k.0).then_with(|| edge_key(self.order, x).cmp(&k)))
    }
    pub fn add_edge(&mut self, e: &Edge) {
        if let Err(i) = self.place(e) {
            self.edges.insert(i, e.clone());
        }
    }
    pub fn create_vertex(&mut self, id: Uuid, t: Identifier) -> bool {
        if self.vertices.contains_key(&id) {
            return false;
        }
        self.vertices.insert(id, t);
        true
    }
    pub fn create_edge(&mut self, e: &Edge) -> bool {
        if !self.vertices.contains_key(&e.outbound_id) || !self.vertices.contains_key(&e.inbound_id) {
            return false;
        }
        self.add_edge(e);
        true
    }
    pub fn eprop(&self, e: &Edge, n: &str) -> Option<&Json> {
        self.eprops.get(&(ekey(e), n.to_string())).map(|x| &x.1)
    }
    pub fn set_eprop(&mut self, e: &Edge, n: &str, j: &Json) {
        self.eprops.insert((ekey(e), n.to_string()), (e.clone(), j.clone()));
    }
    pub fn del_eprop(&mut self, e: &Edge, n: &str) {
        self.eprops.remove(&(ekey(e), n.to_string()));
    }
    /// the properties stored for one edge
    fn eps<'a>(&'a self, e: &Edge) -> impl Iterator<Item = (&'a String, &'a Json)> + 'a {
        let k = ekey(e);
        self.eprops.range((k.clone(), String::new())..).take_while(move |x| x.0 .0 == k).map(|((_, n), (_, j))| (n, j))
    }
    pub fn delete_edge(&mut self, e: &Edge) {
        if let Ok(i) = self.place(e) {
            self.edges.remove(i);
        }
        let ns: Vec<String> = self.eps(e).map(|x| x.0.clone()).collect();
        for n in ns {
            self.del_eprop(e, &n);
        }
    }
    pub fn delete_vertex(&mut self, id: Uuid) {
        self.vertices.remove(&id);
        let ns: Vec<String> = self.vps(id).map(|x| x.0.clone()).collect();
        for n in ns {
            self.vprops.remove(&(id, n));
        }
        let del: Vec<Edge> = self
            .edges
            .iter()
            .filter(|e| e.outbound_id == id || e.inbound_id == id)
            .cloned()
            .collect();
        for e in del {
            self.delete_edge(&e);
        }
    }
    fn vps(&self, id: Uuid) -> impl Iterator<Item = (&String, &Json)> + '_ {
        self.vprops.range((id, String::new())..).take_while(move |x| x.0 .0 == id).map(|((_, n), j)| (n, j))
    }
    fn named(&self, mut props: Vec<NamedProperty>) -> Vec<NamedProperty> {
        props.sort_by(|a, b| a.name.as_str().as_bytes().cmp(b.name.as_str().as_bytes()));
        props
    }
    pub fn props_of_vertex(&self, id: Uuid) -> Vec<NamedProperty> {
        self.named(
            self.vps(id)
                .map(|(n, j)| NamedProperty::new(unsafe { Identifier::new_unchecked(n.clone()) }, j.clone()))
                .collect(),
        )
    }
    pub fn props_of_edge(&self, e: &Edge) -> Vec<NamedProperty> {
        self.named(
            self.eps(e)
                .map(|(n, j)| NamedProperty::new(unsafe { Identifier::new_unchecked(n.clone()) }, j.clone()))
                .collect(),
        )
    }
    fn v(&self, id: Uuid) -> Option<Vertex> {
        self.vertices.get(&id).map(|t| Vertex::with_id(id, *t))
    }

    /// The declarative meaning of a query. Output values in evaluation order.
    pub fn eval(&self, q: &Query) -> Result<Vec<QueryOutputValue>, MErr> {
        let mut out = vec![];
        self.eval_into(q, &mut out)?;
        Ok(out)
    }
    fn eval_into(&self, q: &Query, out: &mut Vec<QueryOutputValue>) -> Result<(), MErr> {
        use QueryOutputValue as V;
        let is_inc = |q: &Query| matches!(q, Query::Include(_));
        // evaluates an inner query and returns its final value; exports it
        // when it is an include.
        macro_rules! inner {
            ($i:expr) => {{
                self.eval_into($i, out)?;
                out.pop().unwrap()
            }};
        }
        let val = match q {
            Query::AllVertex => V::Vertices(self.vertices.keys().map(|i| self.v(*i).unwrap()).collect()),
            Query::RangeVertex(r) => V::Vertices(
                self.vertices
                    .iter()
                    .filter(|(id, t)| r.start_id.map_or(true, |s| **id >= s) && r.t.map_or(true, |x| x == **t))
                    .take(r.limit as usize)
                    .map(|(id, t)| Vertex::with_id(*id, *t))
                    .collect(),
            ),
            Query::SpecificVertex(s) => V::Vertices(s.ids.iter().filter_map(|i| self.v(*i)).collect()),
            Query::VertexWithPropertyPresence(p) => {
                self.idx(p.name)?;
                V::Vertices(self.vs(|v| self.vhas(v, p.name)))
            }
            Query::VertexWithPropertyValue(p) => {
                self.idx(p.name)?;
                V::Vertices(self.vs(|v| self.vval(v, p.name, &p.value)))
            }
            Query::AllEdge => V::Edges(self.edges.clone()),
            Query::SpecificEdge(s) => V::Edges(s.edges.iter().filter(|e| self.has_edge(e)).cloned().collect()),
            Query::EdgeWithPropertyPresence(p) => {
                self.idx(p.name)?;
                V::Edges(self.edges.iter().filter(|e| self.eprop(e, p.name.as_str()).is_some()).cloned().collect())
            }
            Query::EdgeWithPropertyValue(p) => {
                self.idx(p.name)?;
                V::Edges(self.edges.iter().filter(|e| self.eval_eq(e, p.name, &p.value)).cloned().collect())
            }
            Query::Pipe(p) => {
                let iv = inner!(&p.inner);
                let res = match &iv {
                    V::Edges(es) => V::Vertices(
                        es.iter()
                            .map(|e| match p.direction {
                                EdgeDirection::Outbound => e.outbound_id,
                                EdgeDirection::Inbound => e.inbound_id,
                            })
                            .filter_map(|i| self.v(i))
                            .filter(|v| p.t.map_or(true, |t| v.t == t))
                            .take(p.limit as usize)
                            .collect(),
                    ),
                    V::Vertices(vs) => {
                        let mut res = vec![];
                        let mut of: HashMap<Uuid, Vec<&Edge>> = HashMap::new();
                        for e in &self.edges {
                            of.entry(match p.direction {
                                EdgeDirection::Outbound => e.outbound_id,
                                EdgeDirection::Inbound => e.inbound_id,
                            })
                            .or_default()
                            .push(e);
                        }
                        for v in vs {
                            let mut g: Vec<Edge> = of
                                .get(&v.id)
                                .map(|es| es.iter().filter(|e| p.t.map_or(true, |t| e.t == t)).map(|e| (*e).clone()).collect())
                                .unwrap_or_default();
                            if p.direction == EdgeDirection::Inbound {
                                g.sort_by_cached_key(|e| edge_key(self.order, &e.reversed()));
                            }
                            res.extend(g);
                        }
                        res.truncate(p.limit as usize);
                        V::Edges(res)
                    }
                    _ => return Err(MErr::OperationOnQuery),
                };
                if is_inc(&p.inner) {
                    out.push(iv);
                }
                res
            }
            Query::PipeProperty(p) => {
                let iv = inner!(&p.inner);
                let pick = |ps: Vec<NamedProperty>| -> Vec<NamedProperty> {
                    ps.into_iter().filter(|x| p.name.map_or(true, |n| n == x.name)).collect()
                };
                let res = match &iv {
                    V::Edges(es) => V::EdgeProperties(
                        es.iter()
                            .map(|e| EdgeProperties::new(e.clone(), pick(self.props_of_edge(e))))
                            .filter(|x| !x.props.is_empty())
                            .collect(),
                    ),
                    V::Vertices(vs) => V::VertexProperties(
                        vs.iter()
                            .map(|v| VertexProperties::new(v.clone(), pick(self.props_of_vertex(v.id))))
                            .filter(|x| !x.props.is_empty())
                            .collect(),
                    ),
                    _ => return Err(MErr::OperationOnQuery),
                };
                if is_inc(&p.inner) {
                    out.push(iv);
                }
                res
            }
            Query::PipeWithPropertyPresence(p) => {
                let iv = inner!(&p.inner);
                let res = match &iv {
                    V::Edges(es) => {
                        self.idx(p.name)?;
                        V::Edges(es.iter().filter(|e| self.eprop(e, p.name.as_str()).is_some() == p.exists).cloned().collect())
                    }
                    V::Vertices(vs) => {
                        self.idx(p.name)?;
                        V::Vertices(vs.iter().filter(|v| self.vhas(v.id, p.name) == p.exists).cloned().collect())
                    }
                    _ => return Err(MErr::OperationOnQuery),
                };
                if is_inc(&p.inner) {
                    out.push(iv);
                }
                res
            }
            Query::PipeWithPropertyValue(p) => {
                let iv = inner!(&p.inner);
                let res = match &iv {
                    V::Edges(es) => {
                        self.idx(p.name)?;
                        V::Edges(es.iter().filter(|e| self.eval_eq(e, p.name, &p.value) == p.equal).cloned().collect())
                    }
                    V::Vertices(vs) => {
                        self.idx(p.name)?;
                        V::Vertices(vs.iter().filter(|v| self.vval(v.id, p.name, &p.value) == p.equal).cloned().collect())
                    }
                    _ => return Err(MErr::OperationOnQuery),
                };
                if is_inc(&p.inner) {
                    out.push(iv);
                }
                res
            }
            Query::Include(i) => inner!(&i.inner),
            Query::Count(c) => {
                let iv = inner!(&c.inner);
                let n = match &iv {
                    V::Vertices(x) => x.len(),
                    V::Edges(x) => x.len(),
                    V::VertexProperties(x) => x.len(),
                    V::EdgeProperties(x) => x.len(),
                    V::Count(_) => return Err(MErr::OperationOnQuery),
                };
                if is_inc(&c.inner) {
                    out.push(iv);
                }
                V::Count(n as u64)
            }
        };
        out.push(val);
        Ok(())
    }
    fn idx(&self, n: Identifier) -> Result<(), MErr> {
        if self.indexed.contains(n.as_str()) {
            Ok(())
        } else {
            Err(MErr::NotIndexed)
        }
    }
    fn vhas(&self, id: Uuid, n: Identifier) -> bool {
        self.vprops.contains_key(&(id, n.as_str().to_string()))
    }
    fn vval(&self, id: Uuid, n: Identifier, j: &Json) -> bool {
        self.vprops.get(&(id, n.as_str().to_string())).map_or(false, |x| same_json(x, j))
    }
    fn eval_eq(&self, e: &Edge, n: Identifier, j: &Json) -> bool {
        self.eprop(e, n.as_str()).map_or(false, |x| same_json(x, j))
    }
    fn vs(&self, f: impl Fn(Uuid) -> bool) -> Vec<Vertex> {
        self.vertices.keys().filter(|i| f(**i)).map(|i| self.v(*i).unwrap()).collect()
    }
    pub fn delete(&mut self, q: &Query) -> Result<(), MErr> {
        match self.eval(q)?.pop().unwrap() {
            QueryOutputValue::Vertices(vs) => {
                let ids: HashSet<Uuid> = vs.iter().map(|v| v.id).collect();
                let gone = |e: &Edge| ids.contains(&e.outbound_id) || ids.contains(&e.inbound_id);
                self.vertices.retain(|i, _| !ids.contains(i));
                self.vprops.retain(|(i, _), _| !ids.contains(i));
                let es: Vec<Edge> = self.edges.iter().filter(|e| gone(e)).cloned().collect();
                self.delete_edges(&es);
            }
            QueryOutputValue::Edges(es) => self.delete_edges(&es),
            QueryOutputValue::VertexProperties(ps) => {
                for p in ps {
                    for n in p.props {
                        self.vprops.remove(&(p.vertex.id, n.name.as_str().to_string()));
                    }
                }
            }
            QueryOutputValue::EdgeProperties(ps) => {
                for p in ps {
                    for n in p.props {
                        self.del_eprop(&p.edge, n.name.as_str());
                    }
                }
            }
            QueryOutputValue::Count(_) => return Err(MErr::OperationOnQuery),
        }
        Ok(())
    }
    fn delete_edges(&mut self, es: &[Edge]) {
        let ks: HashSet<EKey> = es.iter().map(ekey).collect();
        self.edges.retain(|e| !ks.contains(&ekey(e)));
        self.eprops.retain(|(k, _), _| !ks.contains(k));
    }
    pub fn set_props(&mut self, q: &Query, n: Identifier, j: &Json) -> Result<(), MErr> {
        match self.eval(q)?.pop().unwrap() {
            QueryOutputValue::Vertices(vs) => {
                for v in vs {
                    self.vprops.insert((v.id, n.as_str().to_string()), j.clone());
                }
            }
            QueryOutputValue::Edges(es) => {
                for e in es {
                    self.set_eprop(&e, n.as_str(), j);
                }
            }
            _ => return Err(MErr::OperationOnQuery),
        }
        Ok(())
    }
    pub fn bulk(&mut self, items: &[BulkInsertItem]) {
        if items.len() > 500 {
            // all edges at once
            let o = self.order;
            self.edges.extend(items.iter().filter_map(|i| match i {
                BulkInsertItem::Edge(e) => Some(e.clone()),
                _ => None,
            }));
            self.edges.sort_by_cached_key(|e| edge_key(o, e));
            self.edges.dedup();
        }
        for i in items {
            match i {
                BulkInsertItem::Vertex(v) => {
                    self.create_vertex(v.id, v.t);
                }
                BulkInsertItem::Edge(e) => self.add_edge(e),
                BulkInsertItem::VertexProperty(id, n, j) => {
                    self.vprops.insert((*id, n.as_str().to_string()), j.clone());
                }
                BulkInsertItem::EdgeProperty(e, n, j) => self.set_eprop(e, n.as_str(), j),
            }
        }
    }
}
