//! P16: conversions to and from protocol messages.
use crate::gen::*;
use crate::jsonlaw;
use crate::keys;
use indradb as i;
use indradb_proto as p;
use std::convert::TryInto;
use uuid::Uuid;

/// A value that serde_json's own text form preserves (see known findings).
pub fn json(r: &mut Rng) -> i::Json {
    loop {
        let v = jsonlaw::value(r, 3);
        let t = v.to_string();
        if let Ok(w) = serde_json::from_str::<serde_json::Value>(&t) {
            if format!("{:?}", w) == format!("{:?}", v) {
                return i::Json::new(v);
            }
        }
    }
}
fn vertex(r: &mut Rng) -> i::Vertex {
    i::Vertex::with_id(keys::uuid(r), keys::name(r))
}
fn edge(r: &mut Rng) -> i::Edge {
    i::Edge::new(keys::uuid(r), keys::name(r), keys::uuid(r))
}
fn np(r: &mut Rng) -> i::NamedProperty {
    i::NamedProperty::new(keys::name(r), json(r))
}
fn nps(r: &mut Rng) -> Vec<i::NamedProperty> {
    (0..count(r, 4, 70)).map(|_| np(r)).collect()
}
fn out(r: &mut Rng) -> i::QueryOutputValue {
    let n = count(r, 4, 1100);
    match r.below(5) {
        0 => i::QueryOutputValue::Vertices((0..n).map(|_| vertex(r)).collect()),
        1 => i::QueryOutputValue::Edges((0..n).map(|_| edge(r)).collect()),
        2 => i::QueryOutputValue::Count(near(r, u64::MAX).unwrap_or(*r.pick(&[0, 1, u64::MAX, 1 << 32]))),
        3 => i::QueryOutputValue::VertexProperties((0..n).map(|_| i::VertexProperties::new(vertex(r), nps(r))).collect()),
        _ => i::QueryOutputValue::EdgeProperties((0..n).map(|_| i::EdgeProperties::new(edge(r), nps(r))).collect()),
    }
}
fn item(r: &mut Rng) -> i::BulkInsertItem {
    match r.below(4) {
        0 => i::BulkInsertItem::Vertex(vertex(r)),
        1 => i::BulkInsertItem::Edge(edge(r)),
        2 => i::BulkInsertItem::VertexProperty(keys::uuid(r), keys::name(r), json(r)),
        _ => i::BulkInsertItem::EdgeProperty(edge(r), keys::name(r), json(r)),
    }
}
pub fn query(r: &mut Rng) -> i::Query {
    let mut u = Universe::new(r);
    u.ids = (0..3).map(|_| keys::uuid(r)).collect();
    u.names = (0..2).map(|_| keys::name(r)).collect();
    u.types = (0..2).map(|_| keys::name(r)).collect();
    u.values = (0..2).map(|_| json(r)).collect();
    let mut q = gen_any_query(r, &u);
    fn tweak(r: &mut Rng, q: &mut i::Query) {
        let lim = near(r, u32::MAX as u64).map_or(*r.pick(&[0, 1, 77, 65536, 1 << 31, u32::MAX - 1, u32::MAX]), |n| n as u32);
        match q {
            i::Query::RangeVertex(x) => x.limit = lim,
            i::Query::Pipe(x) => {
                x.limit = lim;
                tweak(r, &mut x.inner)
            }
            i::Query::PipeProperty(x) => tweak(r, &mut x.inner),
            i::Query::PipeWithPropertyPresence(x) => tweak(r, &mut x.inner),
            i::Query::PipeWithPropertyValue(x) => tweak(r, &mut x.inner),
            i::Query::Include(x) => tweak(r, &mut x.inner),
            i::Query::Count(x) => tweak(r, &mut x.inner),
            _ => {}
        }
    }
    tweak(r, &mut q);
    q
}
fn trip<A, B>(a: A) -> Result<(), String>
where
    A: Clone + std::fmt::Debug + Into<B>,
    B: TryInto<A> + Clone + std::fmt::Debug,
    <B as TryInto<A>>::Error: std::fmt::Debug,
{
    let m: B = a.clone().into();
    let back: Result<A, _> = m.clone().try_into();
    let same = match &back {
        // vertices compare by id only, so compare what they print as
        Ok(b) => format!("{:?}", a) == format!("{:?}", b),
        Err(_) => false,
    };
    if same {
        Ok(())
    } else {
        Err(format!("{:?} became {:?} and back {:?}", a, m, back))
    }
}

fn bad_uuid(r: &mut Rng) -> p::Uuid {
    let n = *r.pick(&[0, 1, 15, 17, 32, 36]);
    p::Uuid { value: vec![0x61; n] }
}
fn bad_ident(r: &mut Rng) -> p::Identifier {
    p::Identifier { value: r.pick(&[" ", "$", "a b", "a.b", "é!", "a\n"]).to_string() + if r.chance(1, 4) { "x" } else { "" } }
}
fn bad_ident2(r: &mut Rng) -> p::Identifier {
    if r.chance(1, 3) {
        p::Identifier { value: "b".repeat(256 + r.below(3)) }
    } else {
        bad_ident(r)
    }
}
fn bad_json(r: &mut Rng) -> p::Json {
    p::Json { value: r.pick(&["", "{", "nul", "1 2", "\"", "[1,]", "{\"a\"}", "01", "+1", "NaN"]).to_string() }
}
fn pv(r: &mut Rng) -> p::Vertex {
    vertex(r).into()
}
fn pe(r: &mut Rng) -> p::Edge {
    edge(r).into()
}
fn bad_vertex(r: &mut Rng) -> p::Vertex {
    let mut v = pv(r);
    match r.below(4) {
        0 => v.id = None,
        1 => v.t = None,
        2 => v.id = Some(bad_uuid(r)),
        _ => v.t = Some(bad_ident2(r)),
    }
    v
}
fn bad_edge(r: &mut Rng) -> p::Edge {
    let mut e = pe(r);
    match r.below(6) {
        0 => e.outbound_id = None,
        1 => e.inbound_id = None,
        2 => e.t = None,
        3 => e.outbound_id = Some(bad_uuid(r)),
        4 => e.inbound_id = Some(bad_uuid(r)),
        _ => e.t = Some(bad_ident2(r)),
    }
    e
}
fn bad_np(r: &mut Rng) -> p::NamedProperty {
    let mut x: p::NamedProperty = np(r).into();
    match r.below(4) {
        0 => x.name = None,
        1 => x.value = None,
        2 => x.name = Some(bad_ident2(r)),
        _ => x.value = Some(bad_json(r)),
    }
    x
}
fn put<T>(r: &mut Rng, v: &mut Vec<T>, x: T) {
    let k = r.below(v.len() + 1);
    v.insert(k, x);
}
pub fn bad_query(r: &mut Rng, depth: usize) -> p::Query {
    use p::QueryVariant as V;
    let qn = |r: &mut Rng| match r.below(2) {
        0 => None,
        _ => Some(bad_ident2(r)),
    };
    let good: fn(&mut Rng) -> Option<Box<p::Query>> = |r| Some(Box::new(query(r).into()));
    // a bad inner query, or a missing one
    let inner = |r: &mut Rng| if depth == 0 || r.chance(1, 2) { None } else { Some(Box::new(bad_query(r, depth - 1))) };
    let opt_name = |r: &mut Rng| if r.chance(1, 2) { None } else { Some(keys::name(r).into()) };
    let ok_name = |r: &mut Rng| -> Option<p::Identifier> { Some(keys::name(r).into()) };
    let ok_value = |r: &mut Rng| -> Option<p::Json> { Some(json(r).into()) };
    let bv = |r: &mut Rng| match r.below(2) {
        0 => None,
        _ => Some(bad_json(r)),
    };
    let q = match r.below(16) {
        0 => return p::Query { query: None },
        1 => V::RangeVertex(p::RangeVertexQuery { limit: 1, t: Some(bad_ident2(r)), start_id: None }),
        2 => V::RangeVertex(p::RangeVertexQuery { limit: 1, t: None, start_id: Some(bad_uuid(r)) }),
        3 => {
            let mut ids: Vec<p::Uuid> = (0..r.below(3)).map(|_| keys::uuid(r).into()).collect();
            let b = bad_uuid(r);
            put(r, &mut ids, b);
            V::SpecificVertex(p::SpecificVertexQuery { ids })
        }
        4 => V::VertexWithPropertyPresence(p::VertexWithPropertyPresenceQuery { name: qn(r) }),
        5 => {
            if r.chance(1, 2) {
                V::VertexWithPropertyValue(p::VertexWithPropertyValueQuery { name: qn(r), value: ok_value(r) })
            } else {
                V::VertexWithPropertyValue(p::VertexWithPropertyValueQuery { name: ok_name(r), value: bv(r) })
            }
        }
        6 => {
            let mut edges: Vec<p::Edge> = (0..r.below(3)).map(|_| pe(r)).collect();
            let b = bad_edge(r);
            put(r, &mut edges, b);
            V::SpecificEdge(p::SpecificEdgeQuery { edges })
        }
        7 => V::EdgeWithPropertyPresence(p::EdgeWithPropertyPresenceQuery { name: qn(r) }),
        8 => {
            if r.chance(1, 2) {
                V::EdgeWithPropertyValue(p::EdgeWithPropertyValueQuery { name: qn(r), value: ok_value(r) })
            } else {
                V::EdgeWithPropertyValue(p::EdgeWithPropertyValueQuery { name: ok_name(r), value: bv(r) })
            }
        }
        9 => {
            if r.chance(1, 2) {
                V::Pipe(Box::new(p::PipeQuery { inner: inner(r), direction: 0, limit: 1, t: opt_name(r) }))
            } else {
                V::Pipe(Box::new(p::PipeQuery { inner: good(r), direction: 1, limit: 1, t: Some(bad_ident2(r)) }))
            }
        }
        10 => {
            if r.chance(1, 2) {
                V::PipeProperty(Box::new(p::PipePropertyQuery { inner: inner(r), name: opt_name(r) }))
            } else {
                V::PipeProperty(Box::new(p::PipePropertyQuery { inner: good(r), name: Some(bad_ident2(r)) }))
            }
        }
        11 => {
            if r.chance(1, 2) {
                V::PipeWithPropertyPresence(Box::new(p::PipeWithPropertyPresenceQuery { inner: inner(r), name: ok_name(r), exists: true }))
            } else {
                V::PipeWithPropertyPresence(Box::new(p::PipeWithPropertyPresenceQuery { inner: good(r), name: qn(r), exists: false }))
            }
        }
        12 | 13 => match r.below(3) {
            0 => V::PipeWithPropertyValue(Box::new(p::PipeWithPropertyValueQuery { inner: inner(r), name: ok_name(r), value: ok_value(r), equal: true })),
            1 => V::PipeWithPropertyValue(Box::new(p::PipeWithPropertyValueQuery { inner: good(r), name: qn(r), value: ok_value(r), equal: true })),
            _ => V::PipeWithPropertyValue(Box::new(p::PipeWithPropertyValueQuery { inner: good(r), name: ok_name(r), value: bv(r), equal: false })),
        },
        14 => V::Include(Box::new(p::IncludeQuery { inner: inner(r) })),
        _ => V::Count(Box::new(p::CountQuery { inner: inner(r) })),
    };
    p::Query { query: Some(q) }
}
pub fn bad_item(r: &mut Rng) -> p::BulkInsertItem {
    use p::BulkInsertItemVariant as V;
    let v = match r.below(9) {
        0 => return p::BulkInsertItem { item: None },
        1 => V::Vertex(bad_vertex(r)),
        2 => V::Edge(bad_edge(r)),
        3..=5 => {
            let mut x = p::VertexPropertyBulkInsertItem { id: Some(keys::uuid(r).into()), name: Some(keys::name(r).into()), value: Some(json(r).into()) };
            match r.below(6) {
                0 => x.id = None,
                1 => x.name = None,
                2 => x.value = None,
                3 => x.id = Some(bad_uuid(r)),
                4 => x.name = Some(bad_ident2(r)),
                _ => x.value = Some(bad_json(r)),
            }
            V::VertexProperty(x)
        }
        _ => {
            let mut x = p::EdgePropertyBulkInsertItem { edge: Some(pe(r)), name: Some(keys::name(r).into()), value: Some(json(r).into()) };
            match r.below(6) {
                0 => x.edge = None,
                1 => x.name = None,
                2 => x.value = None,
                3 => x.edge = Some(bad_edge(r)),
                4 => x.name = Some(bad_ident2(r)),
                _ => x.value = Some(bad_json(r)),
            }
            V::EdgeProperty(x)
        }
    };
    p::BulkInsertItem { item: Some(v) }
}
fn bad_out(r: &mut Rng) -> p::QueryOutputValue {
    use p::QueryOutputValueVariant as V;
    let v = match r.below(7) {
        0 => return p::QueryOutputValue { value: None },
        1 => {
            let mut x: Vec<_> = (0..r.below(3)).map(|_| pv(r)).collect();
            let b = bad_vertex(r);
            put(r, &mut x, b);
            V::Vertices(p::QueryOutputVertices { vertices: x })
        }
        2 => {
            let mut x: Vec<_> = (0..r.below(3)).map(|_| pe(r)).collect();
            let b = bad_edge(r);
            put(r, &mut x, b);
            V::Edges(p::QueryOutputEdges { edges: x })
        }
        3 | 4 => {
            let mut y = p::VertexProperties { vertex: Some(pv(r)), props: vec![np(r).into()] };
            match r.below(3) {
                0 => y.vertex = None,
                1 => y.vertex = Some(bad_vertex(r)),
                _ => {
                    let b = bad_np(r);
                    put(r, &mut y.props, b)
                }
            }
            V::VertexProperties(p::QueryOutputVertexProperties { vertex_properties: vec![y] })
        }
        _ => {
            let mut y = p::EdgeProperties { edge: Some(pe(r)), props: vec![np(r).into()] };
            match r.below(3) {
                0 => y.edge = None,
                1 => y.edge = Some(bad_edge(r)),
                _ => {
                    let b = bad_np(r);
                    put(r, &mut y.props, b)
                }
            }
            V::EdgeProperties(p::QueryOutputEdgeProperties { edge_properties: vec![y] })
        }
    };
    p::QueryOutputValue { value: Some(v) }
}
fn reject<B, A>(b: B) -> Result<(), String>
where
    B: TryInto<A> + Clone + std::fmt::Debug,
    A: std::fmt::Debug,
{
    let x: Result<A, _> = b.clone().try_into();
    match x {
        Err(_) => Ok(()),
        Ok(a) => Err(format!("invalid message {:?} was accepted as {:?}", b, a)),
    }
}

pub fn case(seed: u64, case: u64) -> Result<(bool, String), String> {
    let mut r = Rng(seed ^ case.wrapping_mul(0x6a09_e667));
    let r = &mut r;
    let mut text = String::new();
    for _ in 0..60 {
        trip::<Uuid, p::Uuid>(keys::uuid(r))?;
        trip::<i::Identifier, p::Identifier>(keys::name(r))?;
        trip::<i::Json, p::Json>(json(r))?;
        trip::<i::Vertex, p::Vertex>(vertex(r))?;
        trip::<i::Edge, p::Edge>(edge(r))?;
        trip::<i::NamedProperty, p::NamedProperty>(np(r))?;
        trip::<i::VertexProperty, p::VertexProperty>(i::VertexProperty::new(keys::uuid(r), json(r)))?;
        trip::<i::EdgeProperty, p::EdgeProperty>(i::EdgeProperty::new(edge(r), json(r)))?;
        trip::<i::VertexProperties, p::VertexProperties>(i::VertexProperties::new(vertex(r), nps(r)))?;
        trip::<i::EdgeProperties, p::EdgeProperties>(i::EdgeProperties::new(edge(r), nps(r)))?;
        trip::<i::QueryOutputValue, p::QueryOutputValue>(out(r))?;
        trip::<i::BulkInsertItem, p::BulkInsertItem>(item(r))?;
        let q = query(r);
        text = format!("{:?}", q);
        trip::<i::Query, p::Query>(q.clone())?;
        trip::<(i::Query, i::Identifier, i::Json), p::SetPropertiesRequest>((q, keys::name(r), json(r)))?;
        for d in [i::EdgeDirection::Outbound, i::EdgeDirection::Inbound] {
            let m: p::EdgeDirection = d.into();
            let b: i::EdgeDirection = m.into();
            if b != d {
                return Err(format!("{:?} became {:?} and back {:?}", d, m, b));
            }
            if m as i32 != d as i32 {
                return Err(format!("{:?} is message value {}", d, m as i32));
            }
        }
        let n = keys::name(r);
        let m = p::IndexPropertyRequest { name: Some(n.into()) };
        match m.try_into() {
            Ok(x) if n == x => {}
            x => return Err(format!("index request of {:?} is {:?}", n, x)),
        }
        reject::<p::Uuid, Uuid>(bad_uuid(r))?;
        reject::<p::Identifier, i::Identifier>(bad_ident2(r))?;
        reject::<p::Json, i::Json>(bad_json(r))?;
        reject::<p::Vertex, i::Vertex>(bad_vertex(r))?;
        reject::<p::Edge, i::Edge>(bad_edge(r))?;
        reject::<p::NamedProperty, i::NamedProperty>(bad_np(r))?;
        reject::<p::Query, i::Query>(bad_query(r, 2))?;
        reject::<p::BulkInsertItem, i::BulkInsertItem>(bad_item(r))?;
        reject::<p::QueryOutputValue, i::QueryOutputValue>(bad_out(r))?;
        let bi = if r.chance(1, 2) { None } else { Some(bad_ident2(r)) };
        reject::<p::IndexPropertyRequest, i::Identifier>(p::IndexPropertyRequest { name: bi })?;
        let mut s: p::SetPropertiesRequest = (query(r), keys::name(r), json(r)).into();
        match r.below(6) {
            0 => s.q = None,
            1 => s.name = None,
            2 => s.value = None,
            3 => s.q = Some(bad_query(r, 2)),
            4 => s.name = Some(bad_ident2(r)),
            _ => s.value = Some(bad_json(r)),
        }
        reject::<p::SetPropertiesRequest, (i::Query, i::Identifier, i::Json)>(s)?;
        let mut vp: p::VertexProperty = i::VertexProperty::new(keys::uuid(r), json(r)).into();
        match r.below(4) {
            0 => vp.id = None,
            1 => vp.value = None,
            2 => vp.id = Some(bad_uuid(r)),
            _ => vp.value = Some(bad_json(r)),
        }
        reject::<p::VertexProperty, i::VertexProperty>(vp)?;
        let mut ep: p::EdgeProperty = i::EdgeProperty::new(edge(r), json(r)).into();
        match r.below(4) {
            0 => ep.edge = None,
            1 => ep.value = None,
            2 => ep.edge = Some(bad_edge(r)),
            _ => ep.value = Some(bad_json(r)),
        }
        reject::<p::EdgeProperty, i::EdgeProperty>(ep)?;
    }
    Ok((true, format!("60 rounds over all message types, e.g. {}", text)))
}
