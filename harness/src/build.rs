//! P18: query builders.
use crate::gen::*;
use crate::runner::out_kind;
use indradb::*;
use std::result::Result;
use uuid::Uuid;

/// What a query yields, or None if some inner query makes it ill-typed.
/// (A pipe turns vertices into edges and back.)
fn typed(q: &Query) -> Option<char> {
    match q {
        Query::Pipe(p) => match typed(&p.inner)? {
            'v' => Some('e'),
            'e' => Some('v'),
            _ => None,
        },
        Query::PipeProperty(p) => match typed(&p.inner)? {
            'v' | 'e' => Some('p'),
            _ => None,
        },
        Query::PipeWithPropertyPresence(p) => typed(&p.inner).filter(|k| *k == 'v' || *k == 'e'),
        Query::PipeWithPropertyValue(p) => typed(&p.inner).filter(|k| *k == 'v' || *k == 'e'),
        Query::Include(p) => typed(&p.inner),
        Query::Count(p) => typed(&p.inner).filter(|k| *k != 'c').map(|_| 'c'),
        _ => Some(out_kind(q)),
    }
}
/// Only queries the builders can make.
fn tree(r: &mut Rng, u: &Universe) -> Query {
    loop {
        let q = gen_any_query(r, u);
        if typed(&q).is_some() {
            return q;
        }
    }
}
fn same<T: std::fmt::Debug>(what: &str, inner: &Query, ok: bool, got: Result<T, ValidationError>, exp: Query) -> Result<(), String>
where
    T: Into<Query>,
{
    match (ok, got) {
        (true, Ok(x)) => {
            let q: Query = x.into();
            // Json equality is IndraDB's own, so compare the printed forms too
            if q != exp || format!("{:?}", q) != format!("{:?}", exp) {
                return Err(format!("{} on {:?} built {:?}, expected {:?}", what, inner, q, exp));
            }
            Ok(())
        }
        (false, Err(ValidationError::InnerQuery)) => Ok(()),
        (_, x) => Err(format!("{} on {:?}: {:?}, expected {}", what, inner, x, if ok { "success" } else { "the inner-query error" })),
    }
}
fn eq(what: &str, a: Query, b: Query) -> Result<(), String> {
    if a != b || format!("{:?}", a) != format!("{:?}", b) {
        return Err(format!("{} gives {:?}, expected {:?}", what, a, b));
    }
    Ok(())
}
macro_rules! ext {
    ($x:expr, $q:expr, $ve:expr, $n:expr, $j:expr) => {{
        let (q, ve, n, j) = ($q, $ve, $n, $j);
        let b = || Box::new(q.clone());
        same("outbound", q, ve, $x.outbound(), Query::Pipe(PipeQuery { inner: b(), direction: EdgeDirection::Outbound, limit: u32::MAX, t: None }))?;
        same("inbound", q, ve, $x.inbound(), Query::Pipe(PipeQuery { inner: b(), direction: EdgeDirection::Inbound, limit: u32::MAX, t: None }))?;
        same("with_property", q, ve, $x.with_property(n), Query::PipeWithPropertyPresence(PipeWithPropertyPresenceQuery { inner: b(), name: n, exists: true }))?;
        same("without_property", q, ve, $x.without_property(n), Query::PipeWithPropertyPresence(PipeWithPropertyPresenceQuery { inner: b(), name: n, exists: false }))?;
        same("with_property_equal_to", q, ve, $x.with_property_equal_to(n, j.clone()), Query::PipeWithPropertyValue(PipeWithPropertyValueQuery { inner: b(), name: n, value: j.clone(), equal: true }))?;
        same("with_property_not_equal_to", q, ve, $x.with_property_not_equal_to(n, j.clone()), Query::PipeWithPropertyValue(PipeWithPropertyValueQuery { inner: b(), name: n, value: j.clone(), equal: false }))?;
        same("properties", q, ve, $x.properties(), Query::PipeProperty(PipePropertyQuery { inner: b(), name: None }))?;
        eq("include", $x.include().into(), Query::Include(IncludeQuery { inner: b() }))?;
    }};
}
pub fn case(seed: u64, case: u64) -> Result<(bool, String), String> {
    let mut r = Rng(seed ^ case.wrapping_mul(0x3141_5927));
    let mut text = String::new();
    for _ in 0..30 {
        let u = Universe::new(&mut r);
        let q = tree(&mut r, &u);
        let k = typed(&q).unwrap();
        let ve = k == 'v' || k == 'e';
        let (n, m) = (*r.pick(&u.names), *r.pick(&u.types));
        let j = r.pick(&u.values).clone();
        let lim = near(&mut r, u32::MAX as u64).map_or(*r.pick(&[0, 1, 2, 1000, 65536, 1 << 31, u32::MAX - 1, u32::MAX, r.0 as u32]), |n| n as u32);
        let id = *r.pick(&u.ids);
        let b = || Box::new(q.clone());
        for d in [EdgeDirection::Outbound, EdgeDirection::Inbound] {
            let exp = |limit, t| Query::Pipe(PipeQuery { inner: b(), direction: d, limit, t });
            same("PipeQuery::new", &q, ve, PipeQuery::new(b(), d), exp(u32::MAX, None))?;
            if ve {
                let p = || PipeQuery::new(b(), d).unwrap();
                eq("PipeQuery.limit", p().limit(lim).into(), exp(lim, None))?;
                eq("PipeQuery.t", p().t(n).into(), exp(u32::MAX, Some(n)))?;
                eq("PipeQuery.t.limit", p().t(n).limit(lim).into(), exp(lim, Some(n)))?;
                eq("PipeQuery.limit.t", p().limit(lim).t(n).into(), exp(lim, Some(n)))?;
                eq("PipeQuery.t.t", p().t(m).limit(lim).t(n).limit(7).into(), exp(7, Some(n)))?;
            }
        }
        same("PipePropertyQuery::new", &q, ve, PipePropertyQuery::new(b()), Query::PipeProperty(PipePropertyQuery { inner: b(), name: None }))?;
        if ve {
            let p = PipePropertyQuery::new(b()).unwrap().name(m).name(n);
            eq("PipePropertyQuery.name", p.into(), Query::PipeProperty(PipePropertyQuery { inner: b(), name: Some(n) }))?;
            let p = PipePropertyQuery::new(b()).unwrap();
            same("PipePropertyQuery.count", &q, true, p.clone().count(), Query::Count(CountQuery { inner: Box::new(p.into()) }))?;
        }
        for e in [true, false] {
            same(
                "PipeWithPropertyPresenceQuery::new",
                &q,
                ve,
                PipeWithPropertyPresenceQuery::new(b(), n, e),
                Query::PipeWithPropertyPresence(PipeWithPropertyPresenceQuery { inner: b(), name: n, exists: e }),
            )?;
            same(
                "PipeWithPropertyValueQuery::new",
                &q,
                ve,
                PipeWithPropertyValueQuery::new(b(), n, j.clone(), e),
                Query::PipeWithPropertyValue(PipeWithPropertyValueQuery { inner: b(), name: n, value: j.clone(), equal: e }),
            )?;
        }
        same("CountQuery::new", &q, k != 'c', CountQuery::new(b()), Query::Count(CountQuery { inner: b() }))?;
        eq("IncludeQuery::new", IncludeQuery::new(b()).into(), Query::Include(IncludeQuery { inner: b() }))?;
        // setters and leaf builders
        let rv = |limit, t, start_id| Query::RangeVertex(RangeVertexQuery { limit, t, start_id });
        eq("RangeVertexQuery::new", RangeVertexQuery::new().into(), rv(u32::MAX, None, None))?;
        eq("RangeVertexQuery::default", RangeVertexQuery::default().into(), rv(u32::MAX, None, None))?;
        eq("RangeVertexQuery.limit", RangeVertexQuery::new().limit(lim).into(), rv(lim, None, None))?;
        eq("RangeVertexQuery.t", RangeVertexQuery::new().t(n).into(), rv(u32::MAX, Some(n), None))?;
        eq("RangeVertexQuery.start_id", RangeVertexQuery::new().start_id(id).into(), rv(u32::MAX, None, Some(id)))?;
        eq("RangeVertexQuery.all", RangeVertexQuery::new().start_id(id).t(n).limit(lim).into(), rv(lim, Some(n), Some(id)))?;
        eq("RangeVertexQuery.all2", RangeVertexQuery::new().limit(lim).t(n).start_id(id).into(), rv(lim, Some(n), Some(id)))?;
        let ids: Vec<Uuid> = (0..count(&mut r, 4, 3000)).map(|_| *r.pick(&u.ids)).collect();
        eq("SpecificVertexQuery::new", SpecificVertexQuery::new(ids.clone()).into(), Query::SpecificVertex(SpecificVertexQuery { ids }))?;
        eq("SpecificVertexQuery::single", SpecificVertexQuery::single(id).into(), Query::SpecificVertex(SpecificVertexQuery { ids: vec![id] }))?;
        let es: Vec<Edge> = (0..count(&mut r, 4, 3000)).map(|_| u.edge(&mut r)).collect();
        let e = u.edge(&mut r);
        eq("SpecificEdgeQuery::new", SpecificEdgeQuery::new(es.clone()).into(), Query::SpecificEdge(SpecificEdgeQuery { edges: es }))?;
        eq("SpecificEdgeQuery::single", SpecificEdgeQuery::single(e.clone()).into(), Query::SpecificEdge(SpecificEdgeQuery { edges: vec![e.clone()] }))?;
        eq("VertexWithPropertyPresenceQuery::new", VertexWithPropertyPresenceQuery::new(n).into(), Query::VertexWithPropertyPresence(VertexWithPropertyPresenceQuery { name: n }))?;
        eq("VertexWithPropertyValueQuery::new", VertexWithPropertyValueQuery::new(n, j.clone()).into(), Query::VertexWithPropertyValue(VertexWithPropertyValueQuery { name: n, value: j.clone() }))?;
        eq("EdgeWithPropertyPresenceQuery::new", EdgeWithPropertyPresenceQuery::new(n).into(), Query::EdgeWithPropertyPresence(EdgeWithPropertyPresenceQuery { name: n }))?;
        eq("EdgeWithPropertyValueQuery::new", EdgeWithPropertyValueQuery::new(n, j.clone()).into(), Query::EdgeWithPropertyValue(EdgeWithPropertyValueQuery { name: n, value: j.clone() }))?;
        eq("AllVertexQuery", AllVertexQuery.into(), Query::AllVertex)?;
        eq("AllEdgeQuery", AllEdgeQuery.into(), Query::AllEdge)?;
        // chained builders on typed queries
        macro_rules! typed_ext {
            ($($v:ident),*) => {
                match q.clone() {
                    Query::AllVertex => { ext!(AllVertexQuery, &q, ve, n, &j); same("count", &q, true, AllVertexQuery.count(), Query::Count(CountQuery { inner: b() }))? }
                    Query::AllEdge => { ext!(AllEdgeQuery, &q, ve, n, &j); same("count", &q, true, AllEdgeQuery.count(), Query::Count(CountQuery { inner: b() }))? }
                    $(Query::$v(x) => { ext!(x.clone(), &q, ve, n, &j); same("count", &q, k != 'c', x.count(), Query::Count(CountQuery { inner: b() }))? })*
                    _ => {}
                }
            };
        }
        typed_ext!(RangeVertex, SpecificVertex, VertexWithPropertyPresence, VertexWithPropertyValue, SpecificEdge, EdgeWithPropertyPresence, EdgeWithPropertyValue, Pipe, PipeWithPropertyPresence, PipeWithPropertyValue, Include);
        text = format!("{:?}", q);
    }
    Ok((true, format!("30 queries, e.g. {}", text)))
}
