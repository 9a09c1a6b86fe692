//! P17: remote calls against the same local calls.
use crate::gen::*;
use crate::model::Op;
use crate::proto::{bad_item, bad_query};
use crate::runner::*;
use indradb::*;
use indradb_proto as p;
use std::result::Result;
use std::sync::{Arc, Mutex, OnceLock};
use tokio_stream::StreamExt;

struct Remote {
    rt: tokio::runtime::Runtime,
}
fn rt() -> &'static Remote {
    static R: OnceLock<Remote> = OnceLock::new();
    R.get_or_init(|| Remote { rt: tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap() })
}

fn err_text(e: &Error) -> String {
    format!("{}", e)
}

/// A snapshot of everything stored.
fn dump<D: Datastore>(db: &Database<D>, u: &Universe) -> String {
    let guard = db.datastore.transaction();
    let txn = unsafe { &*(&guard as *const D::Transaction<'_>) };
    let mut s = String::new();
    for v in txn.all_vertices().unwrap() {
        let v = v.unwrap();
        s += &format!("{:?}", v);
        for x in txn.all_vertex_properties_for_vertex(&v).unwrap() {
            s += &format!("{:?}", x.unwrap());
        }
    }
    for e in txn.all_edges().unwrap() {
        s += &format!("{:?}", e.unwrap());
    }
    for e in txn.range_reversed_edges(Edge::new(Default::default(), Default::default(), Default::default())).unwrap() {
        s += &format!("{:?}", e.unwrap());
    }
    for e in u.edges() {
        for x in txn.all_edge_properties_for_edge(&e).unwrap() {
            s += &format!("{:?}{:?}", e, x.unwrap());
        }
    }
    for n in &u.names {
        let mut v: Option<Vec<_>> = txn.vertex_ids_with_property(*n).unwrap().map(|i| i.map(|x| x.unwrap()).collect());
        v.as_mut().map(|v| v.sort());
        let e: Option<usize> = txn.edges_with_property(*n).unwrap().map(|i| i.count());
        s += &format!("{:?}{:?}{:?}", n, v, e);
    }
    s
}

static PORTS: Mutex<()> = Mutex::new(());

pub fn case(seed: u64, case: u64) -> Result<(bool, String), String> {
    let mut r = Rng(seed ^ case.wrapping_mul(0xbb67_ae85));
    let u = Universe::new(&mut r);
    let local = MemoryDatastore::new_db();
    let dir = tempfile::tempdir().unwrap();
    let fail_sync = r.chance(1, 5);
    // a database whose sync fails tells whether sync is called and its error returned
    let remote = Arc::new(if fail_sync { MemoryDatastore::create_msgpack_db(dir.path().join("no/such/dir")) } else { MemoryDatastore::create_msgpack_db(dir.path().join("img")) });
    let mut m = crate::model::Model::new(crate::model::EdgeOrder::Lexicographic);
    let prof = Profile { orphans: false, adversarial: false, w: [6, 8, 8, 4, 6, 4, 3, 1, 0, 0, 0, 0] };
    let _ = &PORTS;
    rt().rt.block_on(async {
        let listener = tokio::net::TcpListener::bind("127.0.0.1:0").await.map_err(|e| e.to_string()).unwrap();
        let addr = listener.local_addr().unwrap();
        let with_plugins = r.chance(1, 3);
        let served = remote.clone();
        let srv = tokio::spawn(async move {
            if with_plugins {
                let lib = std::env::current_exe().unwrap().with_file_name("libvecho.so");
                let _ = unsafe { p::run_server_with_plugins(served, listener, &lib.to_string_lossy()).await };
            } else {
                let _ = p::run_server(served, listener).await;
            }
        });
        let ep: tonic::transport::Endpoint = format!("http://{}", addr).parse().unwrap();
        let res = async {
            let mut c = p::Client::new(ep.clone()).await.map_err(|e| format!("connect: {}", e))?;
            let mut raw = p::ProtoClient::connect(ep.clone()).await.map_err(|e| format!("connect: {}", e))?;
            c.ping().await.map_err(|e| format!("ping failed: {}", e))?;
            let mut log = vec![];
            let mut asked: Option<Query> = None;
            for _ in 0..30 {
                let op = gen_op(&mut r, &u, &m, &prof);
                let name = op_name(&op);
                log.push(format!("{:?}", op));
                let bad = |x: String| -> Result<(), String> { Err(format!("{}\n  after {}", x, log.join("\n  "))) };
                macro_rules! cmp {
                    ($l:expr, $r:expr) => {{
                        let (l, g) = ($l, $r);
                        match (&l, &g) {
                            (Ok(a), Ok(b)) => {
                                if format!("{:?}", a) != format!("{:?}", b) {
                                    bad(format!("{}: remote {:?}, local {:?}", name, b, a))?;
                                }
                            }
                            (Err(a), Err(p::ClientError::Grpc { inner })) => {
                                if inner.code() != tonic::Code::Internal || !inner.message().contains(&err_text(a)) {
                                    bad(format!("{}: remote status {:?}, local error {}", name, inner, a))?;
                                }
                            }
                            _ => bad(format!("{}: remote {:?}, local {:?}", name, g, l))?,
                        }
                    }};
                }
                // asked before and after what is done
                let around = (!matches!(op, Op::Get(_)) && r.chance(1, 3)).then(|| {
                    let inner: Query = if r.chance(2, 3) { AllVertexQuery.into() } else { AllEdgeQuery.into() };
                    match &op {
                        Op::SetProps(_, n, _) => Query::PipeWithPropertyPresence(PipeWithPropertyPresenceQuery { inner: Box::new(inner), name: *n, exists: r.chance(1, 2) }),
                        _ if r.chance(1, 2) => Query::Include(IncludeQuery { inner: Box::new(inner) }),
                        _ => inner,
                    }
                });
                if let Some(q) = &around {
                    let _ = c.get(q.clone()).await;
                    asked = around.clone();
                }
                match &op {
                    Op::CreateVertex(id, t) => {
                        let v = Vertex::with_id(*id, *t);
                        m.create_vertex(*id, *t);
                        cmp!(local.create_vertex(&v), c.create_vertex(&v).await)
                    }
                    Op::CreateEdge(e) => {
                        m.create_edge(e);
                        cmp!(local.create_edge(e), c.create_edge(e).await)
                    }
                    Op::Get(q) => {
                        if asked.is_none() || r.chance(1, 2) {
                            asked = Some(q.clone());
                        }
                        if ordered(q) {
                            cmp!(local.get(q.clone()), c.get(q.clone()).await)
                        } else {
                            let (l, g) = (local.get(q.clone()), c.get(q.clone()).await);
                            match (&l, &g) {
                                (Ok(a), Ok(b)) if same_out(a, b, false) => {}
                                (Err(_), Err(_)) => {}
                                _ => bad(format!("get: remote {:?}, local {:?}", g, l))?,
                            }
                        }
                    }
                    Op::Delete(q) => {
                        let _ = m.delete(q);
                        cmp!(local.delete(q.clone()), c.delete(q.clone()).await)
                    }
                    Op::SetProps(q, n, j) => {
                        let _ = m.set_props(q, *n, j);
                        cmp!(local.set_properties(q.clone(), *n, j), c.set_properties(q.clone(), *n, j).await)
                    }
                    Op::Bulk(items) => {
                        m.bulk(items);
                        cmp!(local.bulk_insert(items.clone()), c.bulk_insert(items.clone()).await)
                    }
                    Op::Index(n) => {
                        m.indexed.insert(n.to_string());
                        cmp!(local.index_property(*n), c.index_property(*n).await)
                    }
                    Op::Sync => {
                        let _ = std::fs::remove_file(dir.path().join("img"));
                        let g = c.sync().await;
                        if g.is_ok() == fail_sync {
                            bad(format!("sync: remote {:?}, expected {}", g, if fail_sync { "failure" } else { "success" }))?;
                        }
                        if !fail_sync {
                            match MemoryDatastore::read_msgpack_db(dir.path().join("img")) {
                                Ok(x) if dump(&x, &u) == dump(&*remote, &u) => {}
                                _ => bad("sync: the synced image is missing or differs".to_string())?,
                            }
                        }
                    }
                    _ => {}
                }
                // the same question again, after what happened since
                if let (Some(q), true) = (&asked, around.is_some() || r.chance(1, 3)) {
                    let (l, g) = (local.get(q.clone()), c.get(q.clone()).await);
                    match (&l, &g) {
                        (Ok(a), Ok(b)) if same_out(a, b, ordered(q)) => {}
                        (Err(_), Err(_)) => {}
                        _ => bad(format!("{:?} asked again: remote {:?}, local {:?}", q, g, l))?,
                    }
                }
                // what is sent is what arrives: also the raw messages
                if r.chance(1, 3) {
                    let t = *r.pick(&u.types);
                    let before = dump(&*remote, &u);
                    let inv = |s: Result<(), tonic::Status>, what: &str| -> Result<(), String> {
                        match s {
                            Err(s) if s.code() == tonic::Code::InvalidArgument => {}
                            x => return Err(format!("{}: status {:?}, expected InvalidArgument", what, x)),
                        }
                        if dump(&*remote, &u) != before {
                            return Err(format!("{} changed the database", what));
                        }
                        Ok(())
                    };
                    match r.below(8) {
                        0 => {
                            let id = c.create_vertex_from_type(t).await.map_err(|e| format!("create_vertex_from_type: {}", e))?;
                            let got = remote.get(SpecificVertexQuery::single(id)).unwrap();
                            match &got[0] {
                                QueryOutputValue::Vertices(v) if v.len() == 1 && v[0].t == t && v[0].id == id => {}
                                x => bad(format!("create_vertex_from_type({:?}) = {} stored {:?}", t, id, x))?,
                            }
                            remote.delete(SpecificVertexQuery::single(id)).unwrap();
                        }
                        1 => inv(raw.delete(bad_query(&mut r, 2)).await.map(|_| ()), "delete with an undecodable query")?,
                        2 => inv(raw.get(bad_query(&mut r, 2)).await.map(|_| ()), "get with an undecodable query")?,
                        3 => inv(
                            raw.set_properties(p::SetPropertiesRequest { q: Some(bad_query(&mut r, 2)), name: Some(t.into()), value: Some(ijson!(1).into()) }).await.map(|_| ()),
                            "set_properties with an undecodable query",
                        )?,
                        4 | 5 => {
                            let n = r.below(5);
                            let mut items: Vec<p::BulkInsertItem> = (0..n)
                                .map(|_| {
                                    let id = *r.pick(&u.ids);
                                    match r.below(2) {
                                        0 => BulkInsertItem::Vertex(Vertex::with_id(id, t)).into(),
                                        _ => BulkInsertItem::VertexProperty(id, u.names[0], ijson!("new")).into(),
                                    }
                                })
                                .collect();
                            let b = bad_item(&mut r);
                            let k = r.below(items.len() + 1);
                            items.insert(k, b);
                            inv(raw.bulk_insert(tokio_stream::iter(items)).await.map(|_| ()), "bulk_insert with an undecodable item")?
                        }
                        6 => inv(raw.create_vertex(p::Vertex { id: None, t: Some(t.into()) }).await.map(|_| ()), "create_vertex without id")?,
                        _ => inv(raw.index_property(p::IndexPropertyRequest { name: None }).await.map(|_| ()), "index_property without name")?,
                    }
                }
                let (a, b) = (dump(&local, &u), dump(&*remote, &u));
                if a != b {
                    bad(format!("after remote {} the database differs from the locally operated one:\n  {}\n  {}", name, b, a))?;
                }
            }
            // an unknown plugin is an error
            match c.execute_plugin("none", ijson!(1)).await {
                Err(p::ClientError::Grpc { inner }) if inner.code() == tonic::Code::NotFound => {}
                x => return Err(format!("unknown plugin: {:?}", x)),
            }
            if with_plugins {
                plugins(&mut r, &mut c, ep.clone(), &local, &remote, &u).await?;
            }
            // many items in one request and in one result
            if r.chance(1, 4) {
                let n = *r.pick(&[99, 100, 101, 127, 129, 199, 201, 257, 513, 1001, 2049]);
                let most = if r.chance(1, 4) { 150_000 } else { 12000 };
                let n = near(&mut r, most).unwrap_or(n) as u128;
                let t = u.types[0];
                let mut items = vec![];
                for i in 0..n {
                    // some of them twice, with the later value winning
                    let id = uuid::Uuid::from_u128((7 << 100) + i / 2 * 2);
                    items.push(if i % 2 == 0 { BulkInsertItem::Vertex(Vertex::with_id(id, t)) } else { BulkInsertItem::VertexProperty(id, u.names[0], ijson!(i as u64)) });
                }
                items.push(BulkInsertItem::VertexProperty(uuid::Uuid::from_u128(7 << 100), u.names[0], ijson!("last")));
                if r.chance(1, 6) {
                    // a result longer than any of the requests
                    for i in 0..3 {
                        items.push(BulkInsertItem::VertexProperty(uuid::Uuid::from_u128((7 << 100) + 2 * i), u.names[0], ijson!("v".repeat(1_600_000))));
                    }
                }
                local.bulk_insert(items.clone()).unwrap();
                c.bulk_insert(items).await.map_err(|e| format!("bulk_insert of {} items: {}", n + 1, e))?;
                let q = Query::PipeProperty(PipePropertyQuery { inner: Box::new(Query::Include(IncludeQuery { inner: Box::new(AllVertexQuery.into()) })), name: None });
                let l = local.get(q.clone()).unwrap();
                let g = c.get(q).await.map_err(|e| format!("get of {} items: {}", n, e))?;
                if !same_out(&l, &g, true) {
                    return Err(crate::short(&format!("after a bulk insert of {} items: remote {:?}, local {:?}", n + 1, g, l)));
                }
            }
            // a long streamed result arrives completely and in order
            if r.chance(1, 4) {
                let depth = 1 + count(&mut r, 20, 20);
                let mut q: Query = AllVertexQuery.into();
                for _ in 0..depth {
                    q = Query::Include(IncludeQuery { inner: Box::new(q) });
                    q = Query::Pipe(PipeQuery { inner: Box::new(q), direction: EdgeDirection::Outbound, limit: 2, t: None });
                }
                let l = local.get(q.clone()).unwrap();
                let g = c.get(q).await.map_err(|e| format!("{}", e))?;
                if format!("{:?}", l) != format!("{:?}", g) {
                    return Err(format!("long result: remote {:?}, local {:?}", g, l));
                }
            }
            Ok((true, log.iter().map(|l| l.split('(').next().unwrap_or("").to_string()).collect::<Vec<_>>().join(" ")))
        }
        .await;
        srv.abort();
        let _ = tokio_stream::empty::<()>().next().await;
        res
    })
}

/// Calls of plugins act on the served database and return what the plugin does.
async fn plugins(r: &mut Rng, c: &mut p::Client, ep: tonic::transport::Endpoint, local: &Database<MemoryDatastore>, remote: &Arc<Database<MemoryDatastore>>, u: &Universe) -> Result<(), String> {
    let mut raw = p::indra_db_client::IndraDbClient::connect(ep).await.map_err(|e| format!("raw connect: {}", e))?;
    for _ in 0..3 {
        let n = local.datastore.transaction().vertex_count();
        let v = u.values[r.below(u.values.len())].clone();
        let want = |v: &Json| ijson!({"arg": *v.0, "vertices": n});
        match r.below(5) {
            0 => {
                let g = c.execute_plugin("echo", v.clone()).await.map_err(|e| format!("execute_plugin: {}", e))?;
                if !crate::model::same_json(&g, &want(&v)) {
                    return Err(format!("plugin called with {:?} returned {:?}", v, g));
                }
            }
            1 => {
                let g = c.execute_plugin("", v.clone()).await.map_err(|e| format!("execute_plugin of the empty name: {}", e))?;
                if !crate::model::same_json(&g, &v) {
                    return Err(format!("plugin returning {:?} returned {:?}", v, g));
                }
            }
            2 => {
                let g = raw.execute_plugin(p::ExecutePluginRequest { name: "echo".to_string(), arg: None }).await.map_err(|e| format!("execute_plugin without argument: {}", e))?;
                let g: Json = g.into_inner().value.ok_or("no value")?.try_into().map_err(|e| format!("{}", e))?;
                let null = ijson!(null);
                if g != want(&null) {
                    return Err(format!("plugin called without argument returned {:?}", g));
                }
            }
            3 => {
                match c.execute_plugin("echo", ijson!("fail")).await {
                    Err(p::ClientError::Grpc { inner }) if inner.code() == tonic::Code::Internal && inner.message() == "refused" => {}
                    x => return Err(format!("failing plugin: {:?}", x)),
                }
                if let Ok(x) = raw.execute_plugin(p::ExecutePluginRequest { name: "echo".to_string(), arg: Some(p::Json { value: "{".to_string() }) }).await {
                    return Err(format!("plugin called with an undecodable argument: {:?}", x));
                }
            }
            _ => {
                let arg = ijson!("clear");
                let g = c.execute_plugin("echo", arg.clone()).await.map_err(|e| format!("execute_plugin: {}", e))?;
                if g != want(&arg) {
                    return Err(format!("plugin deleting everything returned {:?}", g));
                }
                local.delete(AllVertexQuery).map_err(|e| format!("{}", e))?;
            }
        }
        let (a, b) = (dump(local, u), dump(&**remote, u));
        if a != b {
            return Err(format!("after a plugin call the database differs from the locally operated one:\n  {}\n  {}", b, a));
        }
    }
    Ok(())
}
