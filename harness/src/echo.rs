//! A plugin to be called over the network: says what it was called with, and
//! can delete what is stored.
use indradb_plugin_host as plugin;

pub struct Echo {}
impl plugin::Plugin for Echo {
    fn call<'a>(&self, txn: &mut (dyn indradb::Transaction<'a> + 'a), arg: indradb::Json) -> Result<indradb::Json, plugin::Error> {
        let n = txn.vertex_count();
        match arg.as_str() {
            Some("fail") => return Err(plugin::Error::InvalidArgument("refused".to_string())),
            Some("clear") => {
                let all: Vec<indradb::Vertex> = {
                    let t = unsafe { &*(txn as *const (dyn indradb::Transaction<'a> + 'a)) };
                    t.all_vertices()?.collect::<Result<_, _>>()?
                };
                txn.delete_vertices(all)?;
            }
            _ => {}
        }
        Ok(indradb::Json::new(serde_json::json!({ "arg": *arg.0, "vertices": n })))
    }
}
pub struct Second {}
impl plugin::Plugin for Second {
    fn call<'a>(&self, _: &mut (dyn indradb::Transaction<'a> + 'a), arg: indradb::Json) -> Result<indradb::Json, plugin::Error> {
        Ok(arg)
    }
}
plugin::register_plugins!(1, "echo", || Box::new(crate::Echo {}), "", || Box::new(crate::Second {}));
