From 200979682451ead666c65a8566bddd6409cffc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 01/16] fix: memory datastore panicked listing the properties
 of the maximum UUID's vertex

---
 lib/src/memory/datastore.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index d76a8e2..832206d 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -6,7 +6,6 @@ use std::result::Result as StdResult;
 use std::sync::{Arc, Mutex, MutexGuard};
 
 use crate::errors::{Error, Result};
-use crate::util;
 use crate::{Database, Datastore, DynIter, Edge, Identifier, Json, Transaction, Vertex};
 
 use rmp_serde::decode::Error as RmpDecodeError;
@@ -176,8 +175,10 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
     fn all_vertex_properties_for_vertex(&'a self, vertex: &Vertex) -> Result<DynIter<'a, (Identifier, Json)>> {
         let mut vertex_properties = Vec::new();
         let from = &(vertex.id, Identifier::default());
-        let to = &(util::next_uuid(vertex.id).unwrap(), Identifier::default());
-        for ((_prop_vertex_id, prop_name), prop_value) in self.internal.vertex_properties.range(from..to) {
+        for ((prop_vertex_id, prop_name), prop_value) in self.internal.vertex_properties.range(from..) {
+            if prop_vertex_id != &vertex.id {
+                break;
+            }
             vertex_properties.push((*prop_name, prop_value.clone()));
         }
         Ok(Box::new(vertex_properties.into_iter().map(Ok)))
-- 
2.43.0


From e61fa3ca1dbae37e30d64d8ade6d21e1d367b62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 02/16] fix: memory datastore only maintained the property
 index on deletes in debug builds

The index removal was an argument of debug_assert!, so release builds kept
stale index entries; debug builds panicked for properties the index did not
hold.
---
 lib/src/memory/datastore.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 832206d..84935fa 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -264,10 +264,9 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             if let Some(property_value) = self.internal.vertex_properties.remove(&prop) {
                 let (property_vertex_id, property_name) = prop;
                 if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
-                    debug_assert!(property_container
-                        .get_mut(&property_value)
-                        .unwrap()
-                        .remove(&IndexedPropertyMember::Vertex(property_vertex_id)));
+                    if let Some(members) = property_container.get_mut(&property_value) {
+                        members.remove(&IndexedPropertyMember::Vertex(property_vertex_id));
+                    }
                 }
             }
         }
@@ -279,10 +278,9 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             if let Some(property_value) = self.internal.edge_properties.remove(&prop) {
                 let (property_edge, property_name) = prop;
                 if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
-                    debug_assert!(property_container
-                        .get_mut(&property_value)
-                        .unwrap()
-                        .remove(&IndexedPropertyMember::Edge(property_edge)));
+                    if let Some(members) = property_container.get_mut(&property_value) {
+                        members.remove(&IndexedPropertyMember::Edge(property_edge));
+                    }
                 }
             }
         }
-- 
2.43.0


From 42378805196eeade2449bcec57f6adaffce215c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 03/16] fix: memory index_property skipped properties stored
 ahead of their vertex or edge

---
 lib/src/memory/datastore.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 84935fa..a337cf5 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -326,16 +326,18 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
 
     fn index_property(&mut self, name: Identifier) -> Result<()> {
         let mut property_container: HashMap<Json, HashSet<IndexedPropertyMember>> = HashMap::new();
-        for id in self.internal.vertices.keys() {
-            if let Some(value) = self.internal.vertex_properties.get(&(*id, name)) {
+        // Index every stored property rather than those of existing vertices
+        // and edges: bulk inserts may store properties ahead of their owners.
+        for ((id, prop_name), value) in self.internal.vertex_properties.iter() {
+            if *prop_name == name {
                 property_container
                     .entry(value.clone())
                     .or_default()
                     .insert(IndexedPropertyMember::Vertex(*id));
             }
         }
-        for edge in self.internal.edges.iter() {
-            if let Some(value) = self.internal.edge_properties.get(&(edge.clone(), name)) {
+        for ((edge, prop_name), value) in self.internal.edge_properties.iter() {
+            if *prop_name == name {
                 property_container
                     .entry(value.clone())
                     .or_default()
-- 
2.43.0


From e5a22b8b0e2c533002611726c2a7e60ef403938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 04/16] fix: memory edge presence queries returned edges that
 do not exist

---
 lib/src/memory/datastore.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index a337cf5..7b20f8c 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -136,8 +136,11 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             let mut edges = HashSet::<Edge>::default();
             for sub_container in container.values() {
                 for member in sub_container {
-                    if let IndexedPropertyMember::Edge(edge) = member {
-                        edges.insert(edge.clone());
+                    match member {
+                        IndexedPropertyMember::Edge(edge) if self.internal.edges.contains(edge) => {
+                            edges.insert(edge.clone());
+                        }
+                        _ => {}
                     }
                 }
             }
-- 
2.43.0


From f23bb3ce01047d144dd2fcd8b3c6c35385c50dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 05/16] fix: JSON equality disagreed with JSON hashing and was
 not transitive

Integers and floats were compared after rounding the integer to a float, so
3 == 3.0 with different hashes, 0.0 == -0.0 with different hashes, and
2^53 == 2^53 as f64 == 2^53 + 1. Compare by exact value and order an integer
before the float of the same value.
---
 lib/src/models/json.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/lib/src/models/json.rs b/lib/src/models/json.rs
index 4e35657..2e75a1f 100644
--- a/lib/src/models/json.rs
+++ b/lib/src/models/json.rs
@@ -56,6 +56,18 @@ fn hash<H: Hasher>(value: &serde_json::Value, state: &mut H) {
     }
 }
 
+/// Compares a 64-bit integer to a (finite) float by their exact numeric values,
+/// ordering the integer first when those coincide: the two are hashed
+/// differently, so they cannot be equal.
+fn cmp_integer_float(integer: i128, float: f64) -> Ordering {
+    let truncated = float.trunc();
+    match integer.cmp(&(truncated as i128)) {
+        Ordering::Equal if float < truncated => Ordering::Greater,
+        Ordering::Equal => Ordering::Less,
+        non_eq => non_eq,
+    }
+}
+
 fn partial_cmp(first: &serde_json::Value, second: &serde_json::Value) -> Option<Ordering> {
     match (first, second) {
         (serde_json::Value::Null, serde_json::Value::Null) => Some(Ordering::Equal),
@@ -71,7 +83,7 @@ fn partial_cmp(first: &serde_json::Value, second: &serde_json::Value) -> Option<
                         Err(_) => Some(Ordering::Less),
                     }
                 } else {
-                    (v1 as f64).partial_cmp(&v2.as_f64().unwrap())
+                    Some(cmp_integer_float(v1.into(), v2.as_f64().unwrap()))
                 }
             } else if v1.is_u64() {
                 let v1 = v1.as_u64().unwrap();
@@ -83,16 +95,16 @@ fn partial_cmp(first: &serde_json::Value, second: &serde_json::Value) -> Option<
                 } else if v2.is_u64() {
                     v1.partial_cmp(&v2.as_u64().unwrap())
                 } else {
-                    (v1 as f64).partial_cmp(&v2.as_f64().unwrap())
+                    Some(cmp_integer_float(v1.into(), v2.as_f64().unwrap()))
                 }
             } else {
                 let v1 = v1.as_f64().unwrap();
                 if v2.is_i64() {
-                    v1.partial_cmp(&(v2.as_i64().unwrap() as f64))
+                    Some(cmp_integer_float(v2.as_i64().unwrap().into(), v1).reverse())
                 } else if v2.is_u64() {
-                    v1.partial_cmp(&(v2.as_u64().unwrap() as f64))
+                    Some(cmp_integer_float(v2.as_u64().unwrap().into(), v1).reverse())
                 } else {
-                    v1.partial_cmp(&v2.as_f64().unwrap())
+                    Some(v1.total_cmp(&v2.as_f64().unwrap()))
                 }
             }
         }
-- 
2.43.0


From da882e7064f1917ba18410e7e697756a181a445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 06/16] fix: rocksdb vertex deletion left its inbound edges
 behind

The edges read from the reversed index were deleted without reversing them
back, so the edges into a deleted vertex, and their properties, survived.
---
 lib/src/rdb/managers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/rdb/managers.rs b/lib/src/rdb/managers.rs
index 6707782..3ee29f2 100644
--- a/lib/src/rdb/managers.rs
+++ b/lib/src/rdb/managers.rs
@@ -116,9 +116,9 @@ impl<'a> VertexManager<'a> {
         {
             let reversed_edge_range_manager = EdgeRangeManager::new_reversed(self.db);
             for item in reversed_edge_range_manager.iterate_for_root(id, None)? {
-                let edge = item?;
-                debug_assert_eq!(edge.outbound_id, id);
-                edge_manager.delete(batch, indexed_properties, &edge)?;
+                let reversed_edge = item?;
+                debug_assert_eq!(reversed_edge.outbound_id, id);
+                edge_manager.delete(batch, indexed_properties, &reversed_edge.reversed())?;
             }
         }
 
-- 
2.43.0


From 78dd9df2069d602635fd45404b174982cc4e6540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 07/16] fix: rocksdb delete_edges ignored edges whose outbound
 vertex does not exist

Such edges can be bulk inserted and are returned by queries, but could never
be deleted.
---
 lib/src/rdb/datastore.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 7bb989d..0a0ec63 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -207,9 +207,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         let mut batch = WriteBatch::default();
 
         for edge in edges.into_iter() {
-            if self.vertex_manager.get(edge.outbound_id)?.is_some() {
-                self.edge_manager.delete(&mut batch, &indexed_properties, &edge)?;
-            };
+            self.edge_manager.delete(&mut batch, &indexed_properties, &edge)?;
         }
 
         self.db.write(batch)?;
-- 
2.43.0


From 837d3c40dbb1b9b5184dc58d8340862ca1587f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 08/16] fix: rocksdb indexed edge queries returned edges that
 do not exist

---
 lib/src/rdb/datastore.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 0a0ec63..0f9ca02 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -48,6 +48,20 @@ impl<'a> RocksdbTransaction<'a> {
             Err(err) => Some(Err(err)),
         })
     }
+
+    fn edges_from_property_value_iterator(
+        &'a self,
+        iter: impl Iterator<Item = Result<EdgePropertyValueKey>> + 'a,
+    ) -> impl Iterator<Item = Result<Edge>> + 'a {
+        iter.filter_map(|item| match item {
+            Ok((_, _, edge)) => match self.edge_range_manager.contains(&edge) {
+                Ok(true) => Some(Ok(edge)),
+                Ok(false) => None,
+                Err(err) => Some(Err(err)),
+            },
+            Err(err) => Some(Err(err)),
+        })
+    }
 }
 
 impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
@@ -134,13 +148,8 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn edges_with_property(&'a self, name: Identifier) -> Result<Option<DynIter<'a, Edge>>> {
         if self.indexed_properties.read().unwrap().contains(&name) {
-            let iter = self
-                .edge_property_value_manager
-                .iterate_for_name(name)
-                .map(|r| match r {
-                    Ok((_, _, e)) => Ok(e),
-                    Err(err) => Err(err),
-                });
+            let iter = self.edge_property_value_manager.iterate_for_name(name);
+            let iter = self.edges_from_property_value_iterator(iter);
             Ok(Some(Box::new(iter)))
         } else {
             Ok(None)
@@ -149,13 +158,8 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn edges_with_property_value(&'a self, name: Identifier, value: &Json) -> Result<Option<DynIter<'a, Edge>>> {
         if self.indexed_properties.read().unwrap().contains(&name) {
-            let iter = self
-                .edge_property_value_manager
-                .iterate_for_value(name, value)
-                .map(|r| match r {
-                    Ok((_, _, e)) => Ok(e),
-                    Err(err) => Err(err),
-                });
+            let iter = self.edge_property_value_manager.iterate_for_value(name, value);
+            let iter = self.edges_from_property_value_iterator(iter);
             Ok(Some(Box::new(iter)))
         } else {
             Ok(None)
-- 
2.43.0


From 44231ce4506c189422b821857e601c2148f38848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 09/16] fix: rocksdb value queries returned items whose value
 only has the same hash

---
 lib/src/rdb/datastore.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 0f9ca02..05bdd5d 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -104,6 +104,16 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         if self.indexed_properties.read().unwrap().contains(&name) {
             let iter = self.vertex_property_value_manager.iterate_for_value(name, value);
             let iter = self.vertex_ids_from_property_value_iterator(iter);
+            // The index only holds hashes of values, which may collide.
+            let value = value.clone();
+            let iter = iter.filter_map(move |item| match item {
+                Ok(id) => match self.vertex_property_manager.get(id, name) {
+                    Ok(Some(stored)) if stored == value => Some(Ok(id)),
+                    Ok(_) => None,
+                    Err(err) => Some(Err(err)),
+                },
+                Err(err) => Some(Err(err)),
+            });
             Ok(Some(Box::new(iter)))
         } else {
             Ok(None)
@@ -160,6 +170,16 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         if self.indexed_properties.read().unwrap().contains(&name) {
             let iter = self.edge_property_value_manager.iterate_for_value(name, value);
             let iter = self.edges_from_property_value_iterator(iter);
+            // The index only holds hashes of values, which may collide.
+            let value = value.clone();
+            let iter = iter.filter_map(move |item| match item {
+                Ok(edge) => match self.edge_property_manager.get(&edge, name) {
+                    Ok(Some(stored)) if stored == value => Some(Ok(edge)),
+                    Ok(_) => None,
+                    Err(err) => Some(Err(err)),
+                },
+                Err(err) => Some(Err(err)),
+            });
             Ok(Some(Box::new(iter)))
         } else {
             Ok(None)
-- 
2.43.0


From 311ef678e606c9fff7cab85f68e12fb915ea6688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 10/16] fix: rocksdb stored unreadable property values, and
 indexed others than stored

A value nested too deeply to be parsed was stored, after which its vertex or
edge could neither be read nor deleted. A float that is parsed back to a
slightly different one was indexed by the original value, an index entry that
could never be removed.
---
 lib/src/rdb/managers.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/src/rdb/managers.rs b/lib/src/rdb/managers.rs
index 3ee29f2..4e9f0b2 100644
--- a/lib/src/rdb/managers.rs
+++ b/lib/src/rdb/managers.rs
@@ -350,14 +350,17 @@ impl<'a> VertexPropertyManager<'a> {
     ) -> Result<()> {
         let is_indexed = indexed_properties.contains(&name);
         let key = self.key(vertex_id, name);
+        let value_json = serde_json::to_vec(value)?;
+        // What is read back may differ from `value` (e.g. in the last digit of
+        // a float), or not be readable at all (e.g. if nested too deeply).
+        let stored_value: models::Json = serde_json::from_slice(&value_json)?;
         if is_indexed {
             self.delete(batch, indexed_properties, vertex_id, name)?;
         }
-        let value_json = serde_json::to_vec(value)?;
         batch.put_cf(&self.cf, &key, &value_json);
         if is_indexed {
             let vertex_property_value_manager = VertexPropertyValueManager::new(self.db);
-            vertex_property_value_manager.set(batch, vertex_id, name, value);
+            vertex_property_value_manager.set(batch, vertex_id, name, &stored_value);
         }
         Ok(())
     }
@@ -464,14 +467,17 @@ impl<'a> EdgePropertyManager<'a> {
     ) -> Result<()> {
         let is_indexed = indexed_properties.contains(&name);
         let key = self.key(edge, name);
+        let value_json = serde_json::to_vec(value)?;
+        // What is read back may differ from `value` (e.g. in the last digit of
+        // a float), or not be readable at all (e.g. if nested too deeply).
+        let stored_value: models::Json = serde_json::from_slice(&value_json)?;
         if is_indexed {
             self.delete(batch, indexed_properties, edge, name)?;
         }
-        let value_json = serde_json::to_vec(value)?;
         batch.put_cf(&self.cf, &key, &value_json);
         if is_indexed {
             let edge_property_value_manager = EdgePropertyValueManager::new(self.db);
-            edge_property_value_manager.set(batch, edge, name, value);
+            edge_property_value_manager.set(batch, edge, name, &stored_value);
         }
         Ok(())
     }
-- 
2.43.0


From 9031e34d77fa61072a345042c0992f8fc8bcfbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 11/16] fix: rocksdb bulk_insert left stale index entries for
 properties set twice

---
 lib/src/rdb/datastore.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 05bdd5d..aa2b710 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -1,4 +1,4 @@
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 use std::path::Path;
 use std::sync::{Arc, RwLock};
 
@@ -305,6 +305,12 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
+        // Replacing a property's value in the index relies on reading the
+        // value it replaces, which cannot be one in the same batch. So of the
+        // items that set the same property, only the last one is applied.
+        let mut vertex_properties = HashMap::new();
+        let mut edge_properties = HashMap::new();
+
         for item in items {
             match item {
                 BulkInsertItem::Vertex(ref vertex) => {
@@ -313,17 +319,25 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
                 BulkInsertItem::Edge(ref edge) => {
                     self.edge_manager.set(&mut batch, edge)?;
                 }
-                BulkInsertItem::VertexProperty(id, ref name, ref value) => {
-                    self.vertex_property_manager
-                        .set(&mut batch, &indexed_properties, id, *name, value)?;
+                BulkInsertItem::VertexProperty(id, name, value) => {
+                    vertex_properties.insert((id, name), value);
                 }
-                BulkInsertItem::EdgeProperty(ref edge, ref name, ref value) => {
-                    self.edge_property_manager
-                        .set(&mut batch, &indexed_properties, edge, *name, value)?;
+                BulkInsertItem::EdgeProperty(edge, name, value) => {
+                    edge_properties.insert((edge, name), value);
                 }
             }
         }
 
+        for ((id, name), value) in vertex_properties {
+            self.vertex_property_manager
+                .set(&mut batch, &indexed_properties, id, name, &value)?;
+        }
+
+        for ((edge, name), value) in edge_properties {
+            self.edge_property_manager
+                .set(&mut batch, &indexed_properties, &edge, name, &value)?;
+        }
+
         self.db.write(batch)?;
         Ok(())
     }
-- 
2.43.0


From 7402185b5accde13a22b8653ce2000ff3c82f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 12/16] fix: rocksdb considered a property indexed although
 indexing it failed

---
 lib/src/rdb/datastore.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index aa2b710..659ce85 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -344,13 +344,14 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn index_property(&mut self, name: Identifier) -> Result<()> {
         let mut indexed_properties = self.indexed_properties.write().unwrap();
-        if !indexed_properties.insert(name) {
+        let mut new_indexed_properties = indexed_properties.clone();
+        if !new_indexed_properties.insert(name) {
             return Ok(());
         }
 
         let mut batch = WriteBatch::default();
         self.metadata_manager
-            .set_indexed_properties(&mut batch, &indexed_properties)?;
+            .set_indexed_properties(&mut batch, &new_indexed_properties)?;
 
         for item in self.vertex_manager.iterate_for_range(Uuid::default()) {
             let vertex = item?;
@@ -369,6 +370,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         }
 
         self.db.write(batch)?;
+        *indexed_properties = new_indexed_properties;
         Ok(())
     }
 
-- 
2.43.0


From 7d0ab3b086b16dac4504ee3f7d46694254aeb041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 13/16] fix: rocksdb index_property skipped properties stored
 ahead of their vertex or edge

---
 lib/src/rdb/datastore.rs | 16 ++++----
 lib/src/rdb/managers.rs  | 79 ++++++++++++++++++++++++----------------
 2 files changed, 56 insertions(+), 39 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 659ce85..ce05838 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -353,17 +353,19 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         self.metadata_manager
             .set_indexed_properties(&mut batch, &new_indexed_properties)?;
 
-        for item in self.vertex_manager.iterate_for_range(Uuid::default()) {
-            let vertex = item?;
-            if let Some(property_value) = self.vertex_property_manager.get(vertex.id, name)? {
+        // Index every stored property rather than those of existing vertices
+        // and edges: bulk inserts may store properties ahead of their owners.
+        for item in self.vertex_property_manager.iterate_for_all() {
+            let (vertex_id, property_name, property_value) = item?;
+            if property_name == name {
                 self.vertex_property_value_manager
-                    .set(&mut batch, vertex.id, name, &property_value);
+                    .set(&mut batch, vertex_id, name, &property_value);
             }
         }
 
-        for item in self.edge_range_manager.iterate_for_all() {
-            let edge = item?;
-            if let Some(property_value) = self.edge_property_manager.get(&edge, name)? {
+        for item in self.edge_property_manager.iterate_for_all() {
+            let (edge, property_name, property_value) = item?;
+            if property_name == name {
                 self.edge_property_value_manager
                     .set(&mut batch, &edge, name, &property_value);
             }
diff --git a/lib/src/rdb/managers.rs b/lib/src/rdb/managers.rs
index 4e9f0b2..a176ecb 100644
--- a/lib/src/rdb/managers.rs
+++ b/lib/src/rdb/managers.rs
@@ -309,6 +309,26 @@ impl<'a> VertexPropertyManager<'a> {
         ])
     }
 
+    fn iterate<I>(&'a self, iterator: I) -> impl Iterator<Item = Result<OwnedPropertyItem>> + 'a
+    where
+        I: Iterator<Item = RocksReadResult> + 'a,
+    {
+        iterator.map(move |item| -> Result<OwnedPropertyItem> {
+            let (k, v) = item?;
+            let mut cursor = Cursor::new(k);
+            let owner_id = util::read_uuid(&mut cursor)?;
+            let name_str = util::read_fixed_length_string(&mut cursor)?;
+            let name = unsafe { models::Identifier::new_unchecked(name_str) };
+            let value = serde_json::from_slice(&v)?;
+            Ok((owner_id, name, value))
+        })
+    }
+
+    pub fn iterate_for_all(&'a self) -> impl Iterator<Item = Result<OwnedPropertyItem>> + 'a {
+        let iterator = self.db.iterator_cf(&self.cf, IteratorMode::Start);
+        self.iterate(iterator)
+    }
+
     pub fn iterate_for_owner(
         &'a self,
         vertex_id: Uuid,
@@ -321,16 +341,7 @@ impl<'a> VertexPropertyManager<'a> {
 
         let filtered = take_with_prefix(iterator, prefix);
 
-        Ok(filtered.map(move |item| -> Result<OwnedPropertyItem> {
-            let (k, v) = item?;
-            let mut cursor = Cursor::new(k);
-            let owner_id = util::read_uuid(&mut cursor)?;
-            debug_assert_eq!(vertex_id, owner_id);
-            let name_str = util::read_fixed_length_string(&mut cursor)?;
-            let name = unsafe { models::Identifier::new_unchecked(name_str) };
-            let value = serde_json::from_slice(&v)?;
-            Ok((owner_id, name, value))
-        }))
+        Ok(self.iterate(filtered))
     }
 
     pub fn get(&self, vertex_id: Uuid, name: models::Identifier) -> Result<Option<models::Json>> {
@@ -410,6 +421,31 @@ impl<'a> EdgePropertyManager<'a> {
         ])
     }
 
+    fn iterate<I>(&'a self, iterator: I) -> impl Iterator<Item = Result<EdgePropertyItem>> + 'a
+    where
+        I: Iterator<Item = RocksReadResult> + 'a,
+    {
+        iterator.map(move |item| -> Result<EdgePropertyItem> {
+            let (k, v) = item?;
+            let mut cursor = Cursor::new(k);
+            let edge_property_out_id = util::read_uuid(&mut cursor)?;
+            let edge_property_t = unsafe { util::read_identifier(&mut cursor)? };
+            let edge_property_in_id = util::read_uuid(&mut cursor)?;
+
+            let edge_property_name_str = util::read_fixed_length_string(&mut cursor)?;
+            let edge_property_name = unsafe { models::Identifier::new_unchecked(edge_property_name_str) };
+
+            let value = serde_json::from_slice(&v)?;
+            let edge_property_edge = models::Edge::new(edge_property_out_id, edge_property_t, edge_property_in_id);
+            Ok((edge_property_edge, edge_property_name, value))
+        })
+    }
+
+    pub fn iterate_for_all(&'a self) -> impl Iterator<Item = Result<EdgePropertyItem>> + 'a {
+        let iterator = self.db.iterator_cf(&self.cf, IteratorMode::Start);
+        self.iterate(iterator)
+    }
+
     pub fn iterate_for_owner(
         &'a self,
         edge: &'a models::Edge,
@@ -426,28 +462,7 @@ impl<'a> EdgePropertyManager<'a> {
 
         let filtered = take_with_prefix(iterator, prefix);
 
-        let mapped = filtered.map(move |item| -> Result<EdgePropertyItem> {
-            let (k, v) = item?;
-            let mut cursor = Cursor::new(k);
-
-            let edge_property_out_id = util::read_uuid(&mut cursor)?;
-            debug_assert_eq!(edge_property_out_id, edge.outbound_id);
-
-            let edge_property_t = unsafe { util::read_identifier(&mut cursor)? };
-            debug_assert_eq!(edge_property_t, edge.t);
-
-            let edge_property_in_id = util::read_uuid(&mut cursor)?;
-            debug_assert_eq!(edge_property_in_id, edge.inbound_id);
-
-            let edge_property_name_str = util::read_fixed_length_string(&mut cursor)?;
-            let edge_property_name = unsafe { models::Identifier::new_unchecked(edge_property_name_str) };
-
-            let value = serde_json::from_slice(&v)?;
-            let edge_property_edge = models::Edge::new(edge_property_out_id, edge_property_t, edge_property_in_id);
-            Ok((edge_property_edge, edge_property_name, value))
-        });
-
-        Ok(Box::new(mapped))
+        Ok(Box::new(self.iterate(filtered)))
     }
 
     pub fn get(&self, edge: &models::Edge, name: models::Identifier) -> Result<Option<models::Json>> {
-- 
2.43.0


From 168652bf1f6227d5df12d2e06eea1f3f7940be12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 14/16] fix: a failed write could replace the persisted image
 with a truncated one

The end of the image was only written out when the BufWriter was dropped,
which ignores errors.
---
 lib/src/memory/datastore.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 7b20f8c..d377425 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -1,6 +1,6 @@
 use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::path::PathBuf;
 use std::result::Result as StdResult;
 use std::sync::{Arc, Mutex, MutexGuard};
@@ -296,6 +296,7 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             {
                 let mut buf = BufWriter::new(temp_path.as_file());
                 rmp_serde::encode::write(&mut buf, &*self.internal)?;
+                buf.flush().map_err(|err| Error::Datastore(Box::new(err)))?;
             }
             temp_path
                 .persist(persist_path)
-- 
2.43.0


From b7ea1f3c5de7c3400249da5a1a4991d2d00c4774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:17 +0000
Subject: [PATCH 15/16] fix: a rocksdb database whose creation was interrupted
 could never be opened again

Creating a database creates its column families one by one. When the process
died in between, opening failed for good ("Column families not opened").
Open with the column families that exist and create the others.
---
 lib/src/rdb/datastore.rs | 41 ++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index ce05838..7f4e3a6 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -417,15 +417,7 @@ impl RocksdbDatastore {
 
         let db = match DB::open_cf(&opts, path, CF_NAMES) {
             Ok(db) => db,
-            Err(_) => {
-                let mut db = DB::open(&opts, path)?;
-
-                for cf_name in &CF_NAMES {
-                    db.create_cf(cf_name, &opts)?;
-                }
-
-                db
-            }
+            Err(_) => RocksdbDatastore::create_cfs(path, &opts)?,
         };
 
         let metadata_manager = MetadataManager::new(&db);
@@ -447,15 +439,7 @@ impl RocksdbDatastore {
 
         let db = match DB::open_cf(opts, path, CF_NAMES) {
             Ok(db) => db,
-            Err(_) => {
-                let mut db = DB::open(opts, path)?;
-
-                for cf_name in &CF_NAMES {
-                    db.create_cf(cf_name, opts)?;
-                }
-
-                db
-            }
+            Err(_) => RocksdbDatastore::create_cfs(path, opts)?,
         };
 
         let metadata_manager = MetadataManager::new(&db);
@@ -467,6 +451,27 @@ impl RocksdbDatastore {
         }))
     }
 
+    /// Opens a database that does not have all of its column families yet,
+    /// because it is new or because its creation was interrupted, and creates
+    /// the missing ones.
+    ///
+    /// # Arguments
+    /// * `path`: The file path to the rocksdb database.
+    /// * `opts`: The rocksdb options used on datastore.
+    fn create_cfs(path: &Path, opts: &Options) -> Result<DB> {
+        let mut existing = DB::list_cf(opts, path).unwrap_or_default();
+        existing.retain(|name| CF_NAMES.contains(&name.as_str()));
+        let mut db = DB::open_cf(opts, path, &existing)?;
+
+        for cf_name in &CF_NAMES {
+            if db.cf_handle(cf_name).is_none() {
+                db.create_cf(cf_name, opts)?;
+            }
+        }
+
+        Ok(db)
+    }
+
     /// Runs a repair operation on the rocksdb database.
     ///
     /// # Arguments
-- 
2.43.0


From 294542a7b13d5010d9e6d2a24f242007708ffc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:43 +0000
Subject: [PATCH 16/16] fix: the client refused results of more than 4 MiB

A query's output value is sent as one message, so a large enough result could
not be fetched remotely although the same local query succeeds.
---
 proto/src/client.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/proto/src/client.rs b/proto/src/client.rs
index 035a3b2..53cbc4e 100644
--- a/proto/src/client.rs
+++ b/proto/src/client.rs
@@ -88,7 +88,10 @@ impl Client {
     /// # Arguments
     /// * `endpoint`: The server endpoint.
     pub async fn new(endpoint: Endpoint) -> Result<Self, ClientError> {
-        let client = crate::ProtoClient::connect(endpoint).await?;
+        // A query's output value is one message, whatever its size.
+        let client = crate::ProtoClient::connect(endpoint)
+            .await?
+            .max_decoding_message_size(usize::MAX);
         Ok(Client(client))
     }
 
-- 
2.43.0

