#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))
DB, MEM, RDS, RMG, UTIL = 'lib/src/database.rs', 'lib/src/memory/datastore.rs', 'lib/src/rdb/datastore.rs', 'lib/src/rdb/managers.rs', 'lib/src/util.rs'
Q, J, ID, ED = 'lib/src/models/queries.rs', 'lib/src/models/json.rs', 'lib/src/models/identifiers.rs', 'lib/src/models/edges.rs'
CV, SV, CL = 'proto/src/converters.rs', 'proto/src/server.rs', 'proto/src/client.rs'
mem_state = [('vertices, edges, reversed_edges, vertex_properties, edge_properties, property_values', 'the in-memory graph and its property index', MEM)]
rdb_state = [('the eight column families', 'the stored graph, its reversed edges, its property index and metadata', RDS)]

p('P01', 'Query results are exactly the items the query describes',
  'For every stored graph and every query, the returned values are exactly the vertices, edges, properties or counts that the query describes: vertices of a range in ascending id order from the start id, the requested specific items that exist in request order, the vertices at the chosen end of each piped edge, the out- or inbound edges of each piped vertex, property filters and lookups by presence or equal value, type filters applied before the limit, and never more than the limit. Every included intermediate result precedes the final value, in nesting order, and a count is the number of items its inner query returns. A lookup by an unindexed property fails with the not-indexed error, and piping from a value that has no such pipe fails with the operation-on-query error.',
  ['inputs', 'histories'], 'all stored graphs, all query trees of any depth, all limits, start ids, types and names, both datastores',
  'Tests run a few dozen fixed queries on small graphs; the query language is recursive and its combinations (limits reached mid-vertex, includes under pipes, missing vertices, dangling piped ids, boundary uuids) are unbounded.',
  [DB, MEM, RDS, RMG, Q], [('recursive query evaluation', DB), ('range/specific/property iterators', MEM), ('range/specific/property iterators', RDS), ('prefix and range scans', RMG)], mem_state + rdb_state, ['Database::get'])
p('P02', 'Creating vertices and edges changes exactly what it reports',
  'Creating a vertex succeeds exactly when no vertex has that id, and then adds exactly that vertex; otherwise it reports false and changes nothing, not even the stored type. Creating an edge succeeds exactly when both end vertices exist, and then that edge is stored (once, also when created again); otherwise it reports false and changes nothing. Creating either leaves every other vertex, edge, property and index entry as it was.',
  ['inputs', 'histories'], 'all stored graphs, all vertices and edges incl. self-loops and extreme uuids',
  'Tests create a handful of fresh items and never compare the whole remaining state.',
  [DB, MEM, RDS, RMG], [('create_vertex / create_edge', MEM), ('create_vertex / create_edge', RDS), ('EdgeManager::set', RMG)], mem_state + rdb_state, ['Database::create_vertex', 'Database::create_edge'])
p('P03', 'Deleting vertices removes everything attached to them and nothing else',
  'After deleting the vertices a query selects, those vertices, all their properties, every edge that starts or ends at one of them, and all properties of those edges are gone, from plain reads, reversed traversals, counts and index lookups alike. Every other vertex, edge, property and index result is as it was.',
  ['inputs', 'histories'], 'all stored graphs reachable by any operation sequence, all deleted sets',
  'Tests delete one vertex with a few edges; they do not look at all the places (reversed edges, edge properties, index) for every shape of graph.',
  [DB, MEM, RDS, RMG], [('delete_vertices', MEM), ('delete_vertices', RDS), ('VertexManager::delete, EdgeManager::delete', RMG)], mem_state + rdb_state, ['Database::delete', 'Database::get'])
p('P04', 'Deleting edges or properties removes exactly the selected items',
  'Deleting the edges a query selects removes exactly these edges (in both directions of traversal) and their properties; deleting properties removes exactly the selected property values. Vertices, other edges, other properties and their index results stay as they were, and deleting by a query that yields a count fails and changes nothing.',
  ['inputs', 'histories'], 'all stored graphs and all selecting queries',
  'Tests check that the deleted item is gone, not that everything else stayed, nor edges sharing prefixes, types or endpoints.',
  [DB, MEM, RDS, RMG], [('delete_edges / delete_*_properties', MEM), ('delete_edges / delete_*_properties', RDS), ('managers delete', RMG), ('Database::delete dispatch', DB)], mem_state + rdb_state, ['Database::delete'])
p('P05', 'Outbound and inbound traversal always agree',
  'At all times an edge is found by outbound traversal from its start vertex exactly when it is found by inbound traversal from its end vertex, and exactly when it is found by listing or by naming the edge; each is found once, with the same ends and type.',
  ['inputs', 'histories'], 'all operation sequences, incl. failing operations, bulk inserts and reopening',
  'The two directions are stored separately; tests rarely compare both after the same history.',
  [MEM, RDS, RMG, DB], [('reversed_edges maintenance', MEM), ('EdgeManager set/delete on both ranges', RMG)], mem_state + rdb_state, ['Database::get with outbound()/inbound()'])
p('P06', 'Property index results always agree with the stored properties',
  'Once a property name is indexed, looking up vertices or edges by presence of that property, or by a value, returns exactly the existing ones whose current stored property satisfies the lookup, each once. This holds whatever the order of indexing, writing, overwriting, deleting, bulk inserting and re-creating owners.',
  ['inputs', 'histories'], 'all operation sequences, all JSON values, all names',
  'Tests index before or after a couple of writes; stale or missing entries only appear for particular orders of overwriting, deleting and indexing.',
  [MEM, RDS, RMG, J, DB], [('property_values maintenance', MEM), ('index_property', MEM), ('index_property', RDS), ('VertexPropertyManager/EdgePropertyManager set and delete', RMG)], mem_state + rdb_state, ['Database::index_property', 'lookups by property'])
p('P07', 'A property read returns the value last written, and writes touch nothing else',
  'Setting a property on the items a query selects makes every later read of that property on exactly these items return the written value, until it is overwritten or deleted, whatever JSON value and name are used. No other property, item or count changes, and setting properties on a query that yields neither vertices nor edges fails and changes nothing.',
  ['inputs', 'histories'], 'all JSON values that the API can hold, all names, all stored graphs',
  'Tests use a few short values; encoding edge cases and key-adjacent names and owners are not covered.',
  [DB, MEM, RDS, RMG], [('set_*_properties, *_property, all_*_properties', MEM), ('set_*_properties, *_property, all_*_properties', RDS), ('property managers get/set/iterate_for_owner', RMG)], mem_state + rdb_state, ['Database::set_properties', 'properties()'])
p('P08', 'Bulk insert has the effect of inserting its items one after another',
  'A bulk insert whose vertices are new and whose edges have existing ends (stored before or given earlier in it) leaves exactly the state that inserting its items one after another leaves: vertices created, edges created in both directions, properties set with the last value given winning, and index results up to date.',
  ['inputs', 'histories'], 'all item lists, incl. repeated items and several values for one property, on all stored graphs',
  'Tests insert one item of each kind; repeated or interacting items inside one batch are not tried.',
  [DB, RDS, RMG, MEM], [('default bulk_insert', DB), ('batched bulk_insert', RDS)], mem_state + rdb_state, ['Database::bulk_insert'])
p('P09', 'Stored keys identify exactly one item and decode to it',
  'For the persistent store, distinct vertices, edges, properties and index entries have distinct keys, decoding a key gives back exactly the item it was made from, and a scan by owner or by property name selects exactly the keys of that owner or name, for all ids, all valid types and names of any length up to the maximum, including the empty one, and multi-byte characters. Keys order vertices by id and group edges by first end and type.',
  ['inputs'], 'all uuids, all identifiers (0 to 255 bytes), all component sequences used as keys',
  'Tests use short ASCII names; collisions or misparses only show for particular lengths and byte patterns.',
  [UTIL, RMG], [('build, Component::write, byte_len', UTIL), ('read_uuid, read_identifier, read_fixed_length_string, read_u64', UTIL), ('the managers key functions', RMG)], rdb_state, ['util::build and util::read_*', 'RocksDB reads after writes'])
p('P10', 'An operation on the persistent store takes effect entirely or not at all',
  'Every modifying operation on the persistent store either returns success with its whole effect stored, or returns an error with nothing changed, neither the stored data nor the set of indexed properties; it never applies a part of its items.',
  ['inputs', 'fault_sequences', 'histories'], 'all operations, all failing items or unreadable stored records at any position',
  'Tests have no failing writes; partial effects need an error in the middle of a multi-item operation.',
  [RDS, RMG], [('one WriteBatch per operation, written last', RDS), ('index_property publishes the name after the write', RDS)], rdb_state, ['Result of each Database operation'])
p('P11', 'Both datastores behave alike',
  'The same sequence of operations applied to the in-memory and to the persistent datastore gives the same results and the same observable state, except for the order of edges of one vertex that have different types and the order of results of property lookups.',
  ['inputs', 'histories'], 'all operation sequences with well-formed bulk inserts',
  'Tests run the same scenarios on both but only compare with hard-coded expectations, one scenario at a time.',
  [DB, MEM, RDS, RMG], [('one contract for both implementations of the transaction interface', DB)], mem_state + rdb_state, ['Database'])
p('P12', 'Persisted in-memory images restore the same database',
  'After a successful sync of an in-memory database with a file, reading the file gives a database with exactly the same vertices, edges in both directions, properties and indexes. A failing sync reports an error and leaves the previously persisted file complete and readable.',
  ['inputs', 'histories', 'fault_sequences'], 'all stored graphs, all values; write failures at any point of the sync',
  'Tests sync one tiny database once and never make a write fail.',
  [MEM], [('sync', MEM), ('read_msgpack_db', MEM)], mem_state, ['Database::sync', 'MemoryDatastore::read_msgpack_db'])
p('P13', 'Reopening a persistent database gives back the same database',
  'Closing and reopening a persistent database yields the same vertices, edges, properties and the same set of indexed properties, and index lookups stay maintained by operations before and after the reopening.',
  ['inputs', 'histories'], 'all operation sequences with reopenings at any position',
  'Tests do not reopen a database with contents and indexes and continue operating.',
  [RDS, RMG], [('new_db, new_db_with_options', RDS), ('MetadataManager get/set_indexed_properties', RMG)], rdb_state, ['RocksdbDatastore::new_db'])
p('P14', 'Only valid identifiers can be made through the checked constructors',
  'Building an identifier from a string, by any checked conversion, succeeds exactly when the string has at most 255 bytes and consists only of letters, digits, dashes and underscores (letters and digits in the Unicode sense), and then yields an identifier equal to that string; otherwise it fails naming the reason. Identifiers are equal, ordered and hashed as their strings.',
  ['inputs'], 'all strings',
  'Tests try three strings; the boundary length, multi-byte characters and every other character are not tried.',
  [ID], [('Identifier::new, TryFrom, FromStr', ID)], [], ['Identifier::new'])
p('P15', 'JSON values have a consistent equality, order and hash',
  'Equality of JSON values is an equivalence relation, and equal values hash equally. Their ordering is transitive and antisymmetric and agrees with equality; any two numbers, any two strings and any two booleans are comparable, and numbers order by their exact numeric value, an integer coming just before the float of the same value. Hence a value lookup finds a stored value exactly when the two are equal.',
  ['inputs'], 'all pairs and triples of JSON values',
  'Tests compare a few pairs; transitivity and hash consistency quantify over all pairs and triples, with trouble only at particular numbers.',
  [J], [('eq, cmp and hash of JSON values', J)], [], ['Json', 'lookups by value'])
p('P16', 'Values survive the conversion to and from protocol messages',
  'Converting any vertex, edge, identifier, property, JSON value, query, query result or bulk item to its protocol message and back gives an equal value. A message that lacks a required field or holds an invalid id, identifier or JSON text is rejected with an error and never turned into another value.',
  ['inputs'], 'all model values, all query trees; all messages with missing or invalid parts',
  'Tests send a few values through a server; swapped, dropped or defaulted fields show only for particular variants.',
  [CV], [('From/TryInto conversions', CV)], [], ['indradb_proto conversions'])
p('P17', 'Every remote call has the effect and result of the local call',
  'For every request, the server performs exactly the corresponding database operation with the decoded arguments and returns its result, streaming all query outputs in order; database and conversion failures, and requests nested deeper or larger than the protocol decoder accepts, come back as error statuses. A request that cannot be decoded, including a bulk insert with an undecodable item anywhere, changes nothing.',
  ['inputs', 'histories'], 'all requests, all item lists, all databases',
  'Tests run a fixed scenario over the wire with valid requests.',
  [SV, CL, CV], [('the server request handlers', SV), ('the client methods', CL)], [], ['gRPC service'])
p('P18', 'Query builders accept exactly the well-typed queries',
  'Building a pipe, property or filter query succeeds exactly when its inner query yields vertices or edges, building a count succeeds exactly when its inner query yields vertices, edges or properties, and otherwise fails with the inner-query error. A built query holds exactly the given parts with an unlimited default limit and no filter, and each setter changes only its own part.',
  ['inputs'], 'all query trees and all builder arguments',
  'Tests check only that counts cannot be nested.',
  [Q], [('new, setters, output_type', Q)], [], ['QueryExt, *Query::new'])
p('P19', 'The parallel vertex map handles every vertex once and reports failures',
  'Mapping over all vertices from a plugin calls the mapper once for every vertex and for nothing else, when no call fails, with any number of threads requested, and returns only after all calls are done. If a call fails, the map returns an error and never success.',
  ['inputs', 'schedules'], 'all vertex sets (also beyond the error-check interval), all thread counts, all failing calls',
  'The test counts a few vertices; many vertices, failing mappers and thread counts are not covered.',
  ['plugins/host/src/util.rs'], [('map', 'plugins/host/src/util.rs')], [], ['indradb_plugin_host::util::map'])
p('P20', 'The successor of a UUID is the next one',
  'The successor of any id other than the greatest is the least id greater than it, and the greatest id has none and is rejected with an error.',
  ['inputs'], 'all 2^128 ids',
  'Tests try a few ids; carries at every byte are not covered.',
  [UTIL], [('next_uuid', UTIL)], [], ['util::next_uuid'])
p('P21', 'No operation panics or leaves the database unusable',
  'No sequence of operations with any arguments panics, overflows or leaves the database locked or poisoned: each call returns a value or an error, and later calls keep working.',
  ['inputs', 'histories'], 'all operation sequences, all arguments incl. extreme limits and ids, debug and release builds',
  'Tests use ordinary arguments; panics need extreme ids, limits or missing items.',
  [DB, MEM, RDS, RMG, UTIL], [('unwraps, subtractions and slices in query evaluation and datastores', DB)], mem_state + rdb_state, ['Database'])
p('P22', 'Concurrent operations on an in-memory database act in some sequential order',
  'Operations that several threads run concurrently on one in-memory database (creations, deletions, property writes, bulk inserts, index creations, queries and syncs) each take effect at once: their results, the final state of the database and the image on disk are those that some sequential order of the same operations, one thread\'s in its order, also gives.',
  ['schedules', 'histories'], 'all interleavings of all operations of any number of threads on one in-memory database',
  'Tests are single-threaded, and a test samples a few of the schedules that are possible.',
  [DB, MEM], [('one transaction per operation', DB), ('the mutex guard a transaction holds', MEM)], mem_state, ['Database<MemoryDatastore> shared by threads'])
p('P23', 'A crash keeps every completed operation and no part of an unfinished one',
  'After the process dies at any point, reopening a persistent database yields the effects of all operations that had completed and possibly the whole effect of the one in progress, never a part of it, and the database can always be opened again.',
  ['crash_points', 'histories'], 'all crash points, incl. during creation of the database',
  'Tests never kill the process.',
  [RDS, RMG], [('write batches', RDS), ('new_db creating column families', RDS)], rdb_state, ['RocksdbDatastore::new_db after a crash'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
