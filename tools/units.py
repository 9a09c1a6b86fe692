"""Which contract files there are, which functions each property rests on, and
what stands in where no contract reaches."""
import re

# unit -> template, and (regex on the function's key or verifier name, properties)
UNITS = {
    'query': {
        'template': 'query_t.vt',
        'map': [
            (r'\bquery_pipe(_vertices)?$', 'P01 P05 P11 P21'),
            (r'lib/src/database\.rs - query|output_len', 'P01 P11 P21'),
            (r'impl\|Vertex new', 'P02 P10 P13 P11 P21 P23'),
            (r'impl\|Database create', 'P02 P10 P13 P11 P21 P22 P23'),
            (r'impl\|Database get', 'P01 P11 P21 P22'),
            (r'impl\|Database delete', 'P03 P04 P10 P13 P11 P21 P22 P23'),
            (r'impl\|Database set_properties', 'P07 P10 P13 P11 P21 P22 P23'),
            (r'impl\|Database bulk_insert', 'P08 P10 P13 P11 P21 P22 P23'),
            (r'impl\|Database index_property', 'P06 P10 P13 P11 P21 P22 P23'),
        ],
    },
    'keys': {
        'template': 'keys_t.vt',
        'map': [
            (r'next_uuid|benat|lemma_succ', 'P20 P21'),
            (r'Identifier', 'P14 P21'),
            (r'utils?\.rs|Component|build|read_|lemma_', 'P09 P21'),
        ],
    },
    'mem': {
        'template': 'mem_t.vt',
        'map': [
            (r'MemoryTransaction (vertex_count|all_vertices|range_vertices|specific_vertices|edge_count|all_edges|specific_edges)$', 'P01 P11 P21'),
            (r'MemoryTransaction (range_edges|range_reversed_edges)$', 'P01 P05 P11 P21'),
            (r'MemoryTransaction (vertex_ids|edges)_with_property(_value)?$', 'P01 P06 P11 P21'),
            (r'MemoryTransaction (vertex_property|edge_property|all_vertex_properties_for_vertex|all_edge_properties_for_edge)$', 'P01 P07 P11 P21'),
            (r'MemoryTransaction create_(vertex|edge)$', 'P02 P08 P11 P21'),
            (r'MemoryTransaction delete_vertices$', 'P03 P11 P21'),
            (r'MemoryTransaction delete_edges$', 'P03 P04 P11 P21'),
            (r'MemoryTransaction delete_(vertex|edge)_properties$', 'P03 P04 P06 P07 P11 P21'),
            (r'MemoryTransaction set_(vertex|edge)_properties$', 'P06 P07 P08 P11 P21'),
            (r'MemoryTransaction index_property$', 'P06 P11 P21'),
            (r'trait\|Transaction bulk_insert', 'P08 P11 P21'),
        ],
    },
    # the query builders
    'build': {
        'template': 'build_t.vt', 'modules': ['b'],
        'map': [(r'.', 'P18')],
    },
    # order, equality and hash of JSON values
    'json': {
        'template': 'json_t.vt', 'modules': ['jb', 'j'],
        'map': [(r'.', 'P15')],
    },
    # persisting the memory datastore; serializations
    'img': {
        'template': 'img_t.vt', 'modules': ['i'],
        'map': [
            (r'serialize$', 'P12 P13'),
            (r'MemoryTransaction<\'a> sync$', 'P12 P23'),
            (r'impl\|Database sync$', 'P12 P22 P23'),
            (r'MemoryDatastore transaction$', 'P12 P22'),
            (r'read_msgpack_db', 'P12 P23'),
            (r'.', 'P12'),
        ],
    },
    # the plugins' parallel map
    'map': {
        'template': 'map_t.vt', 'modules': ['p'],
        'map': [(r'.', 'P19')],
    },
    # values to protocol messages and back
    'conv': {
        'template': 'conv_t.vt', 'modules': ['c'], 'proto': True,
        'map': [(r'.', 'P16 P17')],
    },
    # the server's handlers and the client's methods
    'net': {
        'template': 'net_t.vt', 'modules': ['n', 'k'], 'proto': True,
        'map': [(r'.', 'P17')],
    },
    # the RocksDB key-value managers, over a byte-keyed ordered map
    'rdb': {
        'template': 'rdb_t.vt', 'modules': ['s', 'r'],
        'map': [
            (r' compact$', 'P10 P11 P13 P21'),
            (r'MetadataManager', 'P06 P10 P11 P13 P21 P23'),
            (r'VertexManager<\'a> (exists|get|iterate_for_range|new|key)$', 'P01 P02 P11 P13 P21'),
            (r'VertexManager<\'a> create$', 'P02 P08 P11 P13 P21'),
            (r'VertexManager<\'a> delete$', 'P03 P10 P11 P21'),
            (r'EdgeManager<\'a> (new|set)$', 'P02 P05 P08 P11 P21'),
            (r'EdgeManager<\'a> delete$', 'P03 P04 P05 P10 P11 P21'),
            (r'EdgeRangeManager', 'P01 P02 P03 P04 P05 P11 P21'),
            (r'take_with_prefix', 'P01 P03 P04 P05 P06 P07 P09 P11 P21'),
            (r'PropertyValueManager', 'P01 P04 P06 P11 P13 P21'),
            (r'PropertyManager<\'a> (new|key|get|iterate\w*)$', 'P01 P03 P07 P11 P13 P21'),
            (r'PropertyManager<\'a> set$', 'P06 P07 P08 P11 P13 P21'),
            (r'PropertyManager<\'a> delete$', 'P03 P04 P06 P07 P11 P13 P21'),
        ],
    },
    # the RocksDB transaction, over the managers' contracts
    'rtx': {
        'template': 'rdb_t.vt', 'modules': ['x', 'd'],
        'map': [
            (r'RocksdbTransaction<\'a> (vertex_count|all_vertices|range_vertices|specific_vertices|edge_count|all_edges|specific_edges)$', 'P01 P11 P21'),
            (r'RocksdbTransaction<\'a> (range_edges|range_reversed_edges)$', 'P01 P05 P11 P21'),
            (r'RocksdbTransaction<\'a> (vertex_ids|edges)_(with|from)_property\w*$', 'P01 P06 P11 P21'),
            (r'RocksdbTransaction<\'a> (vertex_property|edge_property|all_vertex_properties_for_vertex|all_edge_properties_for_edge)$', 'P01 P07 P11 P21'),
            (r'RocksdbTransaction<\'a> sync$', 'P10 P11 P13 P21 P23'),
            (r'RocksdbDatastore|reopened|new_dir', 'P11 P13 P21 P23'),
            (r'RocksdbTransaction<\'a> create_(vertex|edge)$', 'P02 P08 P10 P11 P13 P21 P23'),
            (r'RocksdbTransaction<\'a> delete_vertices$', 'P03 P10 P11 P13 P21 P23'),
            (r'RocksdbTransaction<\'a> delete_edges$', 'P03 P04 P10 P11 P13 P21 P23'),
            (r'RocksdbTransaction<\'a> delete_(vertex|edge)_properties$', 'P03 P04 P06 P07 P10 P11 P13 P21 P23'),
            (r'RocksdbTransaction<\'a> set_(vertex|edge)_properties$', 'P06 P07 P08 P10 P11 P13 P21 P23'),
            (r'RocksdbTransaction<\'a> index_property$', 'P06 P10 P11 P13 P21 P23'),
            (r'RocksdbTransaction<\'a> bulk_insert', 'P08 P10 P11 P13 P21 P23'),
        ],
    },
}


# what the proofs of a unit take for granted, beyond the contracts of the
# library items listed in the trusted base
COMMON = [
    'std: the contracts given to iterators, collections, Option/Result adaptors and string functions (the shims of the trusted base) hold of the real ones; iterators are evaluated eagerly, so a closure is taken to run for every item it could run for, in order',
    'the extraction keeps what a function does: its rewrites are listed in DESIGN.md and counted per run in coverage.extraction_rewrites; log and panic message texts are dropped',
    'uuid, internment: a Uuid is its 16 bytes, ordered as such; interned strings are equal exactly when their texts are',
    'memory can be allocated; Rust\'s own guarantees hold (the few unsafe blocks are read as plain blocks; their preconditions are part of the contracts)',
]
LOCKS = 'locks: a guard gives exclusive access to what it guards and is held until the end of the operation; no other thread works on a RocksDB database meanwhile (on an in-memory one the guard keeps them out); no thread panicked while it held one (P21 shows that no operation does)'
ROCKS = [
    'RocksDB: a database is an ordered map of byte strings per column family; a write batch is applied in full or, when the write fails, not at all; a scan from a key yields the following entries in order and may end in an error',
    'RocksDB: the keys in the eight column families are those this library wrote (well-formed); bincode and serde_json read back what they wrote, up to the known findings on floats and nesting',
    'column families: the database was opened with all of them (proved of new_db and new_db_with_options)',
]
ASSUME = {
    'query': [LOCKS, 'query trees are less than 2^32 levels deep (2^31 pipes in the builders); results fit in memory, their number in u64'],
    'keys': ['std::io::Cursor over bytes reads and writes what it says; a key is shorter than usize::MAX'],
    'mem': [LOCKS, 'equal JSON values have equal hashes and Eq is an equivalence (that is P15, proved in unit json), as HashMap requires'],
    'build': [],
    'json': ['f64 comparison, truncation and conversion follow IEEE 754 (axiom_f64, axiom_number); serde_json numbers are one of u64, negative i64, finite f64; a Hasher fed the same data gives the same hash'],
    'img': ['file system: rename replaces the target at once, a temporary file is a fresh one, a successful flush has put everything in the file; rmp_serde and the derived serde implementations read back what they wrote (fields skipped or renamed by attributes are noticed), up to the known finding on nesting'],
    'map': ['thread pool: jobs run one after another in some order and join waits for all of them; a job does not panic; fewer than 2^31 vertices; the plugin table is a vector of entries'],
    'conv': ['prost: the generated message types carry the fields the .proto file gives them; serde_json reads back the text it wrote, up to the known findings'],
    'net': ['tonic, prost, hyper: a message arrives as it was sent or the call fails with a status; requests nested deeper than the decoder allows are refused before the handler runs; spawned tasks run to completion, in any order, and are neither cancelled nor panic; the channel is an unbounded queue; a client\'s stream is its items in order'],
    'rdb': ROCKS,
    'rtx': [LOCKS] + ROCKS + ['RocksDB: what a successful write put in the log outlives the process, a torn write at its end is dropped as a whole, and creating a column family is atomic (for P13, P23)'],
}


def unit_props(unit):
    s = set()
    for _, ps in UNITS[unit]['map']:
        s |= set(ps.split())
    return s


def props_of(unit, name, key):
    """the properties that rest on a function; lemmas and shared helpers carry
    every property of the unit"""
    for rx, ps in UNITS[unit]['map']:
        if re.search(rx, key or '') or (key is None and re.search(rx, name)):
            return set(ps.split())
    return unit_props(unit)


KANI = {}

HIST = 'random operation histories on both datastores compared step by step with a reference model that is written from the properties'
VERUS = 'Verus proof of contracts on the extracted functions'
PROPS = {
    'P01': dict(level='proof', bounded=HIST + '; queries dominate'),
    'P02': dict(level='proof', bounded=HIST + '; creations dominate'),
    'P03': dict(level='proof', bounded=HIST + '; vertex deletions dominate'),
    'P04': dict(level='proof', bounded=HIST + '; edge and property deletions dominate'),
    'P05': dict(level='proof', bounded=HIST + '; traversals dominate'),
    'P06': dict(level='proof', bounded=HIST + '; indexed properties dominate', profiles=['dev', 'nodebug'], secs=14),
    'P07': dict(level='proof', bounded=HIST + '; property writes and reads dominate'),
    'P08': dict(level='proof', bounded=HIST + '; bulk inserts dominate'),
    'P09': dict(level='proof', bounded='random and boundary values of every key component encoded and decoded, pairs compared for order and injectivity'),
    'P10': dict(level='proof', bounded='operations that hit an unreadable record in the middle, state before and after compared'),
    'P11': dict(level='proof', bounded='random operation histories, results of the two datastores compared with each other'),
    'P12': dict(level='proof', bounded='random histories, image written and read back, compared item by item; failing writes injected by a file size limit'),
    'P13': dict(level='proof', bounded='random histories with the persistent database closed and opened again in between'),
    'P14': dict(level='proof', bounded='every length 0..600, every byte in every position class, random strings'),
    'P15': dict(level='proof', bounded='pairs and triples of generated JSON values, related by small edits'),
    'P16': dict(level='proof', bounded='generated values of every message type, converted and converted back, and malformed messages'),
    'P17': dict(level='proof', bounded='random operation histories through a real gRPC server and client, compared with the same calls on a local database'),
    'P18': dict(level='proof', bounded='random chains of builder calls compared with a typing table'),
    'P19': dict(level='proof', bounded='random vertex sets, thread counts and failing mappers through the real map'),
    'P20': dict(level='proof', bounded='random and boundary UUIDs'),
    'P21': dict(level='proof', bounded=HIST + '; adversarial arguments; overflow checks on and off', profiles=['dev', 'nodebug'], secs=14),
    'P22': dict(level='proof', bounded='two or three threads on one in-memory database, racing, and with one of them stopped before or after a chosen step of its operations until the other has ended or waits; results, final state and image compared with those of every sequential order', secs=14),
    'P23': dict(level='proof', bounded='processes killed at every kind of file-changing system call, and half-way through writes, while they create a persistent database, run random histories on it, or sync an image; the database is then opened again and compared with the state before or after the operation that was under way', secs=20),
}
for _p, _d in PROPS.items():
    _d.setdefault('units', [u for u in UNITS if _p in unit_props(u)])
    _d.setdefault('kani', [k for k in KANI if _p in KANI[k]['props'].split()])
    _d.setdefault('assumptions', list(dict.fromkeys(COMMON + [a for u in _d['units'] for a in ASSUME[u]])))
