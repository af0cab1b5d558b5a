"""What each check explores: harness group, harness, parameters, bound, witnesses that must be reached.
Harness parameters are explained at the harness definitions in harness/src."""
TOOLCHAIN = 'nightly-2023-10-11'
GROUPS = ['value', 'typed', 'derive', 'wrap', 'serdegrp', 'swrap', 'attrs', 'coll']
ASSUMPTIONS = [
    'The encoded program is the LLVM bitcode rustc emits for the harness linked with the crates of /repo (whole-program LTO, opt-level 1, overflow checks and debug assertions on); compiler and LLVM loader are trusted.',
    'The symbolic executor (engine/, LLVM IR subset over bit-vectors, z3) is trusted; it is cross-checked on every run by replaying explored paths natively and comparing outcome, trace and witnesses.',
    'Memory allocation never fails; a single allocation above 1 MiB, 4000 stack frames or the instruction limit is reported as a violation, not modelled further.',
    'Text of error and panic messages (core::fmt) is not modelled.',
]
def R(h, bound, reach=(), g=None, p=None, **kw):
    d = dict(group=kw.pop('group', 'value'), harness=h, bound=bound, reach=list(reach), params=p or {})
    d.update(kw); return d
Q, T = ('quick',), ('thorough',)
def both(h, bq, pq, bt, pt, reach, **kw):
    """a quick run and a deeper run that replaces it in the thorough tier"""
    return [R(h, bq, reach, p=pq, tiers=Q, **kw), R(h, bt, reach, p=pt, tiers=T, **kw)]
HEADS = 'every head with an explicit 1, 2, 4 or 8-byte argument (all values), possibly cut short, followed by 0..=%d further bytes'
TEXT = 'every text string of 0..=%d content bytes (all byte values)'
CONT = 'array of 1 or 2, map of 1 or 2, tag, then exactly %d bytes (all values)'
FREE = 'every byte string of 0..=%d bytes'
def decoding(h, qn, tn, reach, heads=(3, 3), text=(4, 5), cont=(0, 5)):
    r = both(h, FREE % qn, {0: qn}, FREE % tn, {0: tn}, reach)
    if heads[0]: r += both(h, HEADS % heads[0], {0: heads[0], 1: 1}, HEADS % heads[1], {0: heads[1], 1: 1}, reach[:2])
    if text[0]: r += both(h, TEXT % text[0], {0: text[0], 1: 2}, TEXT % text[1], {0: text[1], 1: 2}, reach[:2])
    if cont[0]: r += [R(h, CONT % cont[0], reach[:2], p={0: cont[0], 1: 3}, tiers=Q)]
    if cont[1]: r += [R(h, CONT % cont[1], reach[:2], p={0: cont[1], 1: 3}, tiers=T)]
    return r
STRUCT = lambda: both('h_struct', 'values of <=2 nodes, one of 3 heads over-long / off by one / reserved, cut short or followed by any byte', {0: 2, 4: 1}, 'values of <=3 nodes, one of 3 heads over-long, cut short or followed by any byte', {6: 5}, [1, 2, 3, 4, 5]) + [
    R('h_struct', 'values of <=5 nodes of unsigned, array and map, depth 2, exact, cut short or followed by any byte', [1, 2, 3, 4, 5], p={0: 5, 1: 0x31, 4: 2, 5: 1, 6: 1}),
    R('h_struct', 'values of <=2 nodes of negative, bytes, text, tag, any odd head', [1, 2, 3, 4, 5], p={0: 2, 1: 0x4e, 4: 1}),
    R('h_struct', 'values of <=2 nodes, exact, cut short or followed by any byte, every limit on nesting', [1, 2, 3, 4, 5], p={0: 2, 4: 1, 5: 1, 6: 1, 7: 1}),
    R('h_struct', 'values of <=5 nodes of unsigned, array and map, depth 2, exact, cut short or followed by any byte, every limit on nesting', [1, 2, 3, 4, 5], p={0: 5, 1: 0x31, 4: 2, 5: 1, 6: 1, 7: 1})]
LONG = R('h_longheads', 'heads of every kind and width with 28 arguments around the powers of two, before content one short, exact or one more (<=40 bytes), at the top, as first or last item or as key', [1, 2, 3, 4, 5])
BIG = [R('h_lengths', 'arrays of 65535, 65536, 65537 items', [3], p={0: 8, 1: 10, 2: 1, 3: 2, 92: 24}, steps=2000000000), R('h_lengths', 'maps of 65535, 65536, 65537 entries', [4], p={0: 8, 1: 10, 2: 1, 3: 3, 92: 24}, steps=2000000000)]
WRITE = lambda h, r: [R(h, 'values of <=3 nodes of every kind, depth 2, strings <=1 byte, all payload values', [1], p={}),
    R(h, 'values of <=5 nodes of unsigned, map, depth 3', [1, r], p={0: 5, 1: 0x21, 4: 3}), R(h, 'values of <=5 nodes of unsigned, array, map, depth 3', [1, r], p={0: 5, 1: 0x31, 4: 3})]
LENGTHS = [R('h_lengths', 'byte and text strings, arrays and maps of length 0,1,23,24,25,255,256,257 with symbolic content', [1, 2, 3, 4]),
    R('h_lengths', 'byte and text strings of length 65535,65536,65537', [1, 2], p={0: 8, 1: 10, 2: 2})] + BIG
PLACES = ['at the top', 'as the item of an array', 'in a tag', 'as a map key']
ORDERLONG = [R('h_order_long', 'two strings (bytes or text) of 0,1,23,24,25,55,255,256,257 ... bytes each, one symbolic, ' + PLACES[i], [1, 2, 3], p={1: i}) for i in range(4)] + [R('h_order_long', 'same, lengths up to beyond 65536', [1, 2, 3], p={0: 18}, steps=2000000000)]
MANYKEYS = both('h_manykeys', 'maps of up to 4 keys of chosen widths', {0: 4}, 'maps of up to 6 keys of chosen widths', {0: 6}, [1, 2, 3, 4])
BIGMAPS = [R('h_bigmaps', 'maps of 22..=258 entries, one key symbolic', [1, 2, 3, 4])]
def TY(h, bound, reach, *ranges, **kw):
    """runs over ranges of the type list of a harness (params 8 and 9)"""
    r = []
    for x in ranges:
        p = dict(kw.get('p', {})); p.update({8: x[0], 9: x[1]}); p.update(x[2] if len(x) > 2 else {})
        r.append(R(h, bound + ', types %d..=%d of the list' % x[:2], reach, p=p, group=kw['group'], **({'tiers': kw['tiers']} if 'tiers' in kw else {})))
    return r
ANYV = 'any value of <=2 nodes, depth 1, strings <=1 byte'
ANYV3 = 'any value of <=3 nodes, depth 2, strings <=1 byte'
MUT = 'encoding of a symbolic value with one change anywhere (replace, wrap in tag or array, add, remove, duplicate, re-key, swap)'
A2 = [1, 2]
ASKEY = 'encoding with an item turned into a key, or a map or array of one replaced by its key, value or item'
def G(g): return dict(group=g)
PRIM_ANY = both('t_prim_any', ANYV, {}, ANYV3, {0: 3, 4: 2}, A2, **G('typed'))
COLL_ANY = both('t_coll_any', ANYV, {}, ANYV3, {0: 3, 4: 2}, A2, **G('typed'))
PRIM_MUT = [R('t_prim_mut', MUT, A2, **G('typed'))]
COLL_MUT = TY('t_coll_mut', MUT, A2, (0, 18), (20, 26), **G('typed')) + TY('t_coll_mut', MUT, A2, (28, 29), (31, 36), (39, 45), **G('typed')) + TY('t_coll_mut', MUT, A2, (19, 19), (27, 27), (30, 30), (37, 38), tiers=T, **G('typed'))
HASH_MUT = TY('t_hash_mut', MUT, A2, (0, 0), (3, 5), **G('typed')) + TY('t_hash_mut', MUT, A2, (1, 1), (2, 2, {5: 0x5d}), tiers=T, **G('typed'))
LEN = 'encoding with one array, map or string made longer or shorter by repeating its items (0..=9, 12, 17, 33)'
COLL_LEN = [R('t_coll_len', LEN, [1, 2, 4], **G('typed'))]; PRIM_LEN = [R('t_prim_len', LEN, [1, 2, 4], **G('typed'))]
CONTAINERS = ['vectors', 'arrays of 2', 'options', 'pairs', 'ordered maps', 'hashed maps', 'vectors of vectors']
KEYED = ['ordered maps with 18 kinds of key', 'ordered sets of 18 kinds of item']
def coll(h, what, kinds=range(9), reach=(1,), items=2, p5=255, **kw):
    return [R(h, '%s %s' % (what, (CONTAINERS[k] + ' of 20 kinds of content' if k < 7 else KEYED[k - 7]) + (', <=%d items' % (items - 1))), reach, p={6: k, 10: items, 5: p5}, group='coll', **kw) for k in kinds]
ATTR = '14 types with every combination of field attributes'
def attr(h, what, reach=A2, p=None, **kw): return [R(h, what + ' of ' + ATTR, reach, p=p, group='attrs', **kw)]
STRUCT_ANY = both('d_struct_any', ANYV, {}, ANYV3, {0: 3, 4: 2}, A2, **G('derive'))
ENUM_ANY = both('d_enum_any', ANYV, {}, ANYV3, {0: 3, 4: 2}, A2, **G('derive'))
STRUCT_MUT = TY('d_struct_mut', ASKEY, [2], (0, 3, {5: 0x300}), (6, 100, {5: 0x300}), **G('derive')) + TY('d_struct_mut', MUT, A2, (0, 3), (6, 100), (4, 5, {5: 0x99}), **G('derive')) + TY('d_struct_mut', MUT, A2, (4, 4), (5, 5), tiers=T, **G('derive'))
ENUM_MUT = [R('d_enum_mut', MUT, A2, **G('derive')), R('d_enum_mut', ASKEY, A2, p={5: 0x300}, **G('derive'))]
KEYITEMS = [R('h_keyitems', 'maps of 2 keys, each an array, map, tag or nested array of 0..=3 items, one of them symbolic, in either order', [1, 2]), R('h_keyitems', 'same, 0..=6 items', [1, 2], p={0: 6}, tiers=T)]
WRAPS = ['map field and optional field', 'only an optional field', 'array field', 'one-element array', 'tuple', 'transparent', 'enum variants of every form', 'internally tagged variants']
def wrap(kinds, h='d_wrap', what='every value of 37 content types as ', reach=(1,), g='wrap', names=WRAPS, p=None, **kw):
    return [R(h, what + names[k], reach, p={**(p or {}), 6: k}, group=g, **kw) for k in kinds]
CUSTOM = ['map field, optional field and on its own', 'only an optional field', 'array field', 'transparent', 'enum variants', 'tagged variants']
def custom(kinds, h='d_optdef', what='every value of 10 types with a default of their own (other than values that encode as nothing) as ', **kw): return wrap(kinds, h, what, names=CUSTOM, **kw)
def swrap(h, what, kinds=(0, 1, 2, 3), **kw): return wrap(kinds, h, what, g='swrap', names=['struct field', 'tuple struct', 'one-element tuple struct', 'enum variants of every form'], **kw)
CHECKS = {
 'C01': dict(runs=decoding('h_rewrite', 5, 7, [1, 2]) + STRUCT() + LENGTHS + [LONG] + MANYKEYS),
 'C02': dict(runs=WRITE('h_roundtrip', 2) + LENGTHS + [R('h_heads', 'every 64-bit argument of unsigned, negative and tag', [1, 2])]),
 'C03': dict(runs=decoding('h_limit', 4, 6, [1, 3]) + decoding('h_lenient', 5, 6, [1, 2], heads=(1, 2)) + STRUCT()),
 'C04': dict(runs=decoding('h_strict', 5, 7, [1, 2]) + STRUCT() + LENGTHS + MANYKEYS + BIGMAPS + [LONG, R('h_heads', 'every 64-bit argument in every head width', [1, 2])]),
 'C05': dict(runs=decoding('h_lenient', 5, 6, [1, 2, 3], heads=(1, 2)) + decoding('h_lenient_tail', 3, 5, [1, 2], heads=(1, 1), cont=(0, 0)) + STRUCT() + MANYKEYS + BIGMAPS + [LONG, R('h_heads', 'every 64-bit argument in every head width', [1, 2])]),
 'C06': dict(runs=[R('h_depth', '0..=6 containers (array, map value, map key, tag), one of another kind, every limit incl. none', [1, 2], p={0: 6}),
    R('h_depth', '124..=130 containers, same', [1, 2], p={0: 130, 1: 3, 2: 124}), R('h_depth', '0..=130 containers in steps of 13, same', [1, 2], p={0: 130, 1: 13}),
    R('h_depth', '60..=70 containers, same', [1, 2], p={0: 70, 2: 60}, tiers=T), R('h_depth', '120..=130 containers, same', [1, 2], p={0: 130, 2: 120}, tiers=T),
    R('h_depth_api', '60..=70 containers through the documented entry points', [1]), R('h_depth_api', '122..=132 containers', [1, 2], p={2: 122}), R('d_depth', 'recursive derived types of 57..72 levels', [1, 2], group='derive')] + both('h_limit', FREE % 4 + ', every limit', {0: 4}, FREE % 5 + ', every limit', {0: 5}, [1, 2, 3, 4]) + STRUCT()[-2:]),
 'C07': dict(runs=[R('h_order', 'pairs of values of <=2 nodes, depth 1, every kind', [1, 2, 3], p={0: 2, 4: 1}), R('h_order', 'pairs of values of <=3 nodes of unsigned, map, tag', [1, 2, 3], p={0: 3, 1: 0x61, 4: 1}),
    R('h_order', 'pairs of values of <=3 nodes, depth 2, every kind', [1, 2, 3], tiers=T, time=2500), R('h_order3', 'triples of leaf values', [1, 2], p={0: 1, 4: 0}), R('h_order3', 'triples of <=2 nodes of unsigned, array, tag', [1, 2], p={0: 2, 4: 1, 1: 0x51}),
    R('h_order3', 'triples of strings <=2 bytes', [1, 2], p={0: 1, 4: 0, 1: 0x0c, 2: 2}),
   R('h_order_items', 'containers (arrays, maps, nested maps) of <=3 items of one kind on both sides', [1, 2, 3]),
   R('h_order', 'pairs of strings of <=4 bytes, any text', [1, 2, 3], p={0: 1, 1: 0x0c, 2: 4, 4: 0})] + ORDERLONG),
 'C08': dict(runs=[R('h_mapperm', '3 leaf keys (unsigned, bytes, text <=1 byte), every insertion order', [1, 2], p={0: 1, 4: 0, 1: 0x0d, 2: 1}, tiers=T), R('h_mapperm', '3 leaf keys (unsigned, negative), every insertion order', [1, 2], p={0: 1, 4: 0, 1: 0x03}, tiers=T),
    R('h_mapperm', '3 byte or text string keys of <=1 byte', [1, 2], p={0: 1, 4: 0, 1: 0x0c, 2: 1}),
    R('h_mapperm', '2 keys of <=3 nodes of unsigned, array, map', [1, 2], p={0: 3, 5: 2, 1: 0x31, 4: 1}), R('h_mapperm', '2 keys of <=1 node, every kind, strings <=2', [1, 2], p={0: 1, 5: 2, 2: 2, 4: 0}),
    R('h_nestedkeys', '2 keys containing maps of 1..=2 entries in any order, directly or in an array, tag or map', [1, 2]),
    R('h_write', 'values of <=5 nodes of unsigned, map, depth 3', [1, 2], p={0: 5, 1: 0x21, 4: 3})] + KEYITEMS + MANYKEYS + BIGMAPS),
 'C09': dict(runs=WRITE('h_write', 2) + LENGTHS + [R('h_heads', 'every 64-bit argument of unsigned, negative and tag', [1, 2])] + KEYITEMS + MANYKEYS + BIGMAPS),
 'C10': dict(runs=[R('h_convert', 'every i64, i32, u64, bool; 2-byte strings', [1, 2]), R('h_destructure', 'maps of 0..=3 symbolic integer keys, 3 symbolic wanted keys', [1, 2, 3, 4]), R('h_mapmacros', 'symbolic keys and values', [1, 2]), R('h_macros', 'every kind of operand (integers, booleans, strings <=2 bytes, values of <=2 nodes) in every position of the building macros', [1, 2, 3])]),
 'C26': dict(runs=both('h_api', FREE % 4, {0: 4}, FREE % 5, {0: 5}, [1, 2, 3]) + [R('h_api', HEADS % 1, [1, 2], p={0: 1, 1: 1})] + [R('s_api', FREE % 4 + ', 14 types', [1, 2, 3], p={0: 4}, **G('serdegrp')), R('s_api', HEADS % 1 + ', 14 types', [1, 2, 3], p={0: 1, 1: 1}, **G('serdegrp')), R('s_api_depth', 'recursive type of 56..=71 levels', [1, 2, 3], **G('serdegrp')), R('s_api_depth', 'recursive type of 120..=135 levels', [2, 3, 4], p={2: 120}, **G('serdegrp')), R('h_depth_api', '60..=70 containers through the documented entry points', [1]), R('h_depth_api', '122..=132 containers', [1, 2], p={2: 122})]),
 'C28': dict(runs=both('h_memory', FREE % 4, {0: 4}, FREE % 6, {0: 6}, [1, 2]) + both('h_memory', HEADS % 1, {0: 1, 1: 1}, HEADS % 3, {0: 3, 1: 1}, [1, 2]) + [R('h_memory_deep', 'nested containers with many items', [1, 2])]),
 'C11': dict(runs=[R('t_prim', 'every value of every primitive type (strings, byte vectors <=2 bytes)', [1, 2], **G('typed')), R('t_refs', 'every integer value by reference, str <=2 bytes', [1], **G('typed')), R('t_u128', 'byte strings of 0..=18 bytes as 128-bit integers', [1, 2], **G('typed')), R('t_prim_null', 'null and undefined', [1, 3], **G('typed')), R('t_long', 'strings and collections of 14 types of 16..=257 items, one symbolic', [1], **G('typed'))]),
 'C12': dict(runs=[R('t_narrow', 'every 64-bit unsigned and negative integer into each of 8 integer types', [1, 2], **G('typed')), R('t_u128', 'byte strings of 0..=18 bytes as 128-bit integers', [1, 2], **G('typed'))] + PRIM_ANY + PRIM_MUT),
 'C13': dict(runs=[R('t_coll', 'every value of 46 collection and tuple types with <=2 items', [1, 2], **G('typed')), R('t_hash', 'every value of 6 hash map and set types with <=2 items', [1, 2], **G('typed')), R('t_coll_null', 'null and undefined', [1, 3], **G('typed')), R('t_hash_null', 'null and undefined', [1, 3], **G('typed')), R('t_long', 'strings and collections of 14 types of 16..=257 items, one symbolic', [1], **G('typed'))] + COLL_LEN + coll('a_coll', 'every value of') + coll('a_coll', 'every value of', [7, 8], items=3) + coll('a_coll_len', LEN + ' of', reach=[1, 2, 4])),
 'C14': dict(runs=both('t_prim_bytes', FREE % 4, {0: 4}, FREE % 5, {0: 5}, A2, **G('typed')) + both('t_coll_bytes', FREE % 4, {0: 4}, FREE % 5, {0: 5}, A2, **G('typed')) + both('d_struct_bytes', FREE % 4, {0: 4}, FREE % 5, {0: 5}, A2, **G('derive')) + both('d_enum_bytes', FREE % 4, {0: 4}, FREE % 5, {0: 5}, A2, **G('derive'))
    + both('t_prim_bytes', HEADS % 1, {0: 1, 1: 1}, HEADS % 2, {0: 2, 1: 1}, A2, **G('typed')) + PRIM_ANY + COLL_ANY + STRUCT_ANY + ENUM_ANY + COLL_MUT + ENUM_MUT + COLL_LEN + PRIM_LEN),
 'C15': dict(runs=PRIM_ANY + COLL_ANY + STRUCT_ANY + ENUM_ANY + PRIM_MUT + COLL_MUT + COLL_LEN + PRIM_LEN + coll('a_coll_mut', MUT + ', of', [0, 2, 3, 4, 6, 7, 8], A2) + coll('a_coll_mut', MUT + ', of', [1, 5], A2, tiers=T) + coll('a_coll_len', LEN + ' of', [0, 2, 3, 4, 6, 7, 8], reach=[1, 2, 4]) + coll('a_coll_mut', MUT + ', of', [7, 8], A2, items=3, tiers=T, time=1500) + attr('a_attr_any', ANYV + ' into each') + attr('a_attr_mut', MUT + ',', tiers=T) + HASH_MUT + STRUCT_MUT + ENUM_MUT + wrap([1, 5], 'd_wrap_mut', 'encoding with one change anywhere, 37 content types as ', A2) + wrap([2, 3, 6], 'd_wrap_mut', 'encoding with one change anywhere, 9 content types as ', A2, p={9: 8}) + wrap([3, 6, 7], 'd_wrap_mut', 'encoding with one change anywhere, all content types as ', A2, tiers=T, time=1500) + custom(range(6), 'd_optdef_mut', 'encoding with one change anywhere of 10 types with a default of their own as ', reach=A2, tiers=T)),
 'C16': dict(runs=[R(h, 'null and undefined', w, **G(g)) for h, w, g in [('t_prim_null', [1, 3], 'typed'), ('t_coll_null', [1, 3], 'typed'), ('t_hash_null', [1, 3], 'typed'), ('d_struct_null', [1, 2, 3], 'derive'), ('d_enum_null', [1, 2], 'derive'), ('a_attr_null', [1, 2, 3], 'attrs')]] + coll('a_coll_null', 'null and undefined as', reach=()) + coll('a_coll_mut', 'null and undefined anywhere (one change) in', [0, 1, 2, 3, 4, 5, 6, 7, 8], A2, p5=2) + TY('t_hash_any', ANYV, A2, (0, 5), **G('typed')) + TY('t_hash_mut', MUT, A2, (0, 0, {5: 2}), (3, 5, {5: 2}), **G('typed'))
    + [R('d_subset', 'any subset of the fields of 11 structs in any order, up to 1 unknown entry', [1, 2, 4, 5], **G('derive'))] + PRIM_ANY + TY('t_coll_mut', MUT, A2, (0, 18, {5: 2}), (20, 26, {5: 2}), **G('typed')) + wrap(range(8), 'd_wrap_null', 'null and undefined for 37 content types as ', ()) + custom(range(6), 'd_optdef_null', 'null and undefined for 10 types with a default of their own as ', reach=()) + custom([1, 2, 3], 'd_optdef_mut', 'encoding with one change anywhere of 10 types with a default of their own as ', reach=A2)),
 'C17': dict(runs=[R('d_struct', 'every value of 26 struct types', [1, 2], **G('derive')), R('t_prim', 'every value of every primitive type', [1, 2], **G('typed')), R('t_coll', 'every value of 46 collection types with <=2 items', [1, 2], **G('typed')), R('d_withnot', 'every value of an optional field with its own conversion, one change', [1, 2], **G('derive')), R('d_skipif', 'every value of fields with a skip predicate', [1, 2], **G('derive')), R('d_skip', 'every value of skipped fields', [1], **G('derive'))] + attr('a_attr', 'every value') + [R('d_struct_null', 'null and undefined', [1, 2, 3], **G('derive'))] + wrap([0, 1, 5, 6, 7]) + custom([0, 1, 3, 4, 5]) + [R('d_optdef_known', 'optional fields holding a value that encodes as nothing, of types with another default', group='wrap')]),
 'C18': dict(runs=[R('d_struct', 'every value of 26 struct types', [1, 2], **G('derive')), R('d_skip', 'every value of skipped fields', [1], **G('derive')), R('d_skipif', 'every value of fields with a skip predicate', [1, 2], **G('derive')), R('d_withnot', 'every value', [1, 2], **G('derive'))] + attr('a_attr', 'every value') + attr('a_attr_any', ANYV + ' into each') + attr('a_attr_mut', MUT + ',') + attr('a_attr_len', LEN + ' of', [1, 2, 4]) + STRUCT_ANY + STRUCT_MUT + wrap([0, 1, 2, 3, 4, 5]) + custom([0, 2])),
 'C19': dict(runs=[R('d_enum', 'every value of 12 enum types', [1], **G('derive')), R('d_untagged', 'every value of an untagged enum', [1], **G('derive')), R('d_asmap', 'every value of 16 types, where a type promises to encode as a map', [1, 2], **G('derive')), R('d_skip', 'skipped variants', [1], **G('derive')), R('d_enum_null', 'null and undefined', [1, 2], **G('derive'))] + [R(h, w + ' of 2 enums with every combination of field attributes', r, p={8: 12, 9: 13}, group='attrs') for h, w, r in [('a_attr', 'every value', [1]), ('a_attr_any', ANYV, A2), ('a_attr_mut', MUT, A2), ('a_attr_len', LEN, [1, 2, 4])]] + ENUM_ANY + ENUM_MUT + wrap([6, 7]) + wrap([6], 'd_wrap_mut', ASKEY + ', 37 content types as ', A2, p={5: 0x300}) + custom([4, 5])),
 'C20': dict(runs=both('d_subset', 'any subset of the fields of 11 structs in any order, up to 1 unknown entry', {5: 1}, 'same, up to 2 unknown entries, 5 structs', {5: 2, 9: 5}, [1, 2, 4, 5], **G('derive')) + TY('d_struct_mut', MUT + ': added or re-keyed entries', A2, (0, 3, {5: 0x61}), (6, 100, {5: 0x61}), **G('derive')) + [R('d_enum_mut', 'added or re-keyed entries', A2, p={5: 0x61}, **G('derive')), R('d_skip', 'skipped fields are unknown', [1], **G('derive'))] + [R('a_subset', 'all, none, any one left out of the fields of 6 structs with every combination of attributes, an unknown entry anywhere, types %d..=%d' % (a, b), [1, 2, 4, 5], p={8: a, 9: b}, group='attrs', tiers=t) for a, b, t in [(2, 2, Q), (3, 5, Q), (0, 5, T)]]),
 'C21': dict(runs=both('t_determinism', '1..=4 entries', {0: 4}, '1..=8 entries', {0: 8}, [1, 2], **G('typed')) + [R('t_hash', 'every value of 6 hash map and set types with <=2 items', [1, 2], **G('typed')), R('d_struct', 'every value of 26 struct types', [1, 2], **G('derive')),
    R('h_mapperm', '3 byte or text string keys of <=1 byte, every insertion order', [1, 2], p={0: 1, 4: 0, 1: 0x0c, 2: 1})] + KEYITEMS),
 'C22': dict(runs=[R('s_prim', 'every value of 17 primitive types', [1], **G('serdegrp')), R('s_comp', 'every value of 26 collection, struct and enum types with <=2 items', [1], **G('serdegrp')), R('s_buffered', 'every value of tagged, untagged, flattened representations and of renamed, skipped and converted fields', [1, 2], **G('serdegrp')), R('s_long', 'strings and collections of 8 types of 16..=257 items, one symbolic', [1], **G('serdegrp')), R('s_pairs', 'maps of 0..=3 symbolic string keys in any order', [1, 2], **G('serdegrp')), R('s_prim', 'byte strings by reference', [1], p={7: 1, 8: 13, 9: 13}, **G('serdegrp'))]
    + both('s_comp_any', ANYV, {}, ANYV3, {0: 3, 4: 2}, A2, **G('serdegrp')) + both('s_prim_any', ANYV, {}, ANYV3, {0: 3, 4: 2}, A2, **G('serdegrp')) + [R('s_prim_mut', MUT, A2, **G('serdegrp'))] + TY('s_comp_mut', MUT, A2, (0, 12), (14, 15), (17, 23), (25, 25), **G('serdegrp')) + TY('s_comp_mut', MUT, A2, (13, 13), (16, 16), (24, 24), tiers=T, **G('serdegrp')) + TY('s_comp_mut', ASKEY, [2], (0, 12, {5: 0x300}), (18, 23, {5: 0x300}), **G('serdegrp')) + swrap('s_wrap', 'every value of 29 content types as ') + swrap('s_wrap_mut', 'encoding with one change anywhere, content types 11..=13 as ', (2, 3), reach=A2, p={8: 11, 9: 13})),
 'C23': dict(runs=[R('s_compat', 'every value of 34 types with both implementations', [1], **G('serdegrp')), R('s_compat_known', 'raw identifiers', **G('serdegrp'))] + swrap('s_wrap_compat', 'every value of 29 content types, both implementations, as ')),
 'C24': dict(runs=[R('s_narrow', 'every 64-bit unsigned and negative integer into each of 9 integer types', [1, 2], **G('serdegrp')), R('s_raw', 'every 64-bit unsigned and negative integer', [1, 2], **G('serdegrp')), R('s_refused', 'every float, tag, 128-bit signed integer', [1], **G('serdegrp')), R('s_floats', 'any value into types containing floats', [1, 2], **G('serdegrp')), R('s_depth', 'recursive types, 60..70 levels', [1, 2], **G('serdegrp'))]
    + both('s_prim_bytes', FREE % 4, {0: 4}, FREE % 5, {0: 5}, A2, **G('serdegrp')) + both('s_comp_bytes', FREE % 4, {0: 4}, FREE % 5, {0: 5}, A2, **G('serdegrp')) + [R('s_prim_bytes', HEADS % 1, A2, p={0: 1, 1: 1}, **G('serdegrp')), R('s_comp_any', ANYV, A2, **G('serdegrp')), R('s_prim_mut', MUT, A2, **G('serdegrp'))]),
 'C25': dict(runs=both('s_difffuzz', FREE % 5, {0: 5}, FREE % 6, {0: 6}, [1, 2], **G('serdegrp')) + both('s_difffuzz', HEADS % 1, {0: 1, 1: 1}, HEADS % 3, {0: 3, 1: 1}, [1, 2], **G('serdegrp')) + [R('s_difffuzz', CONT % 4, [1, 2], p={0: 4, 1: 3}, **G('serdegrp')), R('s_difffuzz_depth', '58..70 nested containers or tags', [1, 2], **G('serdegrp'))]),
}
