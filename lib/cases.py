"""Which harnesses decide which property, with their bounds."""
from run import Case
PROPS = {}


def prop(pid, cases, **kw):
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), names
    PROPS[pid] = dict(cases=cases, **kw)


ENGINE = 'The symbolic engine (/verif/engine), clang -O1 lowering of the sources and Z3 are trusted; sample paths of every case are re-run on the native build and must agree.'
GUID = ['guid/guid.cc', 'random/random_device.cc']

prop('G01', [
    Case('g01_form', 'guid', GUID, models=['random'], reach=['g01_form'], bounds='all random words; one GUID'),
    Case('g01_entropy', 'guid', GUID, models=['random'], reach=['g01_entropy'], bounds='all pairs of draws; two GUIDs'),
], outside='Nothing: straight-line over all random words.', assumes=[ENGINE, 'std::random_device is replaced by arbitrary 32-bit words.'])

prop('G02', [Case('g02_len%d' % n, 'guid', GUID, models=['random'], entry='g02_shape', params={0: n},
                  reach=['g02_valid', 'g02_out_valid', 'g02_invalid', 'g02_out_invalid'] if n == 36 else ['g02_invalid', 'g02_out_invalid'],
                  bounds='all %d-byte texts' % n) for n in (0, 1, 8, 35, 36, 37, 38, 72)],
     outside='Lengths other than 0, 1, 8, 35-38 and 72.', assumes=[ENGINE])

STR = ['strings/format.cc', 'strings/str_cat.cc']
TH = ('thorough',)
prop('S01', [
    Case('s01_n0', 'strings', STR, entry='s01_concat', params={0: 0}, reach=['s01'], bounds='no piece'),
    Case('s01_n1', 'strings', STR, entry='s01_concat', params={0: 1, 1: 24}, reach=['s01', 's01_long'], bounds='1 piece of any of 5 kinds, up to 24 arbitrary bytes'),
    Case('s01_n2', 'strings', STR, entry='s01_concat', params={0: 2, 1: 9}, reach=['s01', 's01_long'], bounds='2 pieces of any of 5 kinds, up to 9 arbitrary bytes each', jobs=2),
    Case('s01_n3', 'strings', STR, entry='s01_concat', params={0: 3, 1: 2}, reach=['s01'], bounds='3 pieces of any of 5 kinds, up to 2 arbitrary bytes each', jobs=4),
    Case('s01_many', 'strings', STR, params={0: 1}, reach=['s01'], bounds='8 texts of 0 or 1 arbitrary bytes'),
    Case('s01_many300', 'strings', STR, entry='s01_many', params={0: 300}, reach=['s01'], bounds='8 texts of 0, 1 or (three of them) 300 bytes, first and last byte arbitrary'),
    Case('s01_many70000', 'strings', STR, entry='s01_many', params={0: 70000}, reach=['s01'], bounds='8 texts of 0, 1 or (three of them) 70000 bytes, first and last byte arbitrary', tiers=TH, jobs=4, time=600),
    Case('s01_n4', 'strings', STR, entry='s01_concat', params={0: 4, 1: 3}, reach=['s01'], bounds='4 pieces, up to 3 arbitrary bytes each', tiers=('thorough',), jobs=8, time=600),
] + [Case('s01_split%d' % n, 'strings', STR, entry='s01_split', params={0: n}, reach=['s01_split'], bounds='%d arbitrary bytes cut into two pieces anywhere' % n) for n in (14, 15, 16, 17, 31, 40)],
    outside='More than 3 pieces (thorough: 4) other than the listed cases, pieces longer than the stated lengths.', assumes=[ENGINE])
prop('S02', [Case('s02_f%d_a%d' % (l, a), 'strings', STR, entry='s02_format', params={0: l, 1: a, 2: m},
                  reach=(['s02_wellformed'] if l >= 2 * a else []) + (['s02_malformed'] if l or a else []),
                  bounds='every format text of %d bytes, %d arguments of up to %d arbitrary bytes' % (l, a, m), tiers=t, time=tm, jobs=j)
             for l, a, m, t, tm, j in [(0, 0, 1, ('quick', 'thorough'), 60, 1), (0, 1, 1, ('quick', 'thorough'), 60, 1), (1, 0, 1, ('quick', 'thorough'), 60, 1), (2, 0, 1, ('quick', 'thorough'), 60, 1), (2, 1, 3, ('quick', 'thorough'), 60, 1),
                                     (3, 1, 2, ('quick', 'thorough'), 60, 1), (4, 0, 0, ('quick', 'thorough'), 60, 1), (4, 1, 2, ('quick', 'thorough'), 60, 1), (4, 2, 2, ('quick', 'thorough'), 60, 1),
                                     (5, 1, 1, ('quick', 'thorough'), 60, 1), (5, 2, 1, ('quick', 'thorough'), 60, 2), (6, 3, 1, ('quick', 'thorough'), 60, 2), (7, 2, 1, ('thorough',), 300, 8), (8, 3, 1, ('thorough',), 600, 8)]]
     + [Case('s02_long%d' % n, 'strings', STR, entry='s02_long', params={0: n}, reach=['s02_long'], bounds='one argument of %d arbitrary bytes' % n) for n in (0, 9, 10, 30)]
     + [Case('s02_parts6', 'strings', STR, entry='s02_parts', params={0: 6, 1: 40}, reach=['s02_parts'], bounds='formats of 6 parts: escapes, texts of 40 bytes, placeholders for 1 or 40 bytes', jobs=2),
        Case('s02_parts3', 'strings', STR, entry='s02_parts', params={0: 3, 1: 300}, reach=['s02_parts'], bounds='formats of 3 parts: escapes, texts of 300 bytes, placeholders for 1 or 300 bytes')]
     + [Case('s02_toomany', 'strings', STR, reach=['s02_toomany'], bounds='three formats with the wrong number of arguments, long enough to leave the small-string buffer')],
     outside='Format texts longer than 6 bytes (thorough: 8) other than the listed long ones; more than 3 arguments.', assumes=[ENGINE])
T8 = ['short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long']
prop('S03', [Case('s03_int_%s' % t.replace(' ', '_'), 'strings', STR, entry='s03_int', params={0: i, 1: 0 if i < 2 else 60, 2: i % 2}, reach=['s03_int'],
                  bounds=('every %s' if i < 2 else 'every %s within 60 of 0, of a power of ten or of the ends of the type, and their negations') % t, jobs=1) for i, t in enumerate(T8)]
     + [Case('s03_all_int', 'strings', STR, entry='s03_int', params={0: 2}, reach=['s03_int'], bounds='every int', tiers=('thorough',), time=800, solver_ms=600000, jobs=4),
        Case('s03_all_unsigned', 'strings', STR, entry='s03_int', params={0: 3}, reach=['s03_int'], bounds='every unsigned', tiers=('thorough',), time=800, solver_ms=600000, jobs=4)]
     + [Case('s03_enum%d' % i, 'strings', STR, entry='s03_enum', params={0: i, 1: 30}, reach=['s03_int'], bounds='enumerations over signed char, unsigned char, short, unsigned, long long, unsigned long long and a plain enum (number %d)' % i) for i in range(7)]
     + [Case('s03_several', 'strings', STR, reach=['s03_several'], bounds='six numbers of five types in one call', jobs=2)]
     + [Case('s03_other', 'strings', STR, reach=['s03_other'], bounds='every bool, char, signed char, unsigned char')]
     + [Case('s03_float%d' % i, 'strings', STR, entry='s03_float', params={0: i}, reach=['s03_float'], bounds='every %s; the text printf produces is an uninterpreted function of the value and the format' % t) for i, t in enumerate(['double', 'float', 'long double that is exact in double'])],
     outside='64- and 32-bit integers away from the windows around powers of ten and the ends of the types; the text printf itself produces.', assumes=[ENGINE, 'printf %g is an uninterpreted function.'])

ST = ['status/status.cc']
QT = ('quick', 'thorough')
prop('T01', [
    Case('t01_status3', 'status', ST, entry='t01_status', params={0: 4}, reach=['t01', 't01_abort'], bounds='all sequences of 4 operations on two Status objects', jobs=2, samples=40),
    Case('t01_status5', 'status', ST, entry='t01_status', params={0: 5}, reach=['t01', 't01_abort'], bounds='all sequences of 5 operations on two Status objects', jobs=8, tiers=('thorough',), time=400),
    Case('t01_statusor4', 'status', ST, entry='t02_statusor', params={0: 4, 1: 1}, reach=['t01', 't01_abort'], bounds='all sequences of 4 operations on two StatusOr<int> objects, all values', jobs=4, samples=40),
    Case('t01_status_any', 'status', ST, entry='t01_status', params={0: 3, 3: 1}, reach=['t01', 't01_abort'], bounds='all sequences of 3 operations on two Status objects, each starting in any state', jobs=2),
    Case('t01_statusor_any', 'status', ST, entry='t02_statusor', params={0: 3, 1: 1, 3: 1}, reach=['t01', 't01_abort'], bounds='all sequences of 3 operations on two StatusOr<int> objects, each starting in any state, all values', jobs=4),
    Case('t01_moves', 'status', ST, reach=['t01', 't01_abort'], bounds='every state moved to a new object'),
], outside='Longer sequences of operations; release builds (nothing is promised there).', assumes=[ENGINE])
prop('T02', [
    Case('t02_tracked', 'status', ST, entry='t02_statusor', params={0: 4, 1: 0}, reach=['t01', 't01_abort'], bounds='all sequences of 4 operations on two StatusOr objects of a class with its own heap block, all values', jobs=4, samples=40),
    Case('t02_tracked_any', 'status', ST, entry='t02_statusor', params={0: 3, 1: 0, 3: 1}, reach=['t01', 't01_abort'], bounds='all sequences of 3 operations on two StatusOr objects of a class with its own heap block, each starting in any state, all values', jobs=4),
    Case('t02_tracked5', 'status', ST, entry='t02_statusor', params={0: 5, 1: 0}, reach=['t01', 't01_abort'], bounds='all sequences of 5 operations', jobs=8, tiers=('thorough',), time=600),
    Case('t02_int', 'status', ST, entry='t02_statusor', params={0: 3, 1: 1}, reach=['t01', 't01_abort'], bounds='all sequences of 3 operations on two StatusOr<int> objects, all values', samples=40),
    Case('t02_tracked_rel', 'status', ST, entry='t02_statusor', params={0: 3, 1: 0, 2: 1}, reach=['t01'], bounds='release build: all sequences of 3 operations', defs=['NDEBUG'], samples=40),
], outside='Longer sequences of operations; more than two objects.', assumes=[ENGINE])
prop('T03', [
    Case('t03_int', 'status', ST, entry='t03_try', params={0: 0}, reach=['t03'], bounds='every macro, error class, nesting depth up to 4 and value', samples=40),
    Case('t03_tracked', 'status', ST, entry='t03_try', params={0: 1}, reach=['t03'], bounds='the same with a move-only value', samples=40),
    Case('t03_rel', 'status', ST, entry='t03_try', params={0: 1}, reach=['t03'], bounds='the same in a release build', defs=['NDEBUG']),
    Case('t03_cast', 'status', ST, reach=['t03'], bounds='every pair of dynamic and requested class in a hierarchy of five classes'),
], outside='Hierarchies with other shapes.', assumes=[ENGINE])

prop('N01', [
    Case('n01_raw4', 'notnull', entry='n01_raw', params={0: 4}, reach=['n01', 'aborts'], bounds='all sequences of 4 operations on NotNull<const int*> (2), NotNull<int*> and Nullable<int*>, every pointer value', jobs=2, samples=30),
    Case('n01_raw_any', 'notnull', entry='n01_raw', params={0: 3, 1: 1}, reach=['n01', 'aborts'], bounds='all sequences of 3 operations on the same, each wrapper starting in any state', jobs=2),
    Case('n01_raw6', 'notnull', entry='n01_raw', params={0: 6}, reach=['n01', 'aborts'], bounds='the same with 6 operations', jobs=8, tiers=('thorough',), time=600),
    Case('n01_compare', 'notnull', reach=['n01'], bounds='every triple of pointers'),
    Case('n01_unique', 'notnull', reach=['n01', 'aborts'], bounds='every source of a NotNull<unique_ptr>, null or not', samples=40),
    Case('n01_shared', 'notnull', reach=['n01', 'aborts'], bounds='every source of a NotNull<shared_ptr>, null or not', samples=40),
], outside='Longer sequences of operations; smart pointers with custom deleters.', assumes=[ENGINE])
prop('N02', [
    Case('n02_raw4', 'notnull', entry='n02_raw', params={0: 4}, reach=['n02', 'aborts'], bounds='all sequences of 4 operations on Nullable<int*> (2) and Nullable<const int*>, every pointer value', jobs=2, samples=30),
    Case('n02_raw_any', 'notnull', entry='n02_raw', params={0: 3, 1: 1}, reach=['n02', 'aborts'], bounds='all sequences of 3 operations on the same, each wrapper starting in any state', jobs=2),
    Case('n02_raw5', 'notnull', entry='n02_raw', params={0: 5}, reach=['n02', 'aborts'], bounds='the same with 5 operations', jobs=8, tiers=('thorough',), time=800),
    Case('n02_mixed4', 'notnull', entry='n01_raw', params={0: 4}, reach=['n01', 'aborts'], bounds='all sequences of 4 operations mixing NotNull and Nullable', jobs=2),
    Case('n02_unique', 'notnull', entry='n01_unique', reach=['n01', 'aborts'], bounds='Nullable<unique_ptr>, null or not, compared or not', samples=40),
    Case('n02_shared', 'notnull', entry='n01_shared', reach=['n01', 'aborts'], bounds='Nullable<shared_ptr>, null or not, compared or not', samples=40),
], outside='Longer sequences of operations.', assumes=[ENGINE])
prop('W01', [
    Case('w01_ops4', 'weak', entry='w01_ops', params={0: 4}, reach=['w01', 'aborts'], bounds='all sequences of 4 operations on four weak pointers of three types and objects living one after the other at one address', jobs=4, samples=40),
    Case('w01_any', 'weak', entry='w01_any', params={0: 2, 1: 1}, reach=['w01'], bounds='every operation on five weak pointers of four types, each starting in any state, with two objects side by side, one of which is destroyed afterwards', jobs=4),
    Case('w01_any2', 'weak', entry='w01_any', params={0: 2}, reach=['w01'], bounds='all pairs of operations on the same', jobs=8, time=300, tiers=('thorough',)),
    Case('w01_any3', 'weak', entry='w01_any', params={0: 3}, reach=['w01'], bounds='the same with 3 operations', jobs=8, tiers=('thorough',), time=800),
    Case('w01_ops6', 'weak', entry='w01_ops', params={0: 6}, reach=['w01', 'aborts'], bounds='the same with 6 operations', jobs=8, tiers=('thorough',), time=800),
], outside='Longer sequences; weak pointers shared between threads.', assumes=[ENGINE])
prop('W02', [
    Case('w02_bind', 'weak', reach=['w02'], bounds='six callables, both kinds of weak pointer, a base and a derived target, destroyed before, between or inside the calls; every argument value', samples=60),
    Case('w02_values', 'weak', reach=['w02'], bounds='arguments of class type taken by value, by reference and by rvalue reference, const targets, owners that let go inside the call; two calls; every argument value', samples=40),
    Case('w02_forward', 'weak', entry='w02_values', defs=['W02_FORWARD'], reach=['w02'], bounds='call-time arguments that can only be moved, references that reach the member, rvalues handed on as such', samples=40),
    Case('w02_args', 'weak', reach=['w02'], bounds='orders of bound and call-time arguments; every argument value', samples=20),
], outside='Other callables and argument counts.', assumes=[ENGINE])

def sized(fn, ns, what, tier=QT, **k):
    return [Case('%s_%d' % (fn, n), 'misc', ['stl/hash.cc'], entry=fn, params={0: n}, reach=['a01'], bounds='%d arbitrary ints; %s' % (n, what), tiers=tier, **k) for n in ns]


prop('A01', sized('a01_sort', (0, 1, 2, 3, 4), 'vector, array, C array') + sized('a01_stable', (0, 1, 3, 4), 'with equal keys') + sized('a01_find', (0, 1, 3, 5), 'vector, const vector, list, C array')
     + sized('a01_heap', (1, 3, 4), 'min and max heaps') + sized('a01_sorted', (0, 1, 3, 5), 'three comparators') + sized('a01_shuffle', (0, 1, 2, 3), 'every random word')
     + sized('a01_large', (24, 40), 'of which all but one follow a pattern: sorting, stable sorting, searching, walking backwards', time=120) + sized('a01_reversed', (0, 1, 3), 'vector, const vector, list, C array')
     + sized('a01_sort', (5,), 'vector', ('thorough',), jobs=8, time=400) + sized('a01_stable', (5,), 'with equal keys', ('thorough',), jobs=8, time=400) + sized('a01_heap', (5,), 'min and max heaps', ('thorough',), jobs=8, time=400)
     + [Case('a01_builder', 'misc', ['stl/hash.cc'], reach=['a01'], bounds='every value'), Case('a01_resize', 'misc', ['stl/hash.cc'], reach=['a01'], bounds='five old and six new sizes around the small-string limit, every content')],
     outside='Containers of more than 4 (thorough: 5) elements.', assumes=[ENGINE])
prop('A02', [Case('a02_%s' % t, 'misc', ['stl/hash.cc'], entry='a02_alias', params={0: i}, reach=['a02'], bounds=b) for i, (t, b) in enumerate([('int', 'every pair of ints'), ('u64', 'every pair of 64-bit integers'), ('double', 'every pair of doubles, NaN included'),
     ('schar', 'every pair of signed chars'), ('string', 'every pair of texts of up to 2 bytes'), ('moveonly', 'a move-only underlying type, every value')])], outside='Other underlying types.', assumes=[ENGINE])
prop('A03', [Case(n, 'misc', ['stl/hash.cc'], reach=['a03'], bounds=b) for n, b in [('a03_defer', 'every way out of nested scopes and loops'), ('a03_nodtor', 'every constructor argument'), ('a03_clone', 'every text of up to 2 bytes, short and long storage'), ('a03_wrapnull', 'null')]],
     outside='Leaving a scope by exception (the library is built for code without exceptions here).', assumes=[ENGINE])
prop('X01', [Case('x01_n%d_%d' % (n, i), 'misc', ['stl/hash.cc'], entry='x01_inject', params={0: n, 1: i}, reach=['x01'], bounds='%d components, every value; any two values of component %d' % (n, i), solver_ms=60000, time=100) for n in (1, 2, 3, 4) for i in range(n)]
     + [Case('x01_n5_%d' % i, 'misc', ['stl/hash.cc'], entry='x01_inject', params={0: 5, 1: i}, reach=['x01'], bounds='5 components', solver_ms=600000, time=800, tiers=('thorough',)) for i in range(5)]
     + [Case('x01_order%d' % i, 'misc', ['stl/hash.cc'], entry='x01_order', params={0: 16, 1: 3, 2: i}, reach=['x01'], bounds='neighbours %d and %d of 3 components, one below 16 and one below 129' % (i, i + 1), solver_ms=300000, time=300) for i in (0, 1)]
     + [Case('x01_types', 'misc', ['stl/hash.cc'], reach=['x01'], bounds='components of five types, every value')], outside='More than 4 (thorough: 5) components; exchanges of larger values.', assumes=[ENGINE])
prop('C01', [Case('c01_%s%s' % (n, r), 'misc', ['stl/hash.cc'], entry='c01_' + n, reach=['c01', 'aborts'], defs=d, bounds='every condition value of six types; %s build' % ('release' if d else 'debug')) for n in ('check', 'stmt') for r, d in (('', []), ('_rel', ['NDEBUG']))],
     outside='Nothing.', assumes=[ENGINE])

VAL = ['value/value.cc']
prop('V01', [
    Case('v01_clone1', 'value', VAL, entry='v01_clone', params={0: 1, 1: 2}, reach=['v01'], bounds='every value of depth 1, up to 2 elements, texts of 0, 2 or 20 arbitrary bytes, arbitrary keys of 1 byte; every change afterwards', jobs=4),
    Case('v01_clone2', 'value', VAL, entry='v01_clone', params={0: 2, 1: 1}, reach=['v01'], bounds='every value of depth 2, up to 1 element per level', jobs=4),
    Case('v01_clone22', 'value', VAL, entry='v01_clone', params={0: 2, 1: 2}, reach=['v01'], bounds='every value of depth 2, up to 2 elements per level', jobs=8, tiers=('thorough',), time=800),
    Case('v01_wide', 'value', VAL, entry='v01_clone', params={0: 0, 1: 3, 2: 1}, reach=['v01'], bounds='every container of 3 elements of all types, keys of up to 2 arbitrary bytes', jobs=2),
    Case('v01_wide8', 'value', VAL, entry='v01_clone', params={0: 0, 1: 8, 2: 4}, reach=['v01'], bounds='every container of 8 elements of all types, keys of up to 2 bytes', jobs=2),
    Case('v01_deep', 'value', VAL, entry='v01_clone', params={0: 2, 1: 3, 2: 4}, reach=['v01'], bounds='containers in containers in containers, 3 elements of all types each', jobs=2),
    Case('v01_large', 'value', VAL, params={0: 300}, reach=['v01'], bounds='arrays, objects and texts of 300 elements and values nested 300 deep', jobs=4),
    Case('v01_clone_static', 'value', VAL, reach=['v01'], bounds='every array and object of up to 2 scalars'),
    Case('v01_moves', 'value', VAL, params={0: 1, 1: 1}, reach=['v01'], bounds='every pair of values of depth 1 with up to 1 element', jobs=2),
    Case('v01_moves2', 'value', VAL, entry='v01_moves', params={0: 2, 1: 2}, reach=['v01'], bounds='source of depth 2 with up to 2 elements per level', jobs=8, tiers=('thorough',), time=800),
], outside='Deeper or wider values; keys longer than 2 bytes.', assumes=[ENGINE])
prop('V02', [
    Case('v02_int64', 'value', VAL, reach=['v02', 'aborts'], bounds='every 64-bit integer', solver_ms=200000, time=200),
    Case('v02_int32', 'value', VAL, reach=['v02'], bounds='every int', solver_ms=200000, time=200),
    Case('v02_double', 'value', VAL, reach=['v02', 'aborts'], bounds='every double', solver_ms=200000, time=300),
    Case('v02_getters', 'value', VAL, reach=['v02', 'aborts'], bounds='every getter on every value of depth 1', jobs=2),
    Case('v02_defaults', 'value', VAL, reach=['v02'], bounds='every type'),
], outside='Nothing for numbers; other content up to depth 1.', assumes=[ENGINE])
prop('V03', [
    Case('v03_scalars', 'value', VAL, entry='v03_pairs', params={0: 0, 1: 0}, reach=['v03'], bounds='every pair of scalars, texts of 0 or 2 bytes', jobs=2),
    Case('v03_wide', 'value', VAL, params={0: 3}, reach=['v03'], bounds='every pair of arrays and of objects with up to 3 numbers, one of them in an array of its own', jobs=4, time=200),
    Case('v03_pairs1', 'value', VAL, entry='v03_pairs', params={0: 1, 1: 1}, reach=['v03'], bounds='every pair of values of depth 1 with up to 1 element', jobs=4, time=200),
    Case('v03_pairs12', 'value', VAL, entry='v03_pairs', params={0: 1, 1: 2}, reach=['v03'], bounds='every pair of values of depth 1 with up to 2 elements', jobs=8, time=300),
    Case('v03_large', 'value', VAL, params={0: 300}, reach=['v03'], bounds='arrays, objects and texts of 300 elements and values nested 8 deep that differ at the start, at the end or in the middle, or in length', jobs=4),
] + [Case('v03_triples_%s' % n, 'value', VAL, entry='v03_triples', params={0: i}, reach=['v03'], bounds='every triple of ' + b, time=200, jobs=2) for n, i, b in [('bool', 1, 'booleans'), ('number', 2, 'numbers'), ('string', 3, 'texts of up to 2 bytes'), ('array', 4, 'arrays of up to 2 numbers')]],
    outside='Deeper or wider values.', assumes=[ENGINE])
prop('V04', [
    Case('v04_edits1', 'value', VAL, entry='v04_edits', params={0: 1, 1: 4, 2: 2}, reach=['v04'], bounds='one edit, paths of up to 4 and keys of up to 2 characters of {a, b, .}, arbitrary content', jobs=2),
    Case('v04_edits2', 'value', VAL, entry='v04_edits', params={0: 2, 1: 3, 2: 2}, reach=['v04'], bounds='all sequences of 2 edits, paths of up to 3 characters', jobs=8),
    Case('v04_edits3', 'value', VAL, entry='v04_edits', params={0: 3, 1: 3, 2: 1}, reach=['v04'], bounds='all sequences of 3 edits, paths of up to 3 characters', jobs=8, tiers=('thorough',), time=800),
    Case('v04_typed', 'value', VAL, reach=['v04'], bounds='every typed lookup of every stored value of depth 1', jobs=4, time=200),
    Case('v04_bytes2', 'value', VAL, entry='v04_bytes', params={0: 2}, reach=['v04'], bounds='two paths of 2 arbitrary bytes', jobs=2),
    Case('v04_bytes3', 'value', VAL, entry='v04_bytes', params={0: 3}, reach=['v04'], bounds='two paths of 3 arbitrary bytes', jobs=4, time=100),
    Case('v04_bytes4', 'value', VAL, entry='v04_bytes', params={0: 4}, reach=['v04'], bounds='two paths of 4 arbitrary bytes', jobs=8),
    Case('v04_bytes5', 'value', VAL, entry='v04_bytes', params={0: 5}, reach=['v04'], bounds='two paths of 5 arbitrary bytes', jobs=8),
    Case('v04_members2', 'value', VAL, entry='v04_members', params={0: 2, 1: 2}, reach=['v04'], bounds='one edit of an object with up to 2 members of arbitrary keys of up to 2 bytes', jobs=4, time=150),
    Case('v04_members3', 'value', VAL, entry='v04_members', params={0: 3, 1: 1}, reach=['v04'], bounds='one edit of an object with up to 3 members of arbitrary keys of up to 1 byte', jobs=8, time=600, tiers=('thorough',)),
    Case('v04_members5', 'value', VAL, entry='v04_members', params={0: 5}, reach=['v04'], bounds='one edit of an object with 5 members of one-letter keys in any order', jobs=4),
    Case('v04_deep', 'value', VAL, params={0: 4}, reach=['v04'], bounds='two paths of up to 4 levels over the keys of 0 to 2 characters a', jobs=4),
    Case('v04_abort', 'value', VAL, reach=['aborts'], bounds='every object operation on every other type'),
], outside='Longer sequences of edits, longer paths; storing a value that is part of the object it is stored into.', assumes=[ENGINE])
prop('V05', [
    Case('v05_history3', 'value', VAL, entry='v05_history', params={0: 3}, reach=['v05'], bounds='all sequences of 3 assignments and edits on two values', jobs=4, samples=40),
    Case('v05_history4', 'value', VAL, entry='v05_history', params={0: 4}, reach=['v05'], bounds='all sequences of 4 assignments and edits', jobs=8, time=300),
    Case('v05_history5', 'value', VAL, entry='v05_history', params={0: 5}, reach=['v05'], bounds='all sequences of 5', jobs=8, tiers=('thorough',), time=850),
    Case('v05_desc1', 'value', VAL, entry='v05_descendant', params={0: 1}, reach=['v05'], bounds='assignment from every kind of child'),
    Case('v05_desc2', 'value', VAL, entry='v05_descendant', params={0: 2}, reach=['v05'], bounds='assignment from every kind of grandchild'),
    Case('v05_desc3', 'value', VAL, entry='v05_descendant', params={0: 3}, reach=['v05'], bounds='assignment from a descendant three levels down', jobs=2),
], outside='Longer histories.', assumes=[ENGINE])
PREF = ['preferences/preferences.cc', 'preferences/preferences_store.cc', 'preferences/memory_preferences_store.cc', 'value/value.cc']
prop('P01', [
    Case('p01_history3', 'prefs', PREF, entry='p01_history', params={0: 3, 1: 3}, reach=['p01'], bounds='all sequences of 3 registrations and sets over 3 names, all types, arbitrary content', jobs=2),
    Case('p01_history4', 'prefs', PREF, entry='p01_history', params={0: 4, 1: 4}, reach=['p01'], bounds='all sequences of 4 over 4 names', jobs=8, time=300),
    Case('p01_history5', 'prefs', PREF, entry='p01_history', params={0: 5, 1: 4}, reach=['p01'], bounds='all sequences of 5 over 4 names', jobs=8, time=850, tiers=('thorough',)),
    Case('p01_store', 'prefs', PREF, reach=['p01'], bounds='a store that records'),
    Case('p01_related', 'prefs', PREF, bounds='the first history of the known finding'),
    Case('p01_related2', 'prefs', PREF, bounds='the second history of the known finding'),
] + [Case('p01_names%d%d' % (a, b), 'prefs', PREF, entry='p01_names', params={0: a, 1: b}, reach=['p01'], bounds='every two unrelated names of %d and %d bytes, every 3 sets' % (a, b), jobs=4 if a + b > 5 else 1, time=200) for a, b in ((0, 1), (1, 1), (1, 2), (2, 2), (1, 3), (2, 3), (3, 3))],
    outside='Names where one is inside the path of the other (known finding); int and double access mixed on one name.', assumes=[ENGINE])
prop('P02', [
    Case('p02_misuse', 'prefs', PREF, reach=['aborts'], bounds='every misuse of every type', jobs=2),
] + [Case('p02_names%d%d' % (a, b), 'prefs', PREF, entry='p02_names', params={0: a, 1: b}, reach=['aborts', 'used'], bounds='every two names of %d and %d bytes' % (a, b)) for a, b in ((1, 1), (2, 2), (3, 3), (4, 4))]
  + [Case('p02_names%d%d' % (a, b), 'prefs', PREF, entry='p02_names', params={0: a, 1: b}, reach=['aborts', 'used'], bounds='every two names of %d and %d bytes, one registered' % (a, b)) for a, b in ((0, 1), (1, 2), (2, 3))],
    outside='int and double access mixed on one name (both are the number type).', assumes=[ENGINE])

TIMER = ['timer/one_shot_timer.cc', 'task_runner/polling_task_runner.cc', 'task_runner/task_runner.cc', 'threading/barrier.cc', 'memory/weak_ptr.h'][:4]
prop('O01', [
    Case('o01_poll3', 'timer', TIMER, entry='o01_poll', params={0: 3, 1: 2}, reach=['o01', 'ran', 'replaced', 'destroyed'], bounds='all sequences of 3 starts, fires, polls and destruction with every callback behaviour, every clock and delay', jobs=2),
    Case('o01_poll4', 'timer', TIMER, entry='o01_poll', params={0: 4, 1: 2}, reach=['o01', 'ran', 'replaced', 'destroyed'], bounds='the same with 4 steps', jobs=4, time=200),
    Case('o01_any4', 'timer', TIMER, entry='o01_any', params={0: 4, 1: 2}, reach=['o01', 'ran', 'replaced', 'destroyed'], bounds='4 steps on a runner that runs the posted tasks in any order', jobs=4, time=200),
    Case('o01_poll5', 'timer', TIMER, entry='o01_poll', params={0: 5, 1: 2}, reach=['o01', 'ran', 'replaced', 'destroyed'], bounds='the same with 5 steps', jobs=8, time=800, tiers=('thorough',)),
    Case('o01_many', 'timer', TIMER, params={0: 300}, reach=['o01', 'ran', 'replaced'], bounds='300 starts, then any one of the 300 posted tasks and the last one', jobs=2),
    Case('o01_fire', 'timer', TIMER, reach=['aborts'], bounds='a timer not started, already run or fired'),
], outside='Longer histories; use of one timer from several threads (it is not thread safe).', assumes=[ENGINE])
POLL = ['task_runner/polling_task_runner.cc', 'task_runner/task_runner.cc', 'threading/barrier.cc']
prop('K01', [
    Case('k01_full3', 'polling', POLL, entry='k01_history', params={0: 3, 1: 2, 2: 1}, reach=['k01', 'several', 'nested'], bounds='all sequences of 3 posts and polls, one post from a running task; every 64-bit delay and clock reading', jobs=2, time=200),
    Case('k01_history4', 'polling', POLL, entry='k01_history', params={0: 4, 1: 3, 2: 1, 3: 12}, reach=['k01', 'several', 'nested'], bounds='all sequences of 4 posts and polls, one post from a running task; delays and clock readings of 12 bits', jobs=4, time=200),
    Case('k01_full4', 'polling', POLL, entry='k01_history', params={0: 4, 1: 3, 2: 1}, reach=['k01', 'several', 'nested'], bounds='all sequences of 4 steps, every 64-bit delay and clock reading', jobs=4, time=600, tiers=('thorough',)),
    Case('k01_history5', 'polling', POLL, entry='k01_history', params={0: 5, 1: 3, 2: 2, 3: 12}, reach=['k01', 'several', 'nested'], bounds='all sequences of 5 steps with up to 3 posts and two from running tasks', jobs=8, time=800, tiers=('thorough',)),
    Case('k01_order4', 'polling', POLL, entry='k01_order', params={0: 4}, reach=['k01'], bounds='4 tasks, every delay and clock in 0..7', jobs=2),
    Case('k01_ranks5', 'polling', POLL, entry='k01_order', params={0: 5, 1: 5, 2: 1}, reach=['k01'], bounds='5 tasks, every order and tie of their delays, polled between any two', jobs=4),
    Case('k01_ranks6', 'polling', POLL, entry='k01_order', params={0: 6, 1: 5, 2: 1}, reach=['k01'], bounds='6 tasks, every order and tie of up to 5 different delays, polled between any two', jobs=8, time=300),
    Case('k01_many', 'polling', POLL, entry='k01_order', params={0: 40, 1: 7, 2: 1, 3: 1}, reach=['k01'], bounds='40 tasks with delays in 0..7, of which all but one follow a pattern, every clock', jobs=4, time=120),
    Case('k01_many300', 'polling', POLL, entry='k01_order', params={0: 300, 1: 3, 2: 1, 3: 1}, reach=['k01'], bounds='300 tasks with delays in 0..3, of which all but one follow a pattern, every clock', jobs=4, time=120),
    Case('k01_ranks7', 'polling', POLL, entry='k01_order', params={0: 7, 1: 6, 2: 1}, reach=['k01'], bounds='7 tasks, every order and tie of up to 6 different delays, polled between any two', jobs=8, time=800, tiers=('thorough',)),
    Case('k01_churn', 'polling', POLL, entry='k01_history', params={0: 8, 1: 6, 2: 0, 4: 3}, reach=['k01', 'several'], bounds='all sequences of 8 posts and polls with delays and steps of the clock of 0, 1 or 2', jobs=4, time=300),
    Case('k01_churn_nest', 'polling', POLL, entry='k01_history', params={0: 6, 1: 3, 2: 2, 4: 3}, reach=['k01', 'several', 'nested'], bounds='all sequences of 6 posts and polls with delays and steps of the clock of 0, 1 or 2, two posts from running tasks', jobs=4, time=300),
    Case('k01_churn9', 'polling', POLL, entry='k01_history', params={0: 9, 1: 6, 2: 0, 4: 3}, reach=['k01', 'several'], bounds='all sequences of 9 posts and polls with delays and steps of the clock of 0, 1 or 2', jobs=8, time=800, tiers=('thorough',)),
    Case('k01_order5', 'polling', POLL, entry='k01_order', params={0: 5}, reach=['k01'], bounds='5 tasks', jobs=4, time=400, tiers=('thorough',)),
    Case('k01_order6', 'polling', POLL, entry='k01_order', params={0: 6}, reach=['k01'], bounds='6 tasks', jobs=8, time=800, tiers=('thorough',)),
    Case('k01_negative', 'polling', POLL, reach=['aborts'], bounds='every negative delay'),
], outside='More tasks; polling from inside a task (aborts in debug builds); clock readings equal to the maximum.', assumes=[ENGINE])
prop('K02', [
    Case('k02_post22', 'polling', POLL, entry='k02_post', params={0: 2, 1: 2, 2: 2, 4: 99}, reach=['k02'], bounds='2 threads posting 2 tasks each, 2 polls meanwhile, every interleaving', jobs=2),
    Case('k02_post21d', 'polling', POLL, entry='k02_post', params={0: 2, 1: 2, 2: 2, 3: 7, 4: 99}, reach=['k02'], bounds='the same with delayed tasks, 2 polls', jobs=2),
    Case('k02_post12', 'polling', POLL, entry='k02_post', params={0: 1, 1: 3, 2: 3, 4: 99}, reach=['k02'], bounds='1 thread posting 3 tasks, 3 polls, every interleaving', jobs=2),
    Case('k02_delays21', 'polling', POLL, entry='k02_delays', params={0: 2, 1: 1, 4: 99}, reach=['k02'], bounds='2 threads posting a task each with any delay, 3 polls at any clock reading, every interleaving', jobs=4, time=200),
    Case('k02_delays12', 'polling', POLL, entry='k02_delays', params={0: 1, 1: 2, 4: 99}, reach=['k02'], bounds='1 thread posting 2 tasks with any delays, 3 polls at any clock reading, every interleaving', jobs=4, time=200),
    Case('k02_delays22', 'polling', POLL, entry='k02_delays', params={0: 2, 1: 2, 4: 3}, reach=['k02'], bounds='2 threads posting 2 tasks each with any delays, 3 polls at any clock reading, up to 3 preemptions', jobs=8, time=400, tiers=('thorough',)),
    Case('k02_nested', 'polling', POLL, params={4: 5}, reach=['k02'], bounds='tasks that post, up to 5 preemptions'),
    Case('k02_post33', 'polling', POLL, entry='k02_post', params={0: 3, 1: 2, 2: 2, 4: 4, 7: 0}, reach=['k02'], bounds='3 threads posting 2 tasks each, 2 polls meanwhile, up to 4 preemptions', jobs=8, time=200),
    Case('k02_post33b', 'polling', POLL, entry='k02_post', params={0: 3, 1: 3, 2: 3, 4: 6, 7: 0}, reach=['k02'], bounds='3 threads posting 3 tasks each, 3 polls meanwhile, up to 6 preemptions', jobs=8, time=850, tiers=('thorough',)),
], outside='More threads, tasks or preemptions (a preemption is a switch away from a thread that could go on; switches at blocking operations are free).', assumes=[ENGINE])
BAR = ['threading/barrier.cc']
def barrier(prop, entry, n, pre, tiers=QT, spur=0, jobs=2, time=120, main=0, au=1):
    return Case('%s_%d%d%d_p%d%s%s' % (entry, *n, pre, 's%d' % spur if spur else '', 'm' if main else ''), 'barrier', BAR, entry=entry, params={0: n[0], 1: n[1], 2: n[2], 3: pre, 4: spur, 5: main, 7: au}, reach=[prop], jobs=jobs, time=time, tiers=tiers,
                bounds='%d counting, %d waiting, %d counting and waiting threads; %s, %d spurious wakeups' % (*n, 'every interleaving' if pre == 99 else 'every interleaving with up to %d preemptions' % pre, spur) + ('' if au else '; switches at synchronisation and atomic operations only'))
ALL = 99
prop('B01', [
    barrier('b01', 'b01_mix', (1, 1, 1), ALL, spur=1), barrier('b01', 'b01_mix', (2, 2, 0), ALL, spur=1), barrier('b01', 'b01_mix', (0, 0, 3), ALL, spur=2), barrier('b01', 'b01_mix', (0, 1, 2), ALL, spur=1), barrier('b01', 'b01_mix', (1, 2, 0), ALL, spur=1),
    barrier('b01', 'b01_mix', (1, 1, 0), ALL, spur=2, main=1), barrier('b01', 'b01_mix', (1, 3, 0), ALL, spur=1), barrier('b01', 'b01_mix', (0, 0, 2), ALL, spur=2),
    barrier('b01', 'b01_mix', (2, 2, 1), ALL, au=0, spur=1, jobs=8, time=400, tiers=('thorough',)), barrier('b01', 'b01_mix', (1, 2, 1), ALL, au=0, jobs=8, time=400, tiers=('thorough',), spur=1), barrier('b01', 'b01_mix', (0, 2, 3), 3, au=0, jobs=8, time=400, tiers=('thorough',)), barrier('b01', 'b01_mix', (3, 1, 1), ALL, au=0, jobs=8, time=400, tiers=('thorough',)),
    Case('b01_any21', 'barrier', BAR, entry='b01_any', params={0: 2, 1: 1, 3: ALL, 7: 0}, reach=['b01'], jobs=4, bounds='2 counting threads of every style, 1 waiting thread, 0 to 3 more count-downs by the main thread (symbolic), every interleaving'),
    Case('b01_any12', 'barrier', BAR, entry='b01_any', params={0: 1, 1: 2, 3: ALL, 4: 1, 7: 0}, reach=['b01'], jobs=4, bounds='1 counting thread of either style, 2 waiting threads, 0 to 3 more count-downs (symbolic), 1 spurious wakeup, every interleaving'),
    Case('b01_huge', 'barrier', BAR, reach=['b01'], bounds='every 64-bit count above the number of count-downs (0 to 3), one waiting thread'),
    Case('b01_serial', 'barrier', BAR, reach=['b01'], bounds='counts 1 to 5'),
    Case('b01_misuse', 'barrier', BAR, reach=['aborts', 'fine'], bounds='every misuse, every count'),
], outside='More threads or spurious wakeups.', assumes=[ENGINE])
prop('B02', [
    barrier('b02', 'b02_destroy', (1, 0, 0), ALL, spur=1), barrier('b02', 'b02_destroy', (2, 0, 0), ALL, spur=1), barrier('b02', 'b02_destroy', (1, 1, 0), ALL, spur=1), barrier('b02', 'b02_destroy', (0, 0, 1), ALL, spur=1), barrier('b02', 'b02_destroy', (1, 0, 1), ALL, spur=1), barrier('b02', 'b02_destroy', (0, 1, 1), ALL, spur=1), barrier('b02', 'b02_destroy', (0, 0, 2), ALL, spur=1),
    barrier('b02', 'b02_destroy', (1, 2, 0), ALL, spur=1), barrier('b02', 'b02_destroy', (1, 1, 1), ALL, spur=1), barrier('b02', 'b02_destroy', (2, 2, 0), ALL, spur=1, jobs=4, au=0),
    barrier('b02', 'b02_destroy', (0, 2, 2), ALL, au=0, jobs=8, time=400, tiers=('thorough',), spur=1), barrier('b02', 'b02_destroy', (0, 0, 3), ALL, au=0, jobs=8, time=400, tiers=('thorough',), spur=1), barrier('b02', 'b02_destroy', (2, 2, 1), 3, au=0, jobs=8, time=400, tiers=('thorough',)),
], outside='More threads or spurious wakeups.', assumes=[ENGINE])
POOL = ['task_runner/thread_pool_task_runner.cc', 'task_runner/task_runner.cc', 'threading/barrier.cc']
def pool(entry, p, sched, tiers=QT, jobs=2, time=150, extra={}, what=''):
    ps = {i: v for i, v in enumerate(p)}
    ps.update({4 + i: v for i, v in enumerate(sched)})
    ps.update(extra)
    pre, tmo, spu = (list(sched) + [0, 0, 0])[:3]
    return Case('%s_%s_p%dt%ds%d%s' % (entry, ''.join(map(str, p)), pre, tmo, spu, ''.join('_%d_%x' % (k, v) for k, v in extra.items())), 'pool', POOL, entry=entry, params=ps, reach=[entry[:3]], jobs=jobs, time=time, tiers=tiers,
                bounds='%s; every interleaving with up to %d preemptions, %d timeouts or late wakeups that happen although another thread could go on, %d spurious wakeups' % (what, pre, tmo, spu))
BIG = 0x7fffffffffffffff
POOL_OUT = 'More tasks, threads, preemptions, early timeouts or spurious wakeups than stated; thread creation that fails.'
KA = {9: 0}      # any keep-alive time of up to a year
prop('H01', [
    pool('h01_run', (1, 2, 0, 0), (3, 2, 1), extra={9: 1}, what='limit 1, 2 tasks, every keep-alive time'),
    pool('h01_run', (1, 3, 0, 1), (2, 3), extra=KA, what='limit 1, 3 tasks one after the other, every keep-alive time up to a year'),
    pool('h01_run', (1, 1, 2, 0), (2, 1), extra=KA, what='limit 1, two posting threads, 3 tasks, every keep-alive time up to a year'),
    pool('h01_run', (1, 3, 0, 0), (2, 1), extra={8: 10}, what='limit 1, 3 tasks, the second delayed'),
    pool('h01_run', (1, 1, 0, 0), (2, 2), extra={9: 0, 10: 1}, what='limit 1, a task that posts a task, every keep-alive time up to a year'),
    pool('h01_run', (2, 2, 0, 0), (2, 1), extra=KA, what='limit 2, 2 tasks, every keep-alive time up to a year', jobs=4),
    pool('h01_run', (2, 3, 0, 0), (1, 1), what='limit 2, 3 tasks', jobs=4),
    pool('h01_run', (2, 1, 1, 0), (2, 0), what='limit 2, two posting threads', jobs=4),
    pool('h01_run', (2, 1, 0, 0), (2, 1), extra={10: 1}, what='limit 2, a task that posts a task', jobs=4),
    pool('h01_run', (1, 2, 0, 0), (2, 0, 1), extra={9: 0, 11: 1, 12: 7}, what='limit 1, 2 tasks started on time, every keep-alive time up to a year'),
    pool('h01_run', (2, 2, 0, 0), (2, 0), extra={9: 0, 11: 1, 12: 7}, what='limit 2, 2 tasks started on time, every keep-alive time up to a year', jobs=4),
    pool('h01_run', (2, 1, 2, 0), (1, 0), extra={11: 1, 8: 5, 12: 7}, what='limit 2, two posting threads, 3 tasks started on time, the second delayed', jobs=4),
    pool('h01_run', (1, 2, 0, 0), (2, 0), extra={10: 2, 11: 1}, what='limit 1, 2 tasks that post another, started on time', jobs=4),
    pool('h01_run', (2, 2, 0, 0), (1, 0), extra={8: 10, 11: 1, 13: 20, 14: 2, 15: 1}, what='limit 2, 2 tasks with the same delay that take a while, after two tasks, started on time', jobs=4),
    pool('h01_run', (2, 2, 0, 0), (1, 0), extra={11: 1, 13: 20, 14: 2}, what='limit 2, 2 tasks that take a while, after two tasks, started on time', jobs=4),
    pool('h01_run', (3, 3, 0, 0), (0, 0), extra={8: 10, 11: 1, 13: 20, 14: 2, 15: 1}, what='limit 3, 3 tasks with the same delay that take a while, after two tasks, started on time', jobs=4),
    pool('h01_run', (1 << 32, 2, 0, 0), (1, 0), what='limit 2^32, 2 tasks'),
    pool('h01_run', (1, 24, 0, 0), (0, 0), extra={8: 10}, what='limit 1, 24 tasks, every second delayed'),
    pool('h01_run', (3, 16, 8, 0), (0, 0), extra={8: 10}, what='limit 3, two posting threads, 24 tasks, every second delayed', jobs=4),
    pool('h01_run', (2, 2, 0, 0), (2, 2, 1), extra=KA, tiers=TH, jobs=8, time=600, what='limit 2, 2 tasks, every keep-alive time up to a year'),
    pool('h01_run', (2, 3, 0, 0), (2, 1), extra=KA, tiers=TH, jobs=8, time=600, what='limit 2, 3 tasks, every keep-alive time up to a year'),
    pool('h01_run', (2, 2, 1, 0), (2, 1), tiers=TH, jobs=8, time=600, what='limit 2, two posting threads, 3 tasks'),
    pool('h01_run', (3, 3, 0, 0), (1, 1), tiers=TH, jobs=8, time=600, what='limit 3, 3 tasks'),
    pool('h01_run', (1, 3, 0, 0), (2, 2, 1), extra={8: 10}, tiers=TH, jobs=8, time=600, what='limit 1, 3 tasks, the second delayed'),
], outside=POOL_OUT, assumes=[ENGINE])
prop('H02', [
    pool('h02_shutdown', (1, 2, 0, 0), (3, 2, 1), extra=KA, what='limit 1, 2 tasks, every keep-alive time up to a year'),
    pool('h02_shutdown', (1, 0, 2, 0), (2, 1), extra={8: 1, 9: 0}, what='limit 1, 2 tasks with any delays, every keep-alive time up to a year', jobs=4),
    pool('h02_shutdown', (1, 1, 1, 200), (1, 1), extra={8: 1, 9: 0}, what='limit 1, one task and one with any delay, destroyed 200 ns later', jobs=2),
    pool('h02_shutdown', (1, 2, 1, 0), (2, 2), what='limit 1, 2 tasks and one delayed task', jobs=4),
    pool('h02_shutdown', (2, 2, 0, 0), (3, 1), what='limit 2, 2 tasks', jobs=4),
    pool('h02_shutdown', (2, 1, 1, 5), (1, 1), extra={8: 1, 9: 0}, what='limit 2, one task and one with any delay, destroyed 5 ns later', jobs=4),
    pool('h02_shutdown', (2, 2, 1, 0), (1, 1), what='limit 2, 2 tasks and one delayed task', jobs=4),
    pool('h02_shutdown', (2, 3, 0, 0), (1, 1), what='limit 2, 3 tasks', jobs=4),
    pool('h02_shutdown', (1, 1, 1, 5), (2, 0, 1), extra={8: 1, 9: 0, 11: 1}, what='limit 1, one task and one with any delay, destroyed at once 5 ns later', jobs=2),
    pool('h02_shutdown', (2, 2, 0, 0), (3, 0), extra={9: 0, 11: 1}, what='limit 2, 2 tasks, destroyed at once', jobs=4),
    pool('h02_shutdown', (2, 2, 0, 5), (2, 0), extra={9: 0, 11: 1}, what='limit 2, 2 tasks, destroyed at once 5 ns later', jobs=4),
    pool('h02_shutdown', (2, 2, 1, 0), (2, 1), tiers=TH, jobs=8, time=600, what='limit 2, 2 tasks and one delayed task'),
    pool('h02_shutdown', (2, 3, 0, 0), (2, 1), tiers=TH, jobs=8, time=600, what='limit 2, 3 tasks'),
    pool('h02_shutdown', (3, 3, 0, 0), (1, 1), tiers=TH, jobs=8, time=600, what='limit 3, 3 tasks'),
    pool('h02_shutdown', (1, 2, 1, 0), (3, 2, 1), tiers=TH, jobs=8, time=600, what='limit 1, 2 tasks and one delayed task'),
    pool('h02_shutdown', (2, 3, 1, 0), (2, 2), tiers=TH, jobs=8, time=600, what='limit 2, 3 tasks and one delayed task'),
    pool('h02_shutdown', (2, 2, 1, 0), (2, 1), extra={8: 1, 9: 0}, tiers=TH, jobs=8, time=600, what='limit 2, 2 tasks and one with any delay'),
    pool('h02_shutdown', (1, 2, 1, 0), (2, 2), extra={8: 1, 9: 0}, tiers=TH, jobs=8, time=600, what='limit 1, 2 tasks and one with any delay'),
], outside=POOL_OUT, assumes=[ENGINE])
prop('H03', [
    pool('h03_delay', (1, 2, 0, 0), (1, 1), extra=KA, what='limit 1, 2 tasks with any delays up to a year, every keep-alive time up to a year', jobs=8),
    pool('h03_delay', (1, 1, 0, 0), (2, 1), extra={8: 1}, what='limit 1, 1 task with any delay', jobs=2),
    pool('h03_delay', (2, 2, 0, 0), (1, 1), what='limit 2, 2 tasks with any delays up to a year', jobs=8),
    pool('h03_delay', (1, 2, 0, 3), (2, 1), what='limit 1, 2 tasks with delays out of 1, 20, 60', jobs=4),
    pool('h03_delay', (1, 3, 0, 3), (1, 1), what='limit 1, 3 tasks with delays out of 1, 20, 60', jobs=4),
    pool('h03_delay', (1, 3, 3, 1), (1, 1), what='limit 1, 3 tasks with equal delays'),
    pool('h03_delay', (1, 2, 0, 0), (1, 0), extra={9: 0, 11: 1}, what='limit 1, 2 tasks with any delays up to a year, started on time, every keep-alive time up to a year', jobs=4),
    pool('h03_delay', (1, 3, 0, 4), (1, 0), extra={11: 1, 12: 7}, what='limit 1, 3 tasks with delays out of 1, 20, 60, 5, pauses of 7 between posts, started on time', jobs=8),
    pool('h03_delay', (2, 2, 0, 4), (1, 0), extra={11: 1, 12: 7}, what='limit 2, 2 tasks with delays out of 1, 20, 60, 5, pauses of 7 between posts, started on time', jobs=4),
    pool('h03_delay', (1, 4, 0, 4), (0, 0), extra={11: 1, 12: 7}, what='limit 1, 4 tasks with delays out of 1, 20, 60, 5, pauses of 7 between posts, started on time', jobs=4),
    pool('h03_delay', (1, 4, 0, 4), (0, 0), what='limit 1, 4 tasks with delays out of 1, 20, 60, 5', jobs=4),
    pool('h03_delay', (1, 2, 2, 4), (1, 2), what='limit 1, 2 tasks with delays out of the largest, 1, 2^62 and nearly the largest', jobs=4),
    pool('h03_delay', (1, 40, 0, 4), (0, 0), extra={11: 1, 13: 9}, what='limit 1, 40 tasks with delays of 1 to 9, of which all but one follow a pattern, started on time', jobs=4),
    pool('h03_delay', (1, 300, 3, 1), (0, 0), what='limit 1, 300 tasks with equal delays', jobs=1),
    pool('h03_delay', (2, 12, 0, 4), (0, 0), extra={11: 1, 13: 9}, what='limit 2, 12 tasks with delays of 1 to 9, of which all but one follow a pattern, started on time', jobs=4),
    pool('h03_delay', (1, 3, 0, 0), (1, 1), tiers=TH, jobs=8, time=600, what='limit 1, 3 tasks with any delays up to a year'),
    pool('h03_delay', (1, 2, 0, 0), (2, 1), extra=KA, tiers=TH, jobs=8, time=600, what='limit 1, 2 tasks with any delays up to a year, every keep-alive time up to a year'),
    pool('h03_delay', (1, 2, 0, 0), (1, 0), extra={8: 1}, tiers=TH, jobs=8, time=600, what='limit 1, 2 tasks with any delays'),
    pool('h03_delay', (1, 2, 0, 3), (2, 2, 1), tiers=TH, jobs=8, time=600, what='limit 1, 2 tasks with delays out of 1, 20, 60'),
    pool('h03_delay', (1, 4, 0, 3), (1, 1), tiers=TH, jobs=8, time=600, what='limit 1, 4 tasks with delays out of 1, 20, 60'),
    pool('h03_delay', (2, 3, 0, 3), (1, 1), tiers=TH, jobs=8, time=600, what='limit 2, 3 tasks with delays out of 1, 20, 60'),
], outside=POOL_OUT + ' Tasks that are due after more than two years are only checked not to run early.', assumes=[ENGINE])
prop('H04', [
    pool('h04_apply', (1, 3, 1), (2, 2, 1), extra={9: 1}, what='limit 1, 3 iterations, every keep-alive time'),
    pool('h04_apply', (1, 6, 1), (1, 0), what='limit 1, 6 iterations', jobs=2),
    pool('h04_apply', (2, 5, 1), (0, 0), what='limit 2, 5 iterations', jobs=2),
    pool('h04_apply', (1, 300, 1), (0, 0), what='limit 1, 300 iterations', jobs=2),
    pool('h04_apply', (1, 2, 2), (2, 1), what='limit 1, 2 iterations, 2 callers'),
    pool('h04_apply', (2, 2, 1), (2, 1), extra=KA, what='limit 2, 2 iterations, every keep-alive time up to a year', jobs=4),
    pool('h04_apply', (2, 3, 1), (1, 1), what='limit 2, 3 iterations', jobs=4),
    pool('h04_apply', (2, 1, 2), (1, 1), what='limit 2, 1 iteration, 2 callers', jobs=4),
    Case('h04_polled11', 'polling', POLL, entry='h04_polled', params={0: 1, 1: 1, 2: 2, 3: 1, 4: ALL}, reach=['h04'], bounds='polled runner, 1 caller, 1 iteration and an ordinary task, 2 polls meanwhile, every interleaving'),
    Case('h04_polled31', 'polling', POLL, entry='h04_polled', params={0: 3, 1: 1, 2: 2, 3: 1, 4: ALL}, reach=['h04'], bounds='polled runner, 1 caller, 3 iterations and an ordinary task, 2 polls meanwhile, every interleaving', jobs=2),
    Case('h04_polled22', 'polling', POLL, entry='h04_polled', params={0: 2, 1: 2, 2: 2, 3: 0, 4: 4, 5: 0}, reach=['h04'], bounds='polled runner, 2 callers, 2 iterations each, 2 polls meanwhile, up to 4 preemptions', jobs=4),
    Case('h04_polled300', 'polling', POLL, entry='h04_polled', params={0: 300, 1: 1, 2: 0, 3: 0, 4: 0, 5: 0}, reach=['h04'], bounds='polled runner, 1 caller, 300 iterations, without preemptions'),
    pool('h04_apply', (2, 2, 2), (1, 1), tiers=TH, jobs=8, time=600, what='limit 2, 2 iterations, 2 callers'),
    pool('h04_apply', (3, 3, 1), (1, 1), tiers=TH, jobs=8, time=600, what='limit 3, 3 iterations'),
    pool('h04_apply', (2, 3, 1), (2, 2), extra=KA, tiers=TH, jobs=8, time=600, what='limit 2, 3 iterations, every keep-alive time up to a year'),
], outside=POOL_OUT, assumes=[ENGINE])
prop('H05', [
    pool('h05_idle', (1, 1, 1, 0), (2, 2, 1), extra={9: 1}, what='limit 1, 1 task, every keep-alive time'),
    pool('h05_idle', (1, 2, 2, 0), (2, 1), extra=KA, what='limit 1, 2 rounds of 2 tasks, every keep-alive time up to a year'),
    pool('h05_idle', (1, 1, 2, 1), (2, 1), extra={8: 50}, what='limit 1, 2 rounds of 1 delayed task'),
    pool('h05_idle', (2, 2, 1, 0), (1, 1), extra=KA, what='limit 2, 2 tasks, every keep-alive time up to a year', jobs=4),
    pool('h05_idle', (1, 2, 2, 0), (2, 0), extra={9: 0, 11: 1}, what='limit 1, 2 rounds of 2 tasks started on time, every keep-alive time up to a year'),
    pool('h05_idle', (2, 2, 2, 0), (1, 0), extra={9: 0, 11: 1}, what='limit 2, 2 rounds of 2 tasks started on time, every keep-alive time up to a year', jobs=4),
    pool('h05_idle', (2, 2, 2, 0), (2, 1), extra=KA, tiers=TH, jobs=8, time=600, what='limit 2, 2 rounds of 2 tasks, every keep-alive time up to a year'),
    pool('h05_idle', (1, 1, 2, 1), (1, 1), extra={8: 0, 9: 0}, tiers=TH, jobs=8, time=600, what='limit 1, 2 rounds of 1 task with any delay up to a year, every keep-alive time up to a year'),
], outside=POOL_OUT, assumes=[ENGINE])
prop('H06', [
    pool('h06_meet', ((1 << 32) + 1, 2, 1, 0), (1, 0), extra={11: 1}, what='limit 2^32 + 1, one task and then 2 tasks that wait for each other'),
    pool('h06_meet', (2, 2, 1, 0), (2, 0), extra={11: 1}, what='limit 2, 2 tasks that wait for each other after one task', jobs=4),
    pool('h06_meet', (2, 2, 1, 0), (1, 1), what='limit 2, 2 tasks that wait for each other after one task', jobs=4),
    pool('h06_meet', (2, 2, 2, 0), (1, 1), extra=KA, what='limit 2, 2 tasks that wait for each other after two tasks, every keep-alive time up to a year', jobs=4),
    pool('h06_meet', (2, 2, 0, 0), (1, 1), extra={8: 2}, what='limit 2, 2 tasks that wait for each other, twice', jobs=4),
    pool('h06_meet', (2, 2, 1, 1), (1, 1), extra=KA, what='limit 2, 2 iterations that wait for each other after one task, every keep-alive time up to a year', jobs=4),
    pool('h06_meet', (2, 2, 1, 2), (1, 1), what='limit 2, 2 tasks with the same delay that wait for each other after one task', jobs=4),
    pool('h06_meet', (2, 2, 1, 3), (1, 1), what='limit 2, 2 tasks posted by different threads that wait for each other after one task', jobs=4),
    pool('h06_meet', (2, 2, 1, 4), (1, 1), extra=KA, what='limit 2, a task that posts one and waits for it after one task, every keep-alive time up to a year', jobs=4),
    pool('h06_meet', (3, 3, 1, 0), (1, 0), extra={11: 1}, what='limit 3, 3 tasks that wait for each other after one task', jobs=4),
    pool('h06_meet', (3, 3, 2, 1), (0, 0), extra={11: 1}, what='limit 3, 3 iterations that wait for each other after two tasks', jobs=4),
    pool('h06_meet', (2, 2, 2, 2), (1, 0), extra={11: 1}, what='limit 2, 2 tasks with the same delay that wait for each other after two tasks', jobs=4),
    pool('h06_meet', (2, 2, 2, 1), (1, 0), extra={11: 1}, what='limit 2, 2 iterations that wait for each other after two tasks', jobs=4),
    pool('h06_meet', (3, 3, 1, 2), (0, 0), extra={11: 1}, what='limit 3, 3 tasks with the same delay that wait for each other after one task', jobs=4),
    pool('h06_meet', (4, 4, 2, 0), (0, 0), extra={11: 1}, tiers=TH, time=600, what='limit 4, 4 tasks that wait for each other after two tasks', jobs=4),
    pool('h06_meet', (2, 2, 1, 0), (2, 1), tiers=TH, jobs=8, time=600, what='limit 2, 2 tasks that wait for each other after one task'),
    pool('h06_meet', (2, 2, 0, 0), (2, 1), extra={8: 2}, tiers=TH, jobs=8, time=600, what='limit 2, 2 tasks that wait for each other, twice'),
    pool('h06_meet', (2, 2, 1, 4), (2, 1), extra=KA, tiers=TH, jobs=8, time=600, what='limit 2, a task that posts one and waits for it after one task, every keep-alive time up to a year'),
    pool('h06_meet', (2, 2, 2, 3), (1, 1), extra=KA, tiers=TH, jobs=8, time=600, what='limit 2, 2 tasks posted by different threads that wait for each other after two tasks, every keep-alive time up to a year'),
    pool('h06_meet', (3, 3, 1, 3), (1, 0), extra={11: 1}, tiers=TH, jobs=8, time=600, what='limit 3, 3 tasks posted by different threads that wait for each other after one task'),
    pool('h06_meet', (3, 3, 1, 0), (1, 1), tiers=TH, jobs=8, time=600, what='limit 3, 3 tasks that wait for each other after one task'),
], outside=POOL_OUT, assumes=[ENGINE])

FSM = 'The file system and stdio are those of model/fs.cc: a short read or write sets the error or end indicator, rename and remove are atomic, any call may fail while faults remain.'
FILES = ['files/file_utils.cc', 'guid/guid.cc', 'random/random_device.cc', 'strings/str_cat.cc', 'strings/format.cc', 'status/status.cc', 'rtti/rtti.h'][:6]
def files(name, entry, params, reach, bounds, cap=256, **kw):
    return Case(name, 'files', FILES, entry=entry, params=params, reach=reach, bounds=bounds, models=['fs', 'random'], defs=['FS_CAP=%d' % cap], **kw)
prop('F01', [
    files('f01_write', 'f01_write', {0: 6, 1: 5}, ['f01'], 'every content of up to 6 bytes over no file or one of up to 5 bytes; any part reaches the file early; any reported size'),
    files('f01_important', 'f01_write', {0: 5, 1: 4, 2: 1}, ['f01'], 'every content of up to 5 bytes over no file or one of up to 4 bytes, written as an important file'),
    files('f01_read', 'f01_read', {0: 16}, ['f01'], 'every content of up to 16 bytes, reported size unavailable or anything up to 3 more'),
    files('f01_chunks', 'f01_chunks', {0: 131070, 1: 4}, ['f01'], 'files of 131070 to 131073 bytes with any first and last bytes, reported size unavailable or zero', cap=262200),
    files('f01_chunks2', 'f01_chunks', {0: 262142, 1: 4}, ['f01'], 'the same with twice that size', cap=262200),
    files('f01_big', 'f01_big', {0: 0}, ['f01'], 'contents of 255 to 131072 bytes (eleven sizes), any first and last byte', cap=132000),
    files('f01_big_important', 'f01_big', {0: 1}, ['f01'], 'the same, written as an important file', cap=132000),
    files('f01_write2', 'f01_write', {0: 16, 1: 16}, ['f01'], 'every content of up to 16 bytes', tiers=('thorough',), jobs=8, time=200),
    files('f01_important2', 'f01_write', {0: 16, 1: 16, 2: 1}, ['f01'], 'every content of up to 16 bytes', tiers=('thorough',), jobs=8, time=200),
    files('f01_read2', 'f01_read', {0: 64}, ['f01'], 'every content of up to 64 bytes', tiers=('thorough',), jobs=8, time=200),
], outside='Longer files with reported sizes that are too small; streams that end short of an error or the end.', assumes=[ENGINE, FSM])
prop('F02', [
    files('f02_replace', 'f02_replace', {0: 3, 1: 3, 2: 9}, ['failed', 'replaced'], 'every old and new content of up to 3 bytes, every pattern of failing calls, every flushed prefix, every instant'),
    files('f02_twice', 'f02_replace', {0: 2, 1: 2, 2: 9, 3: 2}, ['failed', 'replaced'], 'two writes in a row, every pattern of failing calls'),
    files('f02_threads', 'f02_threads', {0: 1, 1: 0, 2: 0, 3: 99}, ['f02'], 'two writers at the same time, every interleaving of their calls'),
    files('f02_threads_f', 'f02_threads', {0: 1, 1: 1, 2: 1, 3: 99}, ['f02'], 'two writers at the same time, one failing call, every interleaving of their calls', jobs=2),
    files('f02_thrice', 'f02_replace', {0: 3, 1: 2, 2: 9, 3: 3}, ['failed', 'replaced'], 'three writes in a row, every pattern of failing calls', tiers=('thorough',), jobs=8, time=600),
    files('f02_threads_f9', 'f02_threads', {0: 2, 1: 2, 2: 9, 3: 99}, ['f02'], 'two writers at the same time, every pattern of failing calls, every interleaving of their calls', tiers=('thorough',), jobs=8, time=600),
], outside='A power failure that loses data the system has accepted: rename is not preceded by fsync.', assumes=[ENGINE, FSM])
prop('F03', [
    files('f03_write', 'f03_write', {0: 3}, ['failed', 'fine'], 'every pattern of failing calls'),
    files('f03_read', 'f03_read', {0: 4}, ['failed', 'fine'], 'every pattern of failing calls'),
    files('f03_important', 'f03_important', {0: 3}, ['failed', 'fine'], 'every pattern of failing calls'),
    files('f03_write8', 'f03_write', {0: 12}, ['failed', 'fine'], 'every pattern of failing calls', tiers=('thorough',), jobs=4),
    files('f03_important8', 'f03_important', {0: 12}, ['failed', 'fine'], 'every pattern of failing calls', tiers=('thorough',), jobs=4),
], outside='Failing memory allocation.', assumes=[ENGINE, FSM])
LOG = ['logger/logger.cc', 'logger/file_name_sink.cc', 'logger/file_ptr_sink.cc', 'logger/sink.cc', 'logger/log_error.cc', 'strings/str_cat.cc', 'strings/format.cc', 'status/status.cc']
def log(name, entry, params, reach, bounds, defs=(), **kw):
    return Case(name, 'logger', LOG, entry=entry, params=params, reach=reach, bounds=bounds, models=['fs'], defs=list(defs), **kw)
prop('L01', [
    log('l01_log', 'l01_log', {0: 1, 1: 0, 2: 9999}, ['l01', 'aborts', 'fatal'], 'every severity, level and line up to 9999, near the largest int or below 1, every message of up to 1 byte', jobs=4, time=200),
    log('l01_lines', 'l01_log', {0: 0, 1: 0, 2: 65535}, ['l01', 'aborts', 'fatal'], 'every severity, level and line up to 65535', jobs=8, time=200),
    log('l01_text', 'l01_log', {0: 8, 1: 4, 2: 9}, ['l01', 'fatal', 'aborts'], 'every message of up to 8 bytes and file name of up to 4 bytes, lines up to 9', jobs=2),
    log('l01_long', 'l01_long', {0: 300, 1: 70}, ['l01'], 'messages of 300 and file names of 70 bytes, every power of ten or two and its predecessor as the line'),
    log('l01_long2', 'l01_long', {0: 5000, 1: 1000}, ['l01'], 'messages of 5000 and file names of 1000 bytes, the same lines', jobs=2),
    log('l01_history', 'l01_history', {0: 4}, ['l01', 'fatal'], 'every sequence of 4 level changes, logger changes and records', jobs=4, time=200),
    log('l01_history5', 'l01_history', {0: 5}, ['l01', 'fatal'], 'every sequence of 5', jobs=8, time=600, tiers=('thorough',)),
    log('l01_macros', 'l01_macros', {}, ['l01', 'fatal'], 'every macro, level and message of 2 bytes, debug build'),
    log('l01_macros_rel', 'l01_macros', {}, ['l01', 'fatal'], 'every macro, level and message of 2 bytes, release build', defs=['NDEBUG']),
], outside='Longer messages and file names.', assumes=[ENGINE])
prop('L02', [
    log('l02_lines', 'l02_lines', {0: 2, 1: 3}, ['l02'], '2 messages of up to 3 bytes, every sink', jobs=2),
    log('l02_lines3', 'l02_lines', {0: 3, 1: 2}, ['l02'], '3 messages of up to 2 bytes, every sink', jobs=4),
    log('l02_long', 'l02_lines', {0: 1, 1: 40}, ['l02'], 'a message of up to 40 bytes, every sink', jobs=2),
    log('l02_big', 'l02_big', {0: 2, 1: 5000}, ['l02'], '2 messages of 5000 bytes and more, every sink', defs=['FS_CAP=20000']),
    log('l02_big2', 'l02_big', {0: 2, 1: 65535}, ['l02'], '2 messages of 65535 bytes and more, every sink', defs=['FS_CAP=140000']),
    log('l02_fault', 'l02_fault', {0: 3}, ['l02', 'aborts'], 'every failing call while 3 messages are logged'),
    log('l02_open', 'l02_open', {}, ['failed', 'opened'], 'the file can or cannot be opened'),
] + [log('l02_threads%s_%d%d' % (n, t, m), 'l02_threads', {0: t, 1: m, 3: k}, ['l02'], '%d threads logging %d messages each, every interleaving' % (t, m), jobs=2, time=120) for n, k in (('', 0), ('_ptr', 1)) for t, m in ((2, 2), (3, 1))]
  + [log('l02_threads%s_%d%d' % (n, t, m), 'l02_threads', {0: t, 1: m, 3: k}, ['l02'], '%d threads logging %d messages each, every interleaving' % (t, m), jobs=8, time=400, tiers=TH) for n, k in (('', 0), ('_ptr', 1)) for t, m in ((3, 2), (2, 3))],
    outside='More threads and longer messages; sinks that share a file.', assumes=[ENGINE, FSM])
def rnd(name, entry, params, reach, bounds, **kw):
    return Case(name, 'random', ['random/random_device.cc', 'guid/guid.cc', 'strings/str_cat.cc'], entry=entry, params=params, reach=reach, bounds=bounds, models=['random'], **kw)
prop('R01', [
    rnd('r01_threads1', 'r01_threads', {0: 1, 2: 2}, ['r01'], '2 threads using the device twice, started before, after or during each other, every interleaving'),
    rnd('r01_threads2', 'r01_threads', {0: 2, 2: 1}, ['r01'], '3 threads using the device once, every interleaving', jobs=2),
    rnd('r01_guids', 'r01_threads', {0: 1, 3: 1}, ['r01'], '2 threads generating a GUID each from any random words, every interleaving', jobs=2),
    rnd('r01_alive', 'r01_alive', {0: 2, 1: 3}, ['r01', 'together'], '3 threads alive together, up to 3 preemptions', jobs=2),
    rnd('r01_values', 'r01_values', {}, ['r01'], 'every 4 random words'),
    rnd('r01_threads3', 'r01_threads', {0: 3, 2: 1}, ['r01'], '4 threads using the device once, every interleaving', jobs=8, tiers=TH, time=400),
    rnd('r01_guids2', 'r01_threads', {0: 2, 3: 1}, ['r01'], '3 threads generating a GUID each', jobs=8, tiers=TH, time=400),
], outside='More threads; the random source itself.', assumes=[ENGINE, 'std::random_device gives any 32-bit values and must be used by one thread at a time.'])

# The same in a release build, where the debug checks are compiled out and other constructors are used.
RELEASE = """
G01 g01_form
G02 g02_len35 g02_len36
S01 s01_n2 s01_many300 s01_split16
S02 s02_parts6 s02_long30
S03 s03_int_short s03_several s03_other s03_float0
X01 x01_n3_1 x01_types
A01 a01_sort_3 a01_stable_3 a01_heap_3 a01_shuffle_3
A02 a02_string a02_double
A03 a03_defer a03_nodtor a03_clone
N01 n01_raw4 n01_compare n01_unique n01_shared
N02 n02_raw4 n02_unique n02_shared
W01 w01_ops4 w01_any
W02 w02_bind w02_values w02_forward w02_args
V01 v01_clone1 v01_deep v01_moves
V02 v02_int32 v02_getters v02_defaults
V03 v03_scalars v03_pairs1 v03_triples_string
V04 v04_edits1 v04_bytes4 v04_members5
V05 v05_history3 v05_desc2
P01 p01_history3 p01_store p01_names22
O01 o01_poll3 o01_any4
K01 k01_full3 k01_history4 k01_order4 k01_many
K02 k02_post12 k02_nested k02_delays12
B01 b01_mix_111_p99s1 b01_mix_002_p99s2 b01_huge
B02 b02_destroy_110_p99s1 b02_destroy_011_p99s1
H01 h01_run_2300_p1t1s0 h01_run_1200_p2t0s0_10_2_11_1
H02 h02_shutdown_2210_p1t1s0 h02_shutdown_2205_p2t0s0_9_0_11_1
H03 h03_delay_1100_p2t1s0_8_1 h03_delay_2204_p1t0s0_11_1_12_7
H04 h04_apply_131_p2t2s1_9_1 h04_polled31
H05 h05_idle_1110_p2t2s1_9_1 h05_idle_2210_p1t1s0_9_0
H06 h06_meet_2212_p1t1s0 h06_meet_3321_p0t0s0_11_1
F01 f01_write f01_important f01_read
F02 f02_replace f02_threads
F03 f03_write f03_read f03_important
L01 l01_long2 l01_history
L02 l02_lines3 l02_fault l02_open l02_threads_22
R01 r01_threads2 r01_guids
"""
for line in RELEASE.split('\n')[1:-1]:
    pid, *names = line.split()
    for name in names:
        c = next(c for c in PROPS[pid]['cases'] if c.name == name)
        r = __import__('copy').copy(c)
        r.name, r.entry, r.defs, r.bounds = name + '_rel', c.entry, c.defs + ['NDEBUG'], c.bounds + '; release build'
        r.reach = [x for x in c.reach if x != 'aborts']
        PROPS[pid]['cases'].append(r)

if __import__('os').environ.get('VF_SELF'):  # engine and library models, for development: VF_SELF=1 lib/run.py check SELF
    prop('SELF', [Case('lib_all', 'selftest', reach=['end'], bounds='library models', flags=['-pthread'])], outside='', assumes=[])
