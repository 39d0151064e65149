"""The properties, and for each the jobs that decide it. gen.py derives properties.jsonl and MANIFEST.json."""

import wits


class Job:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.thorough = False
        self.__dict__.update(kw)


def Abs(src, cats, defs=(), std='c++17', drv=None, thorough=False, passes='function(mem2reg)', extra=()):
    return Job('abs', src=src, cats=set(cats.split()), defs=tuple(defs), std=std, drv=drv, thorough=thorough, passes=passes, extra=tuple(extra))


def Wit(fn, **kw):
    return Job('witness', fn=fn, **kw)


class P:
    def __init__(self, id, title, statement, over, qtext, why, files, mech, jobs, level='proof',
                 technique='', note='', trusted=None):
        self.id, self.title, self.statement, self.over, self.qtext, self.why = id, title, statement, over.split(), qtext, why
        self.files, self.mech, self.jobs, self.level = files, mech, jobs, level
        self.technique, self.note = technique, note
        self.trusted = trusted if trusted is not None else TRUST


class NA:
    def __init__(self, id, title, statement, over, qtext, why, files, mech, reason):
        self.id, self.title, self.statement, self.over, self.qtext, self.why = id, title, statement, over.split(), qtext, why
        self.files, self.mech, self.reason = files, mech, reason


TRUST = ['clang 18 front end (lowering of the headers to LLVM IR at -O0) and opt mem2reg/sroa',
         'engine/: abstract interpreter, its linear-arithmetic domain and loop summaries',
         'engine/models.py: models of operator new/delete, memcpy/memmove/memset, exceptions, and of the opaque element type',
         'the drivers in harness/ state the property; destructors and moves of elements do not throw unless a driver says otherwise',
         'object sizes are below 2^40 elements and addresses do not wrap']
TYTRUST = ['clang 18 front end: overload resolution and type traits', 'the facts in harness/types.cpp state the property']
TYNOTE = 'Each fact is a static_assert which the compiler decides against the current headers; a fact which fails is reported with the class and operation.'
TYPES = ('small_vector static_vector pod_vector flat_set flat_map any expected generator ufunction span stride_span poly_span memory_view data_mutex sync sentry '
         'dynamic_bitset streams time_t shared_from').split()
ALLH = ['include/itlib/%s.hpp' % h for h in ('small_vector static_vector pod_vector flat_set flat_map any expected generator ufunction span stride_span poly_span memory_view data_mutex mutex atomic '
        'atomic_shared_ptr_storage sentry dynamic_bitset mem_streambuf time_t shared_from make_ptr').split()]
AI = 'abstract interpretation of the compiled header (LLVM IR): object-lifetime and ownership typestate over segmented memory, with relational linear arithmetic and inductive loop summaries'
AINOTE = ('Each driver is an arbitrary valid state followed by one operation and states what must hold; the analysis covers all sizes, '
          'indices, capacities and exception points of the driver at once. An obligation is reported only when it is refuted on an exactly '
          'tracked state and refuted again with the witnessing inputs; undecided obligations are counted in the evidence, not alarmed.')

NEEDS = [(h, ('c++20',)) for h in ('generator', 'umap')] + [('pmr', ('c++17', 'c++20'))] + [(h, ('c++11', 'c++17', 'c++20')) for h in (
    'small_vector static_vector flat_set flat_map any expected ufunction data_mutex sentry make_ptr qalgorithm spans utility throw_ex').split()]
CONSTS = [(0, [], 'c++17'), (1, [], 'c++17'), (2, [], 'c++11'), (3, ['CONT=std::vector<E>'], 'c++17'), (4, ['CONT=std::vector<P>'], 'c++17'), (5, [], 'c++17'), (6, [], 'c++17'), (7, [], 'c++17'), (8, [], 'c++20'), (9, [], 'c++17')]
SV = 'include/itlib/small_vector.hpp'
ST = 'include/itlib/static_vector.hpp'


def sv_jobs(cats, drv=None):
    return ([Abs('small_vector.cpp', cats, ['RB=1'], drv='_revert$')] if cats == 'storage' or 'storage' in cats else []) + [Abs('small_vector.cpp', cats, drv=drv), Abs('small_vector.cpp', cats, ['RB=3'], drv=drv),
            Abs('small_vector.cpp', cats, ['RB=5', 'NDEBUG'], drv=drv), Abs('small_vector.cpp', cats, ['ET=VpTriv', 'RB=2'], drv=drv),
            Abs('small_vector.cpp', cats, ['RB=2', 'SC=7'], std='c++20', drv=drv, thorough=True),
            Abs('small_vector.cpp', cats, ['SC=2'], std='c++11', drv=drv, thorough=True)]


def st_jobs(cats, drv=None):
    return [Abs('static_vector.cpp', cats, drv=drv), Abs('static_vector.cpp', cats, ['CAP=1'], drv=drv),
            Abs('static_vector.cpp', cats, ['CAP=3', 'NDEBUG'], drv=drv), Abs('static_vector.cpp', cats, ['CAP=3', 'ET=VpTriv'], drv=drv),
            Abs('static_vector.cpp', cats, ['CAP=17'], std='c++20', drv=drv),
            Abs('static_vector.cpp', cats, ['CAP=123456'], std='c++11', drv=drv, thorough=True)]


PV = 'include/itlib/pod_vector.hpp'


def pv_jobs(cats, drv=None):
    j = [Abs('pod_vector.cpp', cats, [e, 'ALLOC=%d' % a], drv=drv) for e in ('ET=VpPod', 'ET=VpOver', 'ET=vp_u8') for a in (0, 1, 2)]
    j += [Abs('pod_vector.cpp', cats, ['ET=VpPod', 'RECAST=int'], drv=drv), Abs('pod_vector.cpp', cats, ['ET=int', 'ALLOC=2', 'RECAST=VpPod'], drv=drv),
          Abs('pod_vector.cpp', cats, ['ET=VpPod', 'NDEBUG', 'ALLOC=1', 'RECAST=vp_u8'], drv=drv),
          Abs('pod_vector.cpp', cats, ['ET=int', 'NDEBUG'], std='c++20', drv=drv, thorough=True),
          Abs('pod_vector.cpp', cats, ['ET=VpOver', 'ALIGN=64', 'ALLOC=1'], std='c++11', drv=drv, thorough=True)]
    return j


DB = 'include/itlib/dynamic_bitset.hpp'
BITS = 'abstract interpretation of the compiled header (LLVM IR) with a bit-provenance domain: every bit of every word is a term over the bits of the inputs, positions are linear expressions, shift amounts are split into cases'


def db_jobs(multi):
    cats = 'bits size memory lifetime arith uninit leak nontermination'
    long_ = '^d_(append|all$|any$|none$|copy_([0-9]|wide)|assign)'
    if multi:
        return [Abs('dynamic_bitset.cpp', cats, drv=long_),
                Abs('dynamic_bitset.cpp', cats, ['WORD=unsigned short'], drv='^d_(append_(wide|aligned|self|throw)|all|any|none|copy_wide|assign)'),
                Abs('dynamic_bitset.cpp', cats, ['WORD=unsigned'], std='c++11', drv='^d_(append_(wide|aligned|self)|copy_wide|assign)'),
                Abs('dynamic_bitset.cpp', cats, ['WORD=unsigned long', 'NDEBUG'], drv='^d_(append_(wide|aligned)|copy_wide|assign)'),
                Abs('dynamic_bitset.cpp', cats, ['WORD=unsigned'], std='c++20', drv='^d_(all|any|none)', thorough=True),
                Abs('dynamic_bitset.cpp', cats, ['WORD=unsigned long'], drv='^d_(all|any|none|append_(self|grow|throw))', thorough=True),
                Abs('dynamic_bitset.cpp', cats, ['WORDS=4', 'CW=3', 'NDEBUG'], drv='^d_(append$|append_self|all|any|none|copy_[04567])', thorough=True)]
    short = '^d_(?!append|all$|any$|none$|copy_([0-9]|wide)|assign)'
    return [Abs('dynamic_bitset.cpp', cats, drv=short),
            Abs('dynamic_bitset.cpp', cats, ['WORD=unsigned short', 'NDEBUG'], drv='^d_(ctor|static|test|set$|reset|push|iter$|copy_ctor|move|copy_assign)'),
            Abs('dynamic_bitset.cpp', cats, ['WORD=unsigned'], std='c++11', drv='^d_(ctor|static|test|reset$|push$|push_throw|iter$|copy_ctor|move|copy_assign)'),
            Abs('dynamic_bitset.cpp', cats, ['WORD=unsigned long'], drv='^d_(ctor|static|test|set$|iter$|copy_ctor|move|copy_assign)'),
            Abs('dynamic_bitset.cpp', cats, ['WORD=unsigned short'], std='c++20', drv=short, thorough=True),
            Abs('dynamic_bitset.cpp', cats, ['WORD=unsigned'], drv='^d_(set|flip|ref|iter|resize$|resize_throw|reserve|push)', thorough=True),
            Abs('dynamic_bitset.cpp', cats, ['WORD=unsigned long'], drv='^d_(reset|flip|ref|iter|resize$|resize_throw|reserve|push)', thorough=True)]


def std_jobs(src, cats, drv=None, defs=((),), stds=('c++17', 'c++11'), tstds=('c++20',)):
    j = [Abs(src, cats, list(d), std=sd, drv=drv) for d in defs for sd in stds]
    return j + [Abs(src, cats, list(d), std=sd, drv=drv, thorough=True) for d in defs for sd in tstds]


EX, AN, SE, UF = ['include/itlib/%s.hpp' % x for x in ('expected', 'any', 'sentry', 'ufunction')]
DM, MX, AP, AT, MP, SF = ['include/itlib/%s.hpp' % x for x in ('data_mutex', 'mutex', 'atomic_shared_ptr_storage', 'atomic', 'make_ptr', 'shared_from')]
MS = 'include/itlib/mem_streambuf.hpp'
FS, FM = 'include/itlib/flat_set.hpp', 'include/itlib/flat_map.hpp'
SPANS = ['include/itlib/%s.hpp' % x for x in ('span', 'stride_span', 'poly_span', 'memory_view')]
GE = 'include/itlib/generator.hpp'
PM, TU, TT, TE, QA, SU, RS, UTL, TYT = ['include/itlib/%s.hpp' % x for x in ('pmr_allocator', 'transparent_umap', 'time_t', 'throw_ex', 'qalgorithm', 'strutil', 'rstream', 'utility', 'type_traits')]
CORO = 'coro-early,cgscc(coro-split),coro-cleanup,function(mem2reg)'
BRIEF = 'path-sensitive abstract interpretation of the compiled header (LLVM IR): object-lifetime and ownership typestate, values kept symbolic'
ORD = BRIEF + '; contracts for std::sort, unique and the binary searches over an abstract strict weak order'


def FLAT(t):
    return [((), 'c++17', False), (('CMP',), 'c++14', False), (('CMP', 'NDEBUG'), 'c++20', True), (('CONT=itlib::small_vector<%s,4>' % t, 'NOSWAP'), 'c++17', False)]


LOCKS = 'lockset and lock-typestate analysis over the compiled header (LLVM IR), with memory orders of lock words checked, inside a path-sensitive abstract interpretation'

PROPS = [
    P('C01', 'small_vector constructs and destroys every element exactly once',
      'Whatever sequence of small_vector operations runs, every element counted by size() is a live object, no memory outside [data(), data()+size()) holds one, '
      'no element is destroyed twice, used after destruction or left undestroyed, and no memory outside the vector\'s own buffer is touched. '
      'This also holds when an element constructor or the allocator throws in the middle of an operation (element moves and destructors do not throw).',
      'histories inputs fault_sequences', 'every operation from every valid state (any size, capacity, position, count), every exception point',
      'The tests sample a few sizes with a counting element; the property quantifies over all sizes, capacities, positions and over exceptions thrown at any element operation.',
      [SV], [('element moves on growth, insertion and erasure', SV + ': grow_at, shrink_at, resize'), ('buffer switches', SV + ': choose_data, switch_to'),
             ('holes left by an insertion which throws', SV + ': hole_filler')],
      sv_jobs(''), technique=AI, note=AINOTE),
    P('C02', 'small_vector operations yield the elements std::vector would',
      'After each small_vector operation (construction, copy, move, swap, assign, insert, emplace, erase, push/pop, resize, reserve, clear, shrink_to_fit) size(), the order and the values of the elements, '
      'the returned iterator or reference and the source object are those std::vector specifies, including when the inserted value is an element of the vector itself (insert, push_back, resize). '
      'push_back and emplace_back which throw leave the vector unchanged.',
      'histories inputs', 'every operation from every valid state (any size, capacity, position, count)',
      'Tests compare literal sequences of a handful of elements; off-by-one mistakes at particular sizes, positions or capacities stay unseen.',
      [SV], [('insertion and erasure in place', SV + ': insert, emplace, erase, grow_at, shrink_at'), ('copies and moves', SV + ': constructors, operator=, assign, swap')],
      sv_jobs('content'), technique=AI, note=AINOTE),
    P('C03', 'small_vector buffer discipline: static/dynamic storage and allocator',
      'A small_vector keeps its elements in its internal buffer whenever no more than the static capacity was ever required, otherwise in one block of capacity() elements obtained from its own allocator, released exactly once with the same allocator and size, '
      'and it returns to the internal buffer on clear/erase/resize below RevertToStaticBelow and on shrink_to_fit or revert_to_static whenever the elements fit. '
      'Moves take over the dynamic block and the allocator, copies use the allocator the traits select, size() never exceeds capacity(), and additions which fit in capacity() keep the buffer.',
      'histories inputs configurations', 'every operation from every valid state, RevertToStaticBelow below, equal to and above the static capacity',
      'Tests check a few capacities of a few instances; leaks and mismatched releases depend on state combinations (static/dynamic source and target) and sizes.',
      [SV], [('buffer selection', SV + ': choose_data, switch_to, shrink_to_fit, revert_to_static'), ('allocator as base class', SV + ': class small_vector')],
      sv_jobs('storage allocator'), technique=AI, note=AINOTE),
    P('C04', 'static_vector constructs and destroys every element exactly once',
      'Whatever sequence of static_vector operations runs, every element counted by size() is a live object inside the vector\'s own storage, no element beyond size() is alive, '
      'none is destroyed twice, used after destruction or left undestroyed, and nothing is allocated on the heap. '
      'This also holds when an element constructor throws in the middle of an operation (element moves and destructors do not throw).',
      'histories inputs fault_sequences', 'every operation from every valid state (any size up to the capacity, position, count), every exception point',
      'The tests sample a few sizes with a counting element; the property quantifies over all sizes, positions and exception points.',
      [ST], [('element moves on insertion and erasure', ST + ': grow_at, shrink_at'), ('construction and destruction in place', ST + ': construct/destroy helpers')],
      st_jobs('storage'), technique=AI, note=AINOTE),
    P('C05', 'static_vector operations yield the elements std::vector would',
      'After each static_vector operation within the capacity (construction, copy, move, conversion, swap, assign, insert, emplace, erase, push/pop, resize, clear) size(), the order and the values of the elements, '
      'the returned iterator and the source object are those std::vector specifies, including when the inserted value is an element of the vector itself (insert). '
      'push_back and emplace_back which throw leave the vector unchanged.',
      'histories inputs', 'every operation from every valid state (any size up to the capacity, position, count)',
      'Tests compare literal sequences of a handful of elements; off-by-one mistakes at particular sizes and positions stay unseen.',
      [ST], [('insertion and erasure in place', ST + ': insert, emplace, erase, grow_at, shrink_at'), ('copies and moves', ST + ': constructors, operator=, assign, swap')],
      st_jobs('content', drv='^d_(?!o_)'), technique=AI, note=AINOTE),
    P('C06', 'static_vector reports exceeding its capacity before touching anything',
      'With error handling by exceptions, every static_vector operation which would need more than Capacity elements throws std::out_of_range, for any requested count up to the maximum of size_t. '
      'Insertion, push_back, emplace and resize which throw so leave the vector and their arguments unmodified; assignment leaves a valid vector.',
      'inputs histories', 'every growing operation, every size and every count, including counts which overflow size_t arithmetic',
      'Tests try a count or two beyond a tiny capacity; the property includes counts which overflow the size arithmetic and every starting size.',
      [ST], [('capacity checks', ST + ': I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF and its uses')],
      st_jobs('capacity content', drv='^d_o_'), technique=AI, note=AINOTE),
    P('C07', 'pod_vector owns exactly one buffer, large enough and aligned',
      'After any pod_vector operation the buffer is null with capacity() 0, or one live allocation of the vector\'s own allocator which holds capacity() >= size() elements and is aligned for the element type (over-aligned types included); '
      'every allocation is freed exactly once through the allocator it came from, and no operation reads or writes outside the buffers or reads a released one. '
      'Moves, swap and recast_take_from transfer the buffer and its allocator, leaving an empty usable source, also on self-assignment; shrink_to_fit makes capacity() equal size(), reserve, resize and shrink_to_fit return whether the buffer moved, and additions which fit in capacity() keep the buffer.',
      'histories inputs configurations', 'every operation from every valid state, for malloc/realloc, reallocating and expanding allocators, plain, byte and over-aligned elements',
      'Tests use one or two element types and a counting allocator at a few sizes; buffer arithmetic and alignment offsets depend on size, element type and allocator kind.',
      [PV], [('buffer arithmetic and alignment', PV + ': class pod_vector, impl aligned buffer helpers'), ('growth and shrinking', PV + ': reserve, shrink_to_fit, resize'), ('reinterpretation', PV + ': recast_take_from, recast_copy_from')],
      pv_jobs('storage allocator'), technique=AI, note=AINOTE),
    P('C08', 'pod_vector operations yield the elements std::vector would',
      'After each pod_vector operation (construction, copy, move, swap, assign, insert, emplace, erase, push/pop, resize, reserve, shrink_to_fit, clear, recast_copy_from/recast_take_from) size(), the order and the bytes of the elements and the returned iterator are those std::vector specifies, also when the value passed is an element of the vector itself. '
      'resize(n) and the count constructor zero-fill new elements when the allocator asks for it; resize with a value changes only the new elements. '
      'Elements not mentioned by an operation survive growth, reallocation and shrinking.',
      'histories inputs configurations', 'every operation from every valid state (any size, capacity, position, count)',
      'Tests compare literal sequences of a handful of elements; byte-size arithmetic mistakes and reallocation of particular sizes stay unseen.',
      [PV], [('raw copies of elements', PV + ': insert, erase, grow and shrink helpers'), ('zero fill', PV + ': resize, constructors')],
      pv_jobs('content'), technique=AI, note=AINOTE),
    P('C09', 'flat_set holds its elements in order, one per equivalence class',
      'Made from any container, range or list, a flat_set has its elements in the order of its comparison (any strict weak order, with or without state, which is kept by copies, moves and swaps), without equivalent ones; insert and emplace add an element exactly at its place, only if no equivalent one is there, and erase removes exactly the element given or equivalent to the key. '
      'lower_bound, upper_bound, equal_range, find and count (with keys of the element type or of others) give what the order says, and insertions, erasures and lookups leave all other elements, and lvalue arguments, as they were.',
      'inputs histories', 'every set of every size, every key (present, absent, before, after, in between), every position; comparison with and without state',
      'Tests use a dozen ints in three orders.',
      [FS], [('construction', FS + ': flat_set(container_type, ...)'), ('lookup', FS + ': lower_bound, find, ...'), ('modifiers', FS + ': insert, emplace, erase, swap')],
      [Abs('flat_set.cpp', 'content', d, std=s_, thorough=t) for d, s_, t in FLAT('VpE')],
      technique=ORD, note=AINOTE),
    P('C10', 'flat_map maps each key once, in order, to the value given for it',
      'Made from any container, range or list, a flat_map has its elements in the order of the comparison of their keys (kept by copies, moves and swaps), one per key; insert, emplace and operator[] add an element with exactly the key and value given (or a default value), exactly at its place and only if the key was absent, and erase removes exactly the element given or of the key. '
      'Lookups (lower_bound, upper_bound, equal_range, find, count, operator[] and at, which throws out_of_range for absent keys) give what the order of the keys says, and all other elements, and lvalue arguments, are left as they were.',
      'inputs histories', 'every map of every size, every key (present, absent, before, after, in between), every position; comparison with and without state',
      'Tests use a few elements with string keys.',
      [FM], [('construction', FM + ': flat_map(container_type, ...), pair_compare'), ('lookup', FM + ': lower_bound, find, at, operator[]'), ('modifiers', FM + ': insert, emplace, erase, swap')],
      [Abs('flat_map.cpp', 'content', d, std=s_, thorough=t) for d, s_, t in FLAT('P')],
      technique=ORD, note=AINOTE),
    P('C11', 'dynamic_bitset: bits are independent and keep their values',
      'After construction from a size and a word every bit is the corresponding bit of the word; test, operator[], bit references and iterators all see the same bit; set, reset, set(b), flip and assignments through references or iterators change exactly the bit addressed. '
      'push_back and resize keep every bit below the new size, give the added bits their value (zero for resize) no matter what was there before a shrink, and size(), word_size(), byte_size() and empty() always agree with the number of bits. '
      'Copies are equal and independent, moves transfer the bits and leave an empty, usable source; a failed allocation in resize or push_back changes nothing.',
      'inputs histories fault_sequences', 'every size, every index, all contents (bit by bit), words of 8, 16, 32 and 64 bits',
      'Tests check a few sizes with 32-bit words only; boundaries between words, stale bits after shrinking and narrow or wide words are not covered.',
      [DB], [('bit access', DB + ': test, set, reset, flip, bitref, iterator'), ('sizes', DB + ': resize, push_back, reserve, word_size')],
      db_jobs(False), technique=BITS, note=AINOTE),
    P('C35', 'dynamic_bitset: append, copy, assign and queries are exact to the bit',
      'append adds exactly the bits of the other bitset (itself included) after the own ones at any bit offset, copy transfers exactly the given range of bits between any bit offsets and leaves all others and the source alone, and assign takes over the bits of the words given; none of them touches memory outside the buffers or shifts by the width of a word or more. '
      'all() is true iff there are bits and every one is set, any() iff some bit is set, none() iff none is; bits beyond the size have no influence. A failed allocation in append changes nothing.',
      'inputs histories fault_sequences', 'all contents (bit by bit); every size up to a few words and every combination of offsets within them for append and copy (8-bit words), selected ones for 16, 32 and 64 bits; appending to a whole number of words: any size',
      'Tests use a few offsets and sizes with 32-bit words; every combination of offset, length and word width takes another path through the shifts.',
      [DB], [('append', DB + ': append'), ('copy', DB + ': copy'), ('queries', DB + ': all, any, none')],
      db_jobs(True), technique=BITS, note=AINOTE + ' Sizes in append, copy and the queries are enumerated up to 2-3 words: their loops are unrolled, not summarised.'),
    P('C12', 'expected holds exactly one alternative, constructed and destroyed once',
      'An expected (of any specialisation: value, reference or void with an error or void) always holds exactly one live alternative, the one has_value(), has_error() and bool report; construction, moves and assignments between any two states, clear() and emplace() construct and destroy each alternative exactly once. '
      'If a copy or emplace of an expected<T, void> throws, the object reports only a value which is alive. Moves of the alternatives do not throw.',
      'histories inputs fault_sequences', 'every specialisation, every pair of states of source and target, every throwing copy',
      'Tests use trivially destructible or lenient alternatives for many of the state pairs, so a missing or doubled destruction in one pair is invisible.',
      [EX], [('switching alternatives', EX + ': operator=, move constructors'), ('optional interface', EX + ': clear, emplace')],
      std_jobs('expected.cpp', 'active', defs=((), ('XT=VpE', 'XE=VpE'), ('XT=VpF', 'XE=VpE'), ('NDEBUG',))), technique=BRIEF, note=AINOTE),
    P('C13', 'expected gives back the value or error it was given',
      'Constructing or assigning an expected from a value, from unexpected(error) or from another expected transfers exactly that value or error, and value(), operator*, operator->, error() lead to it; a reference expected refers to the very object it was given and rebinds on assignment. '
      'value_or gives the value if there is one and its argument otherwise. Arguments passed as lvalues (to unexpected, value_or, emplace) are copied, never moved from or referred to.',
      'inputs histories', 'every specialisation, every state, every value category of the argument',
      'Tests check single values in single states; value categories and the source object after the call are rarely looked at.',
      [EX], [('construction from errors', EX + ': unexpected, unexpected_t'), ('getters', EX + ': value, error, value_or')],
      std_jobs('expected.cpp', 'content active', defs=((), ('XT=VpE', 'XE=VpE'), ('XT=VpF', 'XE=VpE'), ('NDEBUG',))), technique=BRIEF, note=AINOTE),
    P('C14', 'any owns one block for its value',
      'An any with a value owns exactly one block from its allocator, sized and aligned for the value, which is released once with the same size, alignment and allocator, together with the destruction of the value; an empty any owns nothing. '
      'Emplacing, assigning, copying, moving and resetting keep this in every pair of states, also when the allocation or the constructor of the value throws, and on self-assignment or assignment of (a part of) its own value.',
      'histories inputs fault_sequences configurations', 'every operation in every pair of states (empty, copyable, non-copyable, over-aligned value), every throwing step, default and stateful allocators',
      'Tests store a few types and never make allocation or construction fail; leaks on throwing paths stay unseen.',
      [AN], [('block handling', AN + ': emplace, copy_from, reset, free_block'), ('allocators', AN + ': default_allocator')],
      std_jobs('any.cpp', 'storage allocator', defs=(('ALLOC=1',), ('ALLOC=0',))), technique=BRIEF, note=AINOTE),
    P('C15', 'any gives its value back by exactly its type',
      'has_value, type(), data(), tdata and any_cast agree: the value is reachable exactly by the decayed type it was stored with, any_cast by another type gives null or throws bad_cast, and the value is the one stored (a copy of an lvalue, never a reference to it). '
      'Copies have an equal separate value (bad_cast if it is not copyable, leaving the source), moves transfer the value without relocating it and leave the source empty and usable.',
      'inputs histories', 'every operation in every pair of states (empty, copyable, non-copyable, over-aligned value)',
      'Tests check a few types on fresh objects; combinations of states and value categories are not covered.',
      [AN], [('typed access', AN + ': any_cast, tdata, type'), ('copy and move', AN + ': constructors, operator=')],
      std_jobs('any.cpp', 'type content', defs=(('ALLOC=1',), ('ALLOC=0',)), drv='^d_(?!move_assign_unequal_alloc)'), technique=BRIEF, note=AINOTE),
    P('C16', 'generator gives what its coroutine yields and releases its frame once',
      'A generator runs nothing of its coroutine before the first value is asked for; then next() and the iteration give exactly the yielded values in order (references lead to the very objects yielded, values are moved and not copied), an exception of the coroutine leaves the call, and after the end or an exception next() is empty and done() true. '
      'The coroutine frame with everything alive in it is destroyed exactly once (on destruction, reset or move assignment, wherever the coroutine is suspended), moves leave an empty source, and a generator survives self-move-assignment.',
      'histories inputs fault_sequences', 'every generator state reached by up to three steps in which the coroutine yields, returns or throws as the analysis chooses, followed by every operation',
      'Tests iterate a few fixed coroutines to the end (and not in this build); abandoned, throwing, moved and reset coroutines with live locals are hardly covered.',
      [GE], [('frame ownership', GE + ': generator::operator=, reset, ~generator'), ('resumption', GE + ': safe_resume, next, pseudo_iterator'), ('values', GE + ': promise_type, generator_value')],
      [Abs('generator.cpp', 'generator content', d, std='c++20', passes=CORO) for d in ((), ('ET=VpM',), ('NDEBUG',))], technique=BRIEF + ', after coroutine splitting', note=AINOTE),
    P('C17', 'data_mutex gives access only under its lock and releases every lock once',
      'Every lock object of a data_mutex which gives access holds the mutex in its mode (exclusive or shared) for as long as it gives access, and releases it exactly once, in that mode; a failed try lock, a lock function which throws and a moved-from lock hold nothing and release nothing. '
      'Shared locks and locks of a const data_mutex give read-only access, all locks lead to the same data, and neither the data_mutex nor its locks can be copied.',
      'histories fault_sequences', 'every kind of lock, acquired, refused, throwing, moved, returned and left by exception',
      'Tests cannot make a mutex throw or observe a missing or doubled release with std::mutex; type-level guarantees need programs which do not compile.',
      [DM], [('lock objects', DM + ': unique_lock_base_t, shared_lock_base_t and derived')],
      std_jobs('data_mutex.cpp', 'lock content'), technique=BRIEF + '; static_assert witnesses for the access types', note=AINOTE),
    P('C18', 'strong_try_rec_mutex: try_lock succeeds exactly when free or owned by the caller',
      'At any recursion depth, try_lock by the owner succeeds, by another thread fails without side effects, and after as many unlocks as successful try_locks (and no sooner) any thread can lock it. '
      'All of its state is accessed only inside one critical section of its internal mutex per operation, which is always released, so concurrent operations are equivalent to some order of them.',
      'schedules histories', 'any depth, any thread identities, any order of operations; lockset argument for concurrency',
      'Tests run a schedule or two at depth two; counters which break at larger depth and unlocked accesses are invisible.',
      [MX], [('ownership and depth', MX + ': try_lock, unlock')],
      std_jobs('mutex.cpp', 'lock race', defs=((), ('NDEBUG',))), technique=LOCKS, note=AINOTE),
    P('C19', 'atomic_shared_ptr_storage: single critical sections and exact ownership',
      'Before C++20, load, store, exchange and compare_exchange of atomic_shared_ptr_storage touch the stored pointer only inside one critical section of its spinlock per operation (acquire on taking, release on leaving, always released) and run no pointee destructor inside it. '
      'They transfer ownership exactly: load shares it, store and a successful compare_exchange release the old pointer, exchange returns it, a failing compare_exchange stores the current pointer into expected and leaves the storage unchanged.',
      'schedules histories', 'every operation on empty and non-empty storage, contended and uncontended lock',
      'Races and wrong memory orders do not show on a few schedules of a strongly ordered machine; ownership counts are not compared by tests in every case.',
      [AP], [('spinlock', AP + ': asps_spinlock, lock_guard'), ('operations', AP + ': asps_holder')],
      std_jobs('asps.cpp', 'lock race ownership', tstds=('c++14',)), technique=LOCKS, note=AINOTE),
    P('C20', 'atomic_relaxed_counter: indivisible updates with integer results',
      'Every increment, decrement, += and -= of an atomic_relaxed_counter takes effect as exactly one indivisible update of its value (whatever other threads do to it in between), every write stores the value given, every read changes nothing, so no update is lost or doubled under concurrency. '
      'Their results and the resulting value are those of the same operation on the integer at the moment of that update: prefix and compound forms give the new value, postfix forms the old one.',
      'schedules inputs', 'every operation, every value in range of several integer types, any change by other threads before every access',
      'A lost update between a load and a store needs a particular interleaving which tests do not produce.',
      [AT], [('operations', AT + ': atomic_relaxed_counter')],
      std_jobs('atomics.cpp', 'atomic', defs=((), ('IT=long',), ('IT=unsigned char',), ('IT=short',))), technique='interference (rely) analysis of atomic accesses on LLVM IR inside a path-sensitive abstract interpretation', note=AINOTE),
    P('C21', 'sentry calls its function exactly once, when its scope ends',
      'The function given to a sentry is called exactly once, at the end of the life of the sentry (or of the sentry it was last moved to, before C++17), however the scope is left, and not before. '
      'Function objects given as rvalues are moved in, stay alive until the call and are destroyed once; those given as lvalues are referred to; sentries of one scope run in reverse order.',
      'histories', 'every way of creating, returning and moving a sentry, scopes left normally, by return and by exception',
      'Tests count calls in a few scopes in one language mode.',
      [SE], [('call on destruction and moves', SE + ': sentry')],
      std_jobs('sentry.cpp', 'calls content'), technique=BRIEF, note=AINOTE),
    P('C22', 'ufunction calls exactly the target it was given, and never copies it',
      'A call of a ufunction calls its target once with the given arguments and gives back its result or exception; a ufunction without a target (default, null, moved from) is falsy and throws bad_function_call. '
      'The target is moved in (an lvalue copied once), never copied afterwards, stays put when the ufunction is moved and is destroyed exactly once when it is replaced or its ufunction dies.',
      'histories inputs', 'every kind of target (move-only, copyable, throwing, function pointer), every pair of states in assignments',
      'Tests use a handful of lambdas; lifetimes of targets in moves and replacements are not observed.',
      [UF], [('target wrapper', UF + ': copy_wrapper'), ('construction and assignment', UF + ': ufunction')],
      std_jobs('ufunction.cpp', 'calls content'), technique=BRIEF, note=AINOTE),
    P('C23', 'span, stride_span, poly_span and memory_view show exactly their range',
      'A span (of pointers, arrays, containers, other spans, const or not) has exactly the elements it was made from, in order: size(), data(), begin()/end() and reverse iteration, at(), [], front(), back() and iterator arithmetic (order and signed distances too) agree on where element i is, stride_span elements being stride() bytes apart and poly_span elements being what the function gives. '
      'subspan(off, count), slice and first() clamp to the range for any off and count up to the maximum of size_t, last(), remove_prefix and remove_suffix drop exactly the elements asked for, no slice ever leaves the range, and constness is never lost.',
      'inputs', 'every size, index, offset and count (offsets and counts over all of size_t), several element sizes and strides',
      'Tests slice a handful of small spans; offsets near the maximum of size_t and negative iterator distances are not tried.',
      SPANS, [('slicing', SPANS[0] + ': subspan, first, last'), ('strides and iterators', SPANS[1] + ': t_iterator, at'), ('access function', SPANS[2] + ': at, t_iterator'), ('views', SPANS[3] + ': slice')],
      std_jobs('spans.cpp', 'span', defs=((), ('ET=vp_u8',), ('ET=int', 'STRIDE=12', 'NDEBUG'))),
      technique='abstract interpretation of the compiled headers (LLVM IR) with relational linear arithmetic over pointers and sizes; static_assert witnesses for constness', note=AINOTE),
    P('C24', 'mem_streambufs read and write exactly their memory',
      'A mem_ostreambuf stores every written element at the put position and onwards, growing the container as needed and keeping what is before and after it; poff() is that position, get_container() gives exactly the elements before it and leaves an empty, usable buffer, as clear() does, and a copy writes to its own container. '
      'A mem_istreambuf reads exactly the elements of the given memory in order and never modifies it; goff() and size() tell the get position and the size. '
      'Seeks to positions inside the buffer (whatever the base) move there, all others fail without effect, and no read or write ever leaves the buffer.',
      'inputs histories fault_sequences', 'every size of every write and read, reserved or not, any 64-bit seek offset from any base, allocation failure',
      'Tests write a few short strings and seek to a few valid places.',
      [MS], [('output', MS + ': mem_ostreambuf'), ('input', MS + ': mem_istreambuf')],
      [Abs('mem_streambuf.cpp', 'content', d, std=s_, thorough=t) for d, s_, t in (((), 'c++17', False), (('SSO=0',), 'c++11', False), (('CONT=std::vector<char>', 'NDEBUG'), 'c++20', False), (('CONT=VpCont<wchar_t>', 'SSO=8'), 'c++14', False), (('SSO=3',), 'c++14', True), (('CONT=std::vector<char>',), 'c++11', True))],
      technique=BRIEF, note=AINOTE),
    P('C25', 'Every header stands alone, and any number of them mix in any number of files',
      'Every header compiles by itself, included first and more than once, with gcc and clang in every language standard from the oldest it documents, and its templates can be used without including anything which its documentation does not ask for; all headers can be included together in any order. '
      'No header defines functions or variables which collide when several source files of a program include it, or leaves macros behind whose names do not start with ITLIB_ or I_ITLIB_.',
      'configurations', 'every header with two compilers and four standards; the members of every class template instantiated; headers together in both orders (every ordered pair in the thorough check)',
      'Every test includes one header, mostly after others and in one source file, so missing includes, missing inlines and conflicts between headers are not seen.',
      ['include/itlib/' + h for h in ('small_vector.hpp', 'dynamic_bitset.hpp', 'tep_vector.hpp', 'time_t.hpp', 'strutil.hpp', 'utility.hpp')] + ['README.md'], [('single headers', 'include/itlib/*.hpp')],
      [Wit(wits.hygiene), Wit(wits.hygiene, deep=True, thorough=True), Wit(wits.odr), Wit(wits.macros)],
      technique='compile witnesses generated from the list of headers (type checker of two compilers as decision procedure); linkage query over the LLVM IR of all headers; query over the preprocessed headers', note='All headers found in include/itlib are checked; a header without an entry in the table of uses is checked only by including it.', trusted=['gcc 13 and clang 18 front ends']),
    P('C26', 'Errors and accesses out of bounds are handled as configured',
      'With the error handling of small_vector and static_vector set to throw, assert or both, every operation with a position outside of the vector (small_vector) or beyond the capacity (static_vector) throws std::out_of_range or fails an assertion accordingly (both: assertion in debug, exception otherwise), and at() of a flat_map without the key throws or, with ITLIB_FLAT_MAP_NO_THROW, asserts. '
      'In debug, [] and at() of vectors and spans with an index out of bounds fail an assertion unless the bounds checks are disabled. No configuration makes a valid operation fail.',
      'configurations inputs', 'all error handling modes with and without NDEBUG and bounds checks; every position, count and index out of range (indices and counts over all of size_t), every valid one',
      'Tests run in one configuration; assertions cannot be tested by them at all.',
      [SV, ST, FM] + SPANS, [('configuration macros', SV + ': I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF'), ('configuration macros', ST + ': I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF'), ('bounds checks', SPANS[0] + ': at')],
      [Abs('config.cpp', 'config', d, std=s_, thorough=t) for d, s_, t in (
          ((), 'c++17', False), (('EH=0',), 'c++11', False), (('EH=2',), 'c++17', False), (('EH=3',), 'c++11', False), (('NDEBUG',), 'c++11', False), (('EH=3', 'NDEBUG'), 'c++17', False),
          (('EH=2', 'NDEBUG'), 'c++20', False), (('EH=0', 'NDEBUG'), 'c++17', False), (('NOBC',), 'c++17', False), (('EH=2', 'NOBC'), 'c++20', False), (('EH=3', 'NOBC', 'NDEBUG'), 'c++14', True))] +
      [Abs('small_vector.cpp', '', ['ITLIB_SMALL_VECTOR_ERROR_HANDLING=%d' % m], drv='^d_(insert|erase|emplace|resize|push|assign|ctor|clear|access)', thorough=m == 0) for m in (0, 2, 3)] +
      [Abs('static_vector.cpp', '', ['ITLIB_STATIC_VECTOR_ERROR_HANDLING=%d' % m], drv='^d_(insert|erase|emplace|resize|push|assign|ctor|clear|access|convert)', thorough=m == 0) for m in (0, 2, 3)],
      technique='abstract interpretation of the compiled headers (LLVM IR) in every configuration: reachability of assertion failures and exceptions with relational linear arithmetic', note=AINOTE),
    P('C27', 'make_ptr and shared_from helpers share ownership exactly',
      'itlib::make_shared and make_unique give a sole owner of a new object of the (const-preserving) type of their argument, moved or copied from it by value category, without leaks when the allocation or constructor throws. '
      'make_aliased, shared_from, weak_from, shared_from_this and weak_from_this give pointers to exactly the given object which share (or observe) the ownership of the owner, and null, or bad_weak_ptr, if there is no owner.',
      'histories inputs fault_sequences', 'every helper with owners of every kind (sole, aliased, empty, owner without control block, expired)',
      'Tests check use counts of one scenario each.',
      [MP, SF], [('helpers', MP + ': make_shared, make_unique, make_aliased'), ('enable_shared_from', SF)],
      std_jobs('ptrs.cpp', 'ownership content'), technique=BRIEF, note=AINOTE),
    P('C28', 'pmr_allocator allocates objects from its resource and gives them back',
      'The allocation functions of pmr_allocator ask its memory resource once for exactly the size and alignment of what is allocated (or throw bad_array_new_length if that exceeds size_t), and the deallocation functions give it back with the same size and alignment. '
      'new_object constructs exactly one object from the forwarded arguments (and the allocator, if the type uses one), releases the memory if the constructor throws, and delete_object destroys the object and releases its memory once.',
      'inputs fault_sequences', 'every count (also those whose size overflows), types of several sizes and alignments, types which use allocators, throwing constructors',
      'Tests allocate one or two types from one resource, with constructors which do not throw.',
      [PM], [('allocation', PM + ': allocate_bytes, allocate_object, new_object and their opposites')],
      [Abs('pmr.cpp', 'allocator content'), Abs('pmr.cpp', 'allocator content', ['NDEBUG'])], technique=BRIEF, note=AINOTE),
    P('C29', 'transparent_umap looks up keys of other types without making keys of them',
      'at() and operator[] of a transparent_umap with keys of other types find the element which the hash and equality say, without making a key of the argument; at() throws out_of_range if there is none, operator[] and try_emplace (with or without a hint) insert exactly one element made from the argument and leave present elements and the arguments not used as they are. '
      'These overloads exist for a key of another type only if the hash and equality are both transparent, and for inserting ones only if a key can be made from the argument.',
      'inputs', 'every map and key through the contract of std::unordered_map: present or absent, lvalue or rvalue, convertible or not, transparent hash and equality or not',
      'The existing test does not even instantiate the class.',
      [TU], [('lookup and insertion', TU + ': at, operator[], try_emplace')],
      [Abs('umap.cpp', 'content', std='c++20'), Abs('umap.cpp', 'content', ['NDEBUG'], std='c++20')], technique=BRIEF + '; the base class is replaced by its contract; static_assert witnesses for overloads', note=AINOTE),
    P('C30', 'time_t is exactly its number of seconds',
      'An itlib::time_t compares, is shifted by durations and is subtracted like the number of seconds since the epoch it holds (sub-second durations truncate toward zero); now(), gmtime, localtime, from_gmtime and from_localtime give what the corresponding C library function gives for exactly that value, without changing the std::tm given. '
      'strftime gives exactly the text which std::strftime makes of the format and time, whatever its length (below 1000 here) and also if it is empty.',
      'inputs', 'every value and duration (within the range of their sums), every result of the C library functions, texts of any length below 1000',
      'Tests format one date with one format; texts which need more than one buffer size or are empty need chosen formats.',
      [TT], [('values', TT + ': class time_t'), ('formatting', TT + ': strftime')],
      std_jobs('time_t.cpp', 'content'), technique=BRIEF + '; the C library functions are replaced by their contracts', note=AINOTE),
    P('C31', 'throw_ex throws exactly one exception with the text inserted',
      'Each throw_ex full expression throws exactly one exception of the type asked for, made from all the text inserted in order (none is lost or repeated, whatever the value category of the pieces), destroys its stream once, and execution never continues after it; it also works inside the handler of another exception. '
      'If an insertion throws, that exception propagates and no second one is thrown.',
      'inputs fault_sequences', 'every number of pieces from none to five, a throwing insertion, throwing inside a handler',
      'Tests throw two or three exceptions; unwinding while pieces are inserted and use in handlers are not covered.',
      [TE], [('throwing destructor', TE + ': ~throw_ex, operator<<')],
      std_jobs('throw_ex.cpp', 'content'), technique=BRIEF + '; the string stream is replaced by a recording contract', note=AINOTE),
    P('C32', 'Container and string helpers find, erase and trim exactly what they say',
      'qfind(_if) and pfind(_if) give the first element which is equal or matches (end or null otherwise), erase_first(_if) erases just that one, erase_all(_if) exactly the elements which match, keeping the order of the others and telling how many, and qany_of, qall_of and qnone_of tell whether any, all or no element matches; searches change nothing. '
      'starts_with and ends_with tell whether the string begins or ends with the other, remove_prefix_all and remove_suffix_all remove exactly all copies of a non-empty affix, and make_string_view shows exactly the range given.',
      'inputs', 'containers of every size with the first match anywhere or nowhere; strings and affixes of every length, affixes of length 1 to 3 repeated any number of times',
      'Tests use a handful of short containers and strings.',
      [QA, SU], [('algorithms', QA), ('affixes', SU + ': starts_with, ends_with, remove_prefix_all, remove_suffix_all')],
      [Abs('qalgorithm.cpp', 'content', d, std=s_, thorough=t) for d, s_, t in (((), 'c++17', False), (('CONT=itlib::small_vector<VpE,4>',), 'c++11', False), ((), 'c++20', True))] +
      [Abs('strutil.cpp', 'content', ['M=%d' % m], std='c++20' if m == 2 else 'c++17') for m in (1, 2, 3)], technique=BRIEF + '; contracts for the algorithms of the standard library and for texts made of repeated affixes', note=AINOTE),
    P('C33', 'Read streams read the wrapped stream, and redirected ones restore it',
      'read() of an rstream gives exactly the next elements of the wrapped stream, advances it by as many, and good(), fail(), eof() and bool tell the state of the wrapped stream; an rstream cannot be used to seek, and wrapping moves nothing. '
      'A redirect_rstream reads from the position given and restores the original position when it is destroyed, also as an rstream, when nested, and when the scope is left by an exception.',
      'inputs histories fault_sequences', 'streams of every length at every position, reads of any length, every state of the wrapped stream, every position of the redirection',
      'Tests read a few characters of one string.',
      [RS], [('reading', RS + ': basic_rstream::read'), ('position', RS + ': basic_redirect_rstream')],
      std_jobs('rstream.cpp', 'stream', defs=((), ('SHR',))), technique=BRIEF + '; the stream is replaced by the contract of std::istringstream', note=AINOTE),
    P('C34', 'Utilities give exactly the object, bits or answer their names say',
      'force_move gives an rvalue of a non-const lvalue and refuses const ones, owner_from_member gives the object whose member the reference is, bit_cast keeps all bits and refuses types of different size, make_nullptr gives a null pointer of the type. '
      'is_noop_convertible is true exactly for scalars of equal size, not between floating point and others, nor from others to bool; is_instantiation_of exactly for instantiations of the template; type_identity is its argument.',
      'inputs', 'every object, member and bit pattern; the traits for every pair of 23 types with qualifiers',
      'Tests try few pairs of types and one member.',
      [UTL, TYT], [('utilities', UTL), ('traits', TYT)],
      std_jobs('utility.cpp', 'content', stds=('c++11', 'c++20'), tstds=('c++17',)) +
      [Wit(wits.must, bad=[('utility.cpp', s_, [d], w) for s_ in ('c++11', 'c++20') for d, w in (('BAD_MOVE', 'force_move refuses const lvalues'), ('BAD_CAST', 'bit_cast refuses types of different size'))])],
      technique=BRIEF + '; static_assert witnesses and programs which must not compile', note=AINOTE),
    P('C36', 'Containers are equal exactly when their elements are',
      'Two small_vectors, static_vectors (also of different capacities), pod_vectors, flat_sets or flat_maps compare equal with == exactly when they have as many elements and each equals (in a pod_vector: has the same bytes as) the one of the other at its place; != is the negation. '
      'Comparisons change nothing, and copies and a container itself compare equal.',
      'inputs', 'every two sizes, every position of the first difference, static or dynamic buffers, vectors and small_vectors as underlying containers',
      'Tests compare a few short vectors which differ in size or in one element.',
      [SV, ST, PV, FS, FM], [('vectors', SV + ': operator=='), ('fixed capacity', ST + ': operator=='), ('bytes', PV + ': operator=='), ('sets and maps', FS + ', ' + FM + ': operator==')],
      [Abs('equality.cpp', 'equality content', d, std=s_, thorough=t) for d, s_, t in
       ((('KIND=0',), 'c++17', False), (('KIND=0', 'SB=16,2', 'NDEBUG'), 'c++11', False), (('KIND=1',), 'c++17', False), (('KIND=1', 'SB=10', 'NDEBUG'), 'c++11', False), (('KIND=2',), 'c++17', False), (('KIND=2', 'NDEBUG'), 'c++11', False),
        (('KIND=3',), 'c++17', False), (('KIND=3', 'CONT=itlib::small_vector<E,4>'), 'c++11', False), (('KIND=4',), 'c++17', False), (('KIND=4', 'CONT=itlib::small_vector<E,4>'), 'c++11', False),
        (('KIND=0', 'SB=0,0'), 'c++20', True), (('KIND=1', 'SB=1'), 'c++20', True), (('KIND=2',), 'c++20', True), (('KIND=3',), 'c++20', True), (('KIND=4',), 'c++20', True))],
      technique=BRIEF + '; the first difference of two sequences is an uninterpreted fact', note=AINOTE),
    P('C37', 'Owners are never copied by accident and move without exceptions',
      'generators, ufunctions, sentries, locks, data_mutexes, mutexes, atomic pointer storages and expecteds with an error cannot be copied; the mutexes and storages do not move either. '
      'Vectors, sets, maps, bitsets, any, expected, ufunction, generator and locks move and die without exceptions whenever their elements do, so standard containers move rather than copy them, and spans and views are trivially copied.',
      'inputs', 'the class templates, instantiated with types whose copies may throw and types which only move, decided by the type checker in the oldest and the newest standard',
      'A test cannot see that a program is accepted which should not be, nor which operations could throw.',
      ALLH, [('classes', 'include/itlib/: copy and move operations')],
      [Wit(wits.must, good=[('types.cpp', s_, ['H_' + h, 'P_MOVE'], h + ': how it is copied and moved') for h in TYPES for s_ in (('c++20',) if h == 'generator' else ('c++11', 'c++20'))])],
      technique='static_assert witnesses over the copy and move operations of every class template, decided by the type checker of clang', note=TYNOTE, trusted=TYTRUST),
    P('C38', 'Const objects give no way to modify, and no conversion adds one',
      'Elements, values, errors and data of const containers, expecteds, anys, bitsets and mutexes, and of views and spans of const, are only given as const, by every accessor, iterator, search and member type. '
      'Views of const come from others but never the reverse (nor spans from temporary containers, reference expecteds from temporaries, iterators from const iterators), shared locks and locks of const data_mutexes give const access. '
      'Tests for a value, sizes, counts, numbers and whole containers convert only explicitly, and accessors give lvalues or rvalues as the object is.',
      'inputs', 'every accessor and conversion of every class template, decided by the type checker in the oldest and the newest standard',
      'A test cannot see that a program is accepted which should not be.',
      ALLH, [('classes', 'include/itlib/: accessors, member types and converting constructors')],
      [Wit(wits.must, good=[('types.cpp', s_, ['H_' + h], h + ': accessors, member types and conversions') for h in TYPES for s_ in (('c++20',) if h == 'generator' else ('c++11', 'c++20'))])],
      technique='static_assert witnesses over the accessors, member types and conversions of every class template, decided by the type checker of clang', note=TYNOTE, trusted=TYTRUST),
    P('C39', 'Operations ask of their types no more than they need',
      'Operations which copy nothing by nature (moves, swaps, growth, insertion of rvalues, emplacement, erasure, lookups, searches, locks, calls) work with types which only move, have no default constructor and no comparison. '
      'Those which copy work with types which are only copied, and those which construct with types which are never assigned. '
      'Arguments of emplacements, of new_object, try_emplace, make_shared and of calls arrive as the lvalues or rvalues they are given as, explicit constructors included.',
      'inputs', 'the class and function templates, used with minimal types, decided by the type checkers of both compilers in the oldest and newest standards',
      'A test with ordinary types cannot see that a program with less capable types is refused, nor that a move became a copy.',
      ['include/itlib/%s.hpp' % h for h in 'small_vector static_vector flat_set flat_map any expected ufunction data_mutex sentry make_ptr generator pmr_allocator transparent_umap qalgorithm span utility throw_ex'.split()],
      [('classes', 'include/itlib/: operations which take, move or forward')],
      [Wit(wits.must, good=[('needs.cpp', s_, ['H_' + h, q], h + (': operations with types which only move' if q == 'N_MOVE' else ': operations with types which are only copied'))
                            for h, ss in NEEDS for s_ in ss for q in ('N_MOVE', 'N_COPY')])],
      technique='compile witnesses with archetypes (minimal types), decided by the type checker of clang', note='Each program uses the operations of one header with types which can do no more than the operation needs; a program which is refused is reported with the place of the error.',
      trusted=['clang 18 front end', 'the programs in harness/needs.cpp state the property']),
    P('C40', 'Const operations write nothing, and separate objects share nothing',
      'No operation on a const container, set, map, bitset, any, expected, function or span (sizes, access, iteration, lookup, comparison, copying from it) writes to the object, its elements or its buffer, so any number of threads may use one object this way at once. '
      'The library keeps no variable of its own: operations on separate objects have nothing in common.',
      'schedules', 'all sizes, capacities, contents and keys of the drivers, over every store of the compiled operation; and all variables of the emitted programs',
      'A test in one thread cannot see a write of the same value, a cache or a counter; nor are the bad schedules met by chance.',
      ['include/itlib/%s.hpp' % h for h in 'small_vector static_vector pod_vector flat_set flat_map dynamic_bitset any expected span stride_span poly_span memory_view ufunction'.split()],
      [('classes', 'include/itlib/: const members')],
      [Abs('const.cpp', 'const', ['WHICH=%d' % k] + x, drv='^d_k_', std=s_) for k, x, s_ in CONSTS] +
      [Abs('const.cpp', 'const', ['WHICH=%d' % k, 'NDEBUG'] + x, drv='^d_k_', std='c++20', thorough=True) for k, x, s_ in CONSTS] + [Wit(wits.state)],
      technique=AI + '; and a scan of the emitted variables', note='The object and its buffer are frozen, then the const operations run: every store, element construction, move or raw copy on every path must go elsewhere. The variables the headers define must be constant.'),
    P('C41', 'Appending takes amortised constant time',
      'When a full small_vector, pod_vector or mem_ostreambuf grows because one element is appended (push_back, emplace_back, insert or emplace at the end, a character written), its capacity grows by a part of what it was, never by a fixed number, so that n appends move O(n) elements.',
      'inputs', 'all sizes from 16 on, with any capacity equal to the size',
      'A test sees correct contents whatever the growth; only the time of long runs would show it.',
      [SV, PV, 'include/itlib/mem_streambuf.hpp'], [('choose_data, get_new_capacity, cap_resize_by', 'include/itlib/')],
      [Abs('small_vector.cpp', 'growth', drv='^d_g_'), Abs('small_vector.cpp', 'growth', ['RB=5', 'NDEBUG'], drv='^d_g_', std='c++20'), Abs('pod_vector.cpp', 'growth', drv='^d_g_'), Abs('pod_vector.cpp', 'growth', ['ALLOC=1', 'NDEBUG'], drv='^d_g_'),
       Abs('pod_vector.cpp', 'growth', ['ALLOC=2'], drv='^d_g_'), Abs('mem_streambuf.cpp', 'growth', drv='^d_g_'), Abs('mem_streambuf.cpp', 'growth', ['CONT=std::vector<char>', 'SSO=0', 'NDEBUG'], drv='^d_g_', std='c++20'),
       Abs('small_vector.cpp', 'growth', ['SC=7', 'RB=2'], drv='^d_g_', std='c++11', thorough=True), Abs('pod_vector.cpp', 'growth', ['ET=VpOver'], drv='^d_g_', std='c++11', thorough=True)],
      technique=AI, note=AINOTE),
]

NOT_APPLICABLE = [
    NA('C42', 'Spin lock waiters and lock-free updates eventually succeed',
       'A thread which loops on the spin lock of atomic_shared_ptr_storage, or on strong_try_rec_mutex::try_lock, gets in once the others have left, '
       'and no thread waits forever while others make progress.',
       'schedules', 'every fair schedule of any number of threads', 'Tests see a few schedules of one machine, and starvation is a property of infinite ones.',
       ['include/itlib/atomic_shared_ptr_storage.hpp', 'include/itlib/mutex.hpp'], [('spin lock', 'include/itlib/atomic_shared_ptr_storage.hpp'), ('try_lock', 'include/itlib/mutex.hpp')],
       'Liveness over infinite schedules: it depends on the fairness of the scheduler and of the hardware atomics, which the source does not determine (the spin lock is unfair by design). '
       'What the source does determine is claimed: every lock taken is released on every path and no object is destroyed inside a critical section of the spin lock (C17-C19).'),
    NA('C43', 'flat_set and flat_map look up in logarithmic time',
       'find, count, lower_bound and the like compare the key with at most a logarithmic number of elements.',
       'inputs', 'every size and key', 'Tests of a few elements cannot tell a logarithmic from a linear search.',
       ['include/itlib/flat_set.hpp', 'include/itlib/flat_map.hpp'], [('lower_bound', 'include/itlib/flat_set.hpp'), ('lower_bound', 'include/itlib/flat_map.hpp')],
       'The bound is logarithmic in a runtime size: the linear-arithmetic domain has no logarithms, and a syntactic rule (call std::lower_bound) would judge how the code is written. '
       'The results of the searches are claimed (C09, C10), and so is the linear bound of appending (C41).'),
    NA('C44', 'time_t gives the calendar date and the local time of its seconds',
       'gmtime, localtime, mktime and strftime of time_t agree with the calendar, the time zone and the locale.',
       'inputs configurations', 'every second, time zone and locale', 'Tests know a few dates in the time zone of the machine.',
       ['include/itlib/time_t.hpp'], [('gmtime, localtime, strftime', 'include/itlib/time_t.hpp')],
       'The results come from the C library and from time zone data which exist only at run time; no static argument about this source reaches them. '
       'What itlib adds is claimed: the call it makes, the arguments it passes and the seconds it holds (C30).'),
]
