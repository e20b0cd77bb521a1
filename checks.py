"""Table of the checks: units (harness programs), how they are built, and what their evidence says."""
ASAN = ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer']
LIBS = {
    'asan': {'flags': ASAN},
    'opt': {'flags': ['-O1']},
    'o2': {'flags': ['-O2']},
    'sched': {'flags': ['-O1', '-fsanitize=thread', '-fsanitize-coverage=trace-pc']},
    'tsan': {'flags': ['-O1', '-fsanitize=thread']},
}
CHECKS = {}


def check(pid, **kw):
    CHECKS[pid] = kw

check('C13', level='exploration', technique='exhaustive bounded enumeration of texts and bit patterns against a decimal reference',
      units=[dict(name='main', src='c13.cpp', lib='opt')],
      rule='texts over a 9-letter alphabet up to the length bound, every short number, neighbourhoods of all powers of two and ten and of multiples of each modulus, digit edits of each limit, run-length bit patterns; non-trivial = distinct (type, expected bytes) accepted or distinct refused text',
      bounds=('texts up to 5 characters; windows of +-40', 'texts up to 6 characters; windows of +-300'))

check('C14', level='exploration', technique='exhaustive enumeration of all 32-bit values and of all short byte strings against a base-128 reference',
      units=[dict(name='main', src='c14.cpp', lib='o2')],
      rule='every 32-bit value (unsigned and zig-zag) through all writers and back; every byte string up to the length bound and continuation-prefix families up to 12 bytes; non-trivial = distinct value or byte string',
      bounds=('all 2^32 values; byte strings of length <=2 complete', 'all 2^32 values; byte strings of length <=3 complete'))
check('C15', level='exploration', technique='exhaustive enumeration of bit patterns and number texts; oracle is bit identity and correctly rounded strtod',
      units=[dict(name='main', src='c15.cpp', lib='o2')],
      rule='bit patterns (all exponents x structured mantissas; thorough: all 2^32 floats), decimal grids d*10^k, all texts over an 8-letter alphabet up to the bound; non-trivial = distinct bit pattern',
      bounds=('float32: 512 sign/exponents x ~10000 mantissas; float64: 4096 x ~230; texts up to 6', 'float32: all 2^32; float64: 4096 x ~5500; texts up to 7'),
      assumptions=['glibc strtod/strtof are correctly rounded (used as the reading oracle and by the code under test)'])

GRAMMAR = 'all types of up to N constructors (optional, array, alias, extension, 1-2-member and derived structs, 1-2-case variants) over leaves int8 and string, all types of up to 3 constructors over all 31 base types, wide structs and inheritance chains up to 9, variants of up to 300 cases, array/string counts 0-300 and around every varuint boundary in six surroundings, triples of adjacent boundary counts'
for _p, _n in (('C01', 1), ('C02', 2)):
    check(_p, level='exploration', technique='exhaustive enumeration of ABIs and values of a bounded grammar on the real code against a reference encoder' if _n == 1 else 'exhaustive enumeration of ABIs and values of a bounded grammar on the real code; canonical-JSON reference and round trip',
          units=[dict(name='main', src='codec.cpp', lib='asan', cflags=[f'-DCHECK={_n}'])],
          rule=GRAMMAR + '; non-trivial = distinct (ABI, value) pair',
          bounds=('N=6, up to 60 values per type (16 at N=6)', 'N=7, up to 60 values per type (8 at N=7); counts 16300-16500 and 2^21'),
          note='The in-order encoder' if _n == 1 else 'The decoder and its round trip')

check('C04', level='exploration', technique='stateless exploration of all member-permutation choices on the real code against a reference encoder',
      units=[dict(name='perm', src='c04.cpp', lib='asan'), dict(name='agree', src='c05.cpp', lib='opt', cflags=['-DCHECK=4'])],
      rule='for every type of the bounded grammar and each of its values, every assignment of a permutation to every object (depth-first over choice sequences), member names and strings with NUL characters among them; plus every JSON text of the C05 enumeration that the in-order mode accepts; non-trivial = distinct (type, text)',
      bounds=('types of up to 5 constructors, structs of up to 5 members, at most 600/3000 permutation assignments per value; token sequences up to 5', 'types of up to 6 constructors, up to 6 members, 20000 assignments; token sequences up to 6'),
      note='Both converters on the same documents.')
check('C05', level='exploration', technique='exhaustive enumeration of token sequences and of all bounded edits of valid documents on the real code against a reference acceptor',
      units=[dict(name='main', src='c05.cpp', lib='opt', cflags=['-DCHECK=5'])],
      rule='all token sequences up to the bound over 13 tokens for 19 types in both modes (two with NUL characters in names and strings); every truncation, every character and token edit (and pairs of token replacements) of valid documents; every document offered to every other type; non-trivial = distinct accepted (type, text)',
      bounds=('sequences of up to 5 tokens', 'sequences of up to 6 tokens'),
      note='Acceptance set of both converters.', assumptions=['a number token where a string is wanted (and vice versa for numbers) is not judged except as the type defines', 'unknown and repeated members in reorderable mode are not judged'])

check('C06', level='exploration', technique='exhaustive enumeration of extension placements and omitted subsets on the real code against reference acceptors',
      units=[dict(name='main', src='c06.cpp', lib='asan')],
      rule='all structs of up to N members over 18 member kinds (plain, extension, nested structs with tails, optionals, arrays, variants, aliases), wrapped in every container; every subset of extension members omitted, plus any one member removed; every truncation of every encoding; non-trivial = distinct accepted (ABI, text or bytes)',
      bounds=('N=3; general grammar up to 5 constructors', 'N=4; general grammar up to 6 constructors'),
      note='JSON (both modes) and binary.')
check('C03', level='exploration', technique='exhaustive enumeration of byte strings and of all bounded edits of valid encodings on the real code (AddressSanitizer, allocation accounting) against a reference decoder',
      units=[dict(name='main', src='c03.cpp', lib='asan')],
      rule='all byte strings up to the bound over {0,1,2,3,7f,80,81,ff} for all 31 base types and composed types, all strings of two arbitrary bytes, every truncation, insertion and byte change of valid encodings, declared sizes at all powers of two +-1, over-long integers; the same for native decoders; non-trivial = distinct accepted (type, bytes)',
      bounds=('strings of up to 5 bytes; composed types of up to 4 constructors', 'strings of up to 6 bytes; composed types of up to 5 constructors'),
      note='ABI decoder, C interface and native from_bin.', assumptions=['arrays of elements that occupy no bytes are not judged for allocation'])
check('C07', level='exploration', technique='exhaustive enumeration of nesting patterns x depths and of reference chains on the real code against a depth rule and constructed values',
      units=[dict(name='main', src='c07.cpp', lib='asan', case_limit=120)],
      rule='every cyclic pattern over 9 type constructors up to the period, all depths 0-300 and selected depths to 10^6, in both JSON modes and binary; suffix chains of all lengths 0-70 and up to 10^6 in six places; alias, base, member and case chains and cycles in three name orders; non-trivial = distinct (pattern, depth) or chain',
      bounds=('periods up to 3', 'periods up to 4, and 5 over the constructors S V A O T P'),
      note='Run under AddressSanitizer with an 8 MB stack.')
check('C08', level='exploration', technique='exhaustive enumeration of ABIs of up to three definitions, their orders and renamings, on the real loader against reference rules',
      units=[dict(name='main', src='c08.cpp', lib='opt')],
      rule='all single definitions over 12 names x 28 type expressions x 6 shapes, pairs of them, all pairs and triples of definitions named a, b, c over 8-12 expressions in all list orders and five renamings, reference chains up to 25, definitions and references named like built-in types (parts, one character away, longer) or with up to 300 letters, versions, truncated and mistyped documents; for accepted ABIs 26 type expressions named by the caller; non-trivial = distinct accepted ABI',
      bounds=('triples over 8 expressions; every third pair of single definitions', 'triples over 12 expressions; two-member structs and two-case variants'),
      note='Loading through the C++ conversion and the C interface.', assumptions=['text after the ABI document and a version without minor number are not judged'])

check('C10', level='model_checking', technique='exhaustive exploration of all call sequences up to a depth, executed on the real interface in lock step with an explicit-state model of it',
      units=[dict(name='main', src='c10.cpp', lib='asan')],
      rule='all sequences over 79 calls (two contracts: three ways of loading good and bad ABIs, conversions, queries, null arguments), deeper over 38 calls, over five contract identifiers; from the shortest path to every model state every pair of further calls; 600 (3000) contracts in one context loaded and replaced in three orders; after every history of up to two calls every returned text, type name and binary handed back by its very pointer to 22 further calls, against a copy of it',
      bounds=('3 calls of 79; 4 calls of 38; 3 calls of 92', '4 calls of 79; 5 calls of 38'),
      note='Whole C interface.', assumptions=['whether a failed conversion keeps or clears the previous binary result is left open', 'a type name returned for an action or table is promised only while that contract keeps its ABI'])

check('C11', level='fault_enumeration', technique='exhaustive enumeration of allocation failure points of every call on the real code, with the complete interface probed before and after',
      units=[dict(name='main', src='c11.cpp', lib='asan', hflags=ASAN, case_limit=120)],
      rule='for every call of an alphabet of 79 calls from three states, 24 calls with larger documents and every base type in both directions: fail its k-th allocation for every k, alone and together with all later ones; then probe all queries, repeat the call, probe again; non-trivial = the fault was reached',
      bounds=('every single point, every point with all later ones, every pair of points within 12 of each other', 'pairs of points within 80 of each other; four states'),
      note='C interface.', assumptions=['allocations made through malloc by the JSON tokenizer (rapidjson) are not failed', 'whether a failed conversion keeps or clears the previous binary result is left open'])

check('C31', level='fault_enumeration', technique='exhaustive enumeration of the points at which a conversion can be abandoned or interleaved with other conversions, on the real code (AddressSanitizer, allocation accounting)',
      units=[dict(name='main', src='c31.cpp', lib='asan', case_limit=300)],
      rule='every type of a bounded grammar, values of a bounded domain, all three conversions, truncated and damaged inputs: at every call of the callback in turn throw (three kinds of exception, twice), or run other conversions of the same type that succeed, fail or are abandoned; then convert again; larger values of eight shapes; non-trivial = distinct (type, conversion, input, call)',
      bounds=('types of up to 4 constructors over two leaves, of 2 over all base types; up to 300 elements, 30 levels', 'types of up to 5 constructors; up to 24 values each'),
      note='abi_type::bin_to_json, json_to_bin, json_to_bin_reorderable.', assumptions=['parsing of the JSON text by json_to_bin_reorderable happens before the first call', 'the callback need not be called for empty containers'])
check('C32', level='exploration', technique='exhaustive enumeration of values and of all pairs of values of bounded domains (all 2^32 block slots in the thorough tier) on the real code against exact integer arithmetic',
      units=[dict(name='main', src='c32.cpp', lib='opt')],
      rule='all pairs of values around zero, the limits of the type, powers of two and ten and the epochs for every comparable type, and mixed with plain integers; every arithmetic operator on all pairs whose exact result fits; every time conversion; all words over seven byte classes as symbol codes; every form of check() over all short messages; non-trivial = distinct (type, pair)',
      bounds=('about 300 values per 64-bit domain; slots: first and last 2^22, 2^22 after every power of two, 8192 of every 2^22', 'about 1000 values per 64-bit domain; all 2^32 slots'),
      note='varint.hpp, time.hpp, symbol.hpp, crypto.hpp, bytes.hpp, check.hpp.', assumptions=['results that do not fit and times before the epoch of the target are not judged', 'keys, signatures and byte strings may be ordered in any consistent way'])
check('C09', level='exploration', technique='exhaustive enumeration of ABI definitions (section contents and a bounded grammar of types, well formed or not) on the real code, all forms compared with each other and with a reference layout',
      units=[dict(name='main', src='c09.cpp', lib='asan')],
      rule='every list of up to two entries of each section over strings at length boundaries, names and codes at value boundaries; every triple of sections; every truncation; all types of the bounded grammar and all ABIs of two definitions over 12 expressions loaded from JSON, binary, hex, derived and twice-derived definition and compared on all their values and on short texts and byte strings; about 1000 names resembling built-in ones in four kinds of definition and six kinds of use; non-trivial = distinct definition',
      bounds=('24 entries per section; types of up to 5 constructors', 'up to 49 entries per section; types of up to 6 constructors'),
      note='abi_def, both conversions between abi_def and abi, and the three loading calls.', assumptions=['actions, tables and texts are not part of a definition derived from a loaded ABI'])
check('C16', level='exploration', technique='exhaustive enumeration of byte strings and of literals built from pieces on the real code against a strict JSON string reader',
      units=[dict(name='main', src='c16.cpp', lib='opt')],
      rule='printing: all strings of up to two bytes, all strings over 33 class representatives up to the bound, every Unicode character alone and in context, special bytes at buffer boundaries of long strings; parsing: every escape of four digits, every surrogate pair, lone surrogates with all followers, all sequences of 40 pieces up to the bound, strings as member names; non-trivial = distinct byte string or accepted literal',
      bounds=('4 representatives; 3 pieces', '5 representatives; 4 pieces'),
      assumptions=['an escaped low surrogate without a high one is not judged: the distribution rapidjson accepts it, later versions refuse it'])
check('C17', level='exploration', technique='exhaustive enumeration of texts and of digit and bit patterns of 64-bit values on the real code against a base-32 reference',
      units=[dict(name='main', src='c17.cpp', lib='opt')],
      rule='all texts of up to two bytes, all texts over a 38-letter alphabet up to the bound, one and two changes of texts of every length 0-15, hashed texts of every length up to 40 with any byte changed, texts of every length up to 1100 and around every power of two up to 2^17; values with up to three non-zero digits, run-length bit patterns, all placements of dots; all pairs of boundary values in order; non-trivial = distinct text or value',
      bounds=('texts of 3 letters complete, 4 partial; 3 runs', 'texts of 4 letters; 4 runs'))
check('C18', level='exploration', technique='exhaustive enumeration of texts, amounts, precisions and codes on the real code against a decimal reference',
      units=[dict(name='main', src='c18.cpp', lib='opt')],
      rule='all texts over a 10-letter alphabet up to the bound, codes of every length 0-10 with any byte at any position, codes, amounts and precisions of every length up to 1100 and around every power of two up to 2^17, every precision up to 70000, 0-300 decimals, amounts around every power of two and ten and multiples of 2^63 and 2^64 with the point at every position; every validity pattern of raw codes; non-trivial = distinct accepted text or printed value',
      bounds=('texts of up to 6 characters; windows of +-6', 'texts of up to 7 characters; windows of +-40'),
      assumptions=['leading spaces, missing digits and a missing space before the code are tolerated or refused, not judged', 'an empty text given to the symbol_code constructor is not judged'])
check('C19', level='exploration', technique='exhaustive enumeration of operand pairs from all boundary regions and of operation sequences on the real code against 128-bit arithmetic',
      units=[dict(name='main', src='c19.cpp', lib='opt')],
      rule='all pairs of amounts around every power of two and ten and the limits, all pairs of small amounts, exact-limit partners of every amount, other symbols and contracts, all sequences of three operations over 12 amounts; non-trivial = distinct operand pair',
      bounds=('about 250 boundary amounts; small amounts up to 130', 'about 400 boundary amounts; small amounts up to 400'))
check('C20', level='exploration', technique='exhaustive enumeration of all calendar days, field values, texts and counts on the real code against a calendar counted day by day',
      units=[dict(name='main', src='c20.cpp', lib='opt')],
      rule='every day of 1970-9999 at several moments, every month-day pair at the limits in every year, all two-digit field pairs, every second of six days, fractions of up to 25 digits, every byte at every position of three texts, insertions and deletions, second counts and slots around every power of two and strided, all pairs of boundary operands; non-trivial = distinct accepted text or printed instant',
      bounds=('stride 40009 for counts; 3 moments a day', 'stride 1009 for counts; 26 moments a day'),
      assumptions=['a fraction point without digits, zero digits beyond the sixth, and real dates before 1970 given to a time point are not judged', 'digits below the resolution of a type are dropped', 'results of arithmetic that do not fit the type are not judged'])
check('C21', level='exploration', technique='exhaustive enumeration of key data and of all bounded edits of key texts on the real code against reference base-58, RIPEMD-160 and SHA-256',
      units=[dict(name='main', src='c21.cpp', lib='opt')],
      rule='data patterns of all nine kinds, every prefix and checksum combination, correctly checksummed data of every length 0-140, every byte at every position, insertions, deletions and exchanges, checksum bit flips, wallet texts of every length; base 58 of all strings of two bytes and beyond with up to 40 leading zeros; non-trivial = distinct accepted key',
      bounds=('single-byte patterns; base-58 texts of 3 digits', 'all byte values at all positions; base-58 texts of 4 digits'))
check('C22', level='exploration', technique='exhaustive enumeration of byte patterns, widths and hex texts on the real code (AddressSanitizer) against a byte-sequence reference',
      units=[dict(name=f'p{i}', src='c22.cpp', lib='asan', cflags=[f'-DPART={i}']) for i in range(6)],
      rule='for 20 (size, storage word) combinations of 1-64 bytes: every value of every single byte over three backgrounds, all pairs of bytes over three values; built from and taken apart into words of 8-128 bits, fewer words, lists, binary, key and JSON; all pairs compared with all six operators; hex texts of every length, every byte at every position, insertions and deletions, natively and through an ABI; non-trivial = distinct value or accepted text',
      bounds=('20 combinations, comparison over single-byte patterns', '30 combinations, comparison over two-byte patterns'))
check('C23', level='exploration', technique='exhaustive enumeration of values of a bounded family of composed types on the real code; keys of all values in reference order compared',
      units=[dict(name=f'p{i}', src='c23.cpp', lib='opt', cflags=[f'-DPART={i}']) for i in range(9)],
      rule='about 250 types: every supported base and chain type, every container over 16 element types, containers of containers, pairs of types in six two-part constructors, variants of up to 300 alternatives; for each, all values of a bounded domain (all sequences of up to four elements over boundary elements); consecutive 32-bit values of four types; non-trivial = distinct pair of unequal neighbours',
      bounds=('sequences over 16/5/3 elements of length 2/3/4; 2^22 consecutive values plus windows of 70000 around powers of two', 'sequences over 40/12/5 elements; all 2^32 values'),
      assumptions=['NaN is not judged (it has no order)', 'varint32 has no sort key (disabled in the source)', 'assets of different symbols are ordered by amount and then symbol'])
check('C25', level='model_checking', technique='exhaustive exploration of all operation sequences up to a depth on the real streams (AddressSanitizer, exact-size buffers) in lock step with an explicit-state model of contents and position',
      units=[dict(name='main', src='c25.cpp', lib='asan')],
      rule='buffers of 0-9 bytes; all sequences over 85 input operations and 26 output operations with sizes 0-6 and 13 huge ones, longer sequences over small sizes, all sequences of six operations of the indenting streams; both hex decoders on all texts of up to two bytes and over 17 class representatives',
      bounds=('depth 2-3 with huge sizes, 5-7 with small ones; hex texts of up to 4 characters', 'depth 3-4 with huge sizes, 6-9 with small ones; hex texts of up to 5 characters'))
check('C24', level='exploration', technique='exhaustive enumeration of values of a bounded family of C++ types on the real code against reference binary and JSON writers and the generated ABI',
      units=[dict(name=f'p{i}', src='c24.cpp', lib='opt', cflags=[f'-DPART={i}']) for i in range(6)],
      rule='about 110 types covering every supported container and record shape; for each record both baselines, every member over its domain, every pair of members over boundary values; written through all output streams and into too small buffers; read back alone, followed by other data and from every prefix; compact and indented JSON, every member order, unknown members; both conversion modes of the generated ABI, before and after conversion to a definition; every ordered pair of values read one after the other into the same object; every alternative number, array count and presence byte around the limits; non-trivial = distinct (type, encoding)',
      bounds=('up to 3000 values per type; 30 values per member, 4x4 per pair', 'up to 20000 values per type; 150 values per member, 9x9 per pair'),
      assumptions=['an absent trailing section leaves the target member as it was', 'types for which the library does not compile an ABI (checksums, keys, bytes) are checked natively only'])

check('C26', level='exploration', technique='exhaustive enumeration of message values up to a bounded number of deviations from two baselines, on the real codecs, against a hand-written protocol description and its ABI',
      units=[dict(name=f'p{i}', src='c26.cpp', lib='opt', cflags=[f'-DPART={i}']) for i in range(6)],
      rule='about 115 protocol types; for each a dense baseline (everything present, every member distinct) and a sparse one; every choice (each optional present or not, vectors of 0-3 elements, each variant case, boundary leaf values) changed alone, and every pair of structural choices; native decode, re-encode and JSON, both ABI conversion modes, every truncation; all 256 status codes and edits of the names; non-trivial = distinct (type, encoding)',
      bounds=('pairs of structural choices, up to 12000 pairs per type', 'pairs including leaf values, up to 400000 pairs per type'),
      assumptions=['text of keys, signatures and floats is judged by its own properties', 'native JSON of deferred sections does not exist and is not judged'])

check('C27', level='exploration', technique='exhaustive enumeration of message lengths, splits and operation histories on the real code (AddressSanitizer, exact-size inputs) against reference digests and a two-object state model',
      units=[dict(name='splits', src='c27.cpp', lib='asan', cflags=['-DMODE=0']), dict(name='hist', src='c27.cpp', lib='asan', cflags=['-DMODE=1', '-DNDEBUG']), dict(name='hista', src='c27.cpp', lib='asan', cflags=['-DMODE=1']), dict(name='giant', src='c27.cpp', lib='opt', cflags=['-DMODE=2'])],
      rule='four contents of every length, one at a time and all at once; every two- and three-way split; messages of 2^29 bytes and more; all operation histories (init, update of 8 sizes, digest, wipe, copy, misuse) over two hash objects, with and without assertions; 64-bit hash: every byte value at every position of four backgrounds of every length, five seeds, all short texts, keys beyond 2^31 and 2^32 bytes; non-trivial = distinct message, split or state',
      bounds=('lengths to 1500, splits to 270/150, histories of 5 operations (4 with assertions), hash lengths to 34', 'lengths to 6000, splits to 600/270, histories of 6 operations (5 with assertions), hash lengths to 66'))

check('C28', level='exploration', technique='exhaustive enumeration of argument vectors and input lines on the real tool (its main function in process, AddressSanitizer) against a reference of options and conversions',
      units=[dict(name='main', src='c28.cpp', lib='asan')],
      rule='four program names; all vectors of up to three arguments over 22 options and 39 values; all standard inputs of up to two lines over 58 lines under 32 option prefixes; round trips of about 1900 values; non-trivial = distinct invocation',
      bounds=('up to 3 arguments, 2 lines', 'up to 4 arguments, 2 lines'),
      assumptions=['numbers with leading white space or a plus sign are not judged'])

check('C29', level='exploration', technique='exhaustive enumeration of values and texts on the real helpers against reference decimal arithmetic, and on the library built without native 128-bit integers',
      units=[dict(name='helpers', src='c29.cpp', lib='opt', cflags=['-DMODE=0']), dict(name='types', src='c29.cpp', lib='opt', cflags=['-DMODE=1', '-DABIEOS_NO_INT128'], libcflags=['-DABIEOS_NO_INT128'])],
      rule='widths of 8, 16, 24, 32, 64, 128 and 256 bits: every 8- and 16-bit value, every byte value at every position of five backgrounds with a second byte, windows around every power of two and ten, multiples of the range and digit edits of the limit, with junk inserted; all short texts; the replacement int128 and uint128 types natively and in both ABI modes; non-trivial = distinct (width, value or text)',
      bounds=('texts to 4 characters; every 16th value paired', 'texts to 5 characters; every 4th value paired'))

check('C30', level='exploration', technique='exhaustive enumeration of values, call sequences and pairs on the real templates against member-by-member references (AddressSanitizer)',
      units=[dict(name='main', src='c30.cpp', lib='asan')],
      rule='conversion: a family of 19 pairs of related records (dropping, reordering, adding, inherited, nested in sequences, optionals and variants) with both choosers, into fresh and filled targets; deferred values: all short byte contents for eight types, all call sequences over unpack_size, unpack_next and unpack on copies, truncated enclosing data, encoded values of fifteen types; comparison: all pairs over domains of nineteen types, six operators and the sign; field and function enumeration; non-trivial = distinct conversion input, content, or left operand',
      bounds=('contents to 5 bytes, 4 calls', 'contents to 6 bytes, 5 calls'),
      assumptions=['members that only the target has keep their initial value', 'floating point members that are not numbers are not compared'])

check('C12', level='model_checking', technique='stateless model checking of the real code: two threads under a controlled scheduler, every schedule with one preemption at every basic block, and happens-before analysis of one representative schedule per pair',
      units=[dict(name='sched', src='c12_prog.cpp', lib='sched', extra=[('c12.cpp', ['-O1']), ('c12_rt.cpp', ['-O2'])], linkflags=[], case_limit=600),
             dict(name='race', src='c12_prog.cpp', lib='tsan', extra=['c12_race.cpp'], noaslr=True, case_limit=120)],
      rule='34 programs (the whole life of a context, each entry point of the C interface, native JSON, binary, key, time, number and schema conversions, and their errors), each with two sets of values, in all ordered pairs; a schedule is where the running thread is stopped; states = distinct schedules, transitions = steps executed, traces = schedules run on the real code',
      bounds=('one preemption at every basic block for the pairs of a program with itself, at every function entry for all pairs, at every access to writable globals for all pairs (two preemptions there as well); the same in processes in which nothing ran before, up to 600 stopping points per pair; race analysis of all pairs',
              'one preemption at every basic block for all pairs; two preemptions at function entries for pairs of a program with itself (up to 400000 schedules per pair)'),
      assumptions=['code of libc and libstdc++ that is not inlined runs without being interrupted', 'sequentially consistent interleavings; weaker orders are covered by the absence of races'])
