#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list stays easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
PI='include/parser/parser_impl.hpp'; VI='include/common/value_impl.hpp'; V='include/common/value.hpp'
AI='include/common/array_impl.hpp'; OI='include/common/object_impl.hpp'; U='include/common/utils.hpp'
ER='include/common/enum_reflection.hpp'; J='include/reflection/jsonization.hpp'; PB='include/parser/packed_bytes.hpp'; PX='include/parser/packed_bytes_x86.hpp'; BO='include/parser/bitops.hpp'

p('C01','Strict parsing accepts exactly the well-formed documents',
  'For every byte sequence, json::parse returns a value if and only if the bytes are one well-formed RFC 8259 JSON text whose root is an array or an object, whose objects have no repeated member name (compared after decoding escapes) and whose \\u escapes contain no unpaired surrogate, with nothing but whitespace after the root; otherwise it returns an empty optional. It never throws, crashes or reads past the input on malformed input. A NUL byte after the root ends the text.',
  ['inputs'],'every finite byte sequence, of any length and nesting up to the recursion limit',
  'The tests parse a few dozen hand-written documents; the verdict must be right for every byte after every prefix, and for escapes, digits and terminators in every position.',
  [PI],[('recursive-descent parser, one function per production',PI),('skip_whitespace / skip_comment after the root',PI),('surrogate bookkeeping in skip_unicode_escape',PI)],
  [('cursor','position in the input',PI)],['json::parse(content)'])
p('C02','Parsed values carry exactly the content of the document',
  'When a document is accepted, the resulting value has exactly its structure: the same nesting, the array elements in document order, the same set of members, each number with its token verbatim, each literal, and each string decoded to the UTF-8 bytes that its raw characters and escapes denote (surrogate pairs as one four-byte sequence, other bytes unchanged).',
  ['inputs'],'every accepted document, including long strings, large containers and every escape at every offset',
  'The tests compare a handful of documents; a fault that depends on the length or alignment of a string, on an escape after a long run, or on the number of members is not sampled.',
  [PI,PB,PX],[('parse_stdstring copies the runs between escapes',PI),('UTF-8 encoder',PI),('number token kept as text',PI)],(),['json::parse(content)','json::parsec(content)'])
p('C03','JSONC parsing is strict parsing modulo comments and trailing commas',
  'For every byte sequence, json::parsec accepts exactly those documents that the strict grammar accepts once each // line comment and /* block comment */ standing where whitespace may stand is replaced by whitespace and one trailing comma after the last element or member is dropped, and it returns the value of that strict document. Comment openers inside strings are ordinary characters, unterminated block comments and lone slashes are rejected, and json::parse accepts no comment and no trailing comma.',
  ['inputs'],'every byte sequence, in both modes',
  'The tests contain a few commented documents; comments are legal in every gap between tokens, may contain quotes, stars and slashes in any order, and may end exactly at the end of the input.',
  [PI],[('skip_comment called from skip_whitespace',PI),('accept_jsonc branches in parse_array/parse_object',PI)],(),['json::parsec(content)','json::parse(content)'])
p('C04','Parse results depend only on the bytes of the document',
  'Parsing the same bytes yields the same verdict and the same value regardless of the container type that holds them, their alignment, the bytes stored before and after them, the instruction set or acceleration build option (AVX2, SSE4.1, SSE2, word-at-a-time fallback, signedness of char, optimisation level), and whatever was parsed before in the process.',
  ['inputs','configurations','histories'],'every document x container x alignment x surrounding bytes x build configuration x preceding parses',
  'The test binary is one build on one machine with short, naturally aligned documents, so vector and tail paths hardly meet a special byte.',
  [PI,PB,PX,BO,'include/parser/packed_bytes_arm.hpp'],[('skip_string_literal_with_accel',PI),('packed byte traits and first-nonzero-byte search',PB)],(),['json::parse for std::string, string_view, vector<char>, vector<unsigned char>, deque<char>'])
p('C05','All entry points agree on the same bytes',
  'Parsing from a stream, from a file by name or path, from a C string and through the user-defined literals gives the same result as parsing the same bytes from memory, with the comments option selecting the JSONC grammar and a leading UTF-8 byte order mark skipped exactly when the check-BOM option is set. Files, and streams that can be positioned and have not failed before, are read completely, whatever their size and wherever the read position was. Files that cannot be opened or read give an empty optional, literals give null / empty array / empty object for malformed or differently typed text.',
  ['inputs','configurations'],'every byte sequence x entry point x options, including empty input, partial BOMs, embedded NULs and sizes around buffer boundaries',
  'The tests open one or two small files; the reading code has to be right for every size, option combination and read position.',
  [PI,'include/parser/parser.hpp'],[('parse(std::istream&, check_bom, with_comments)',PI),('open()',PI),('literal operators',PI)],(),['json::parse(istream)','json::open','json::parse(const char*)','_json/_jvalue/_jarray/_jobject'])
p('C06','Compact serialisation is canonical and parses back to the same value',
  'For every value, to_string() (and dumps() without indent) is the canonical compact text: no insignificant whitespace, members in ascending byte order of their names, number tokens verbatim, strings minimally escaped; it is the same for value, array and object and does not depend on how the value was built. For every array or object whose number tokens are JSON numbers, parsing that text succeeds and gives back an equal value.',
  ['inputs','histories'],'every value tree, however it was constructed',
  'The tests compare a few fixed strings; separators, ordering, escapes and round-tripping must hold for every tree shape and content.',
  [VI,AI,OI,U],[('dump_to recursion',VI),('append_escaped_string',U)],(),['value::to_string','value::dumps','array::to_string','object::to_string'])
p('C07','Pretty printing has the documented layout and differs only in whitespace',
  'For every value and every indent width n, format(n) (and dumps(n)) prints one element or member per line, indented by n spaces per nesting level, with ": " after names, commas at line ends and closing brackets on their own line, and otherwise exactly the tokens of the compact form, so that it parses back to an equal value. Streaming a value, array or object to an ostream prints format with an indent of 4.',
  ['inputs'],'every value tree and every indent width',
  'The tests check a few fixed texts with the default indent; nested empty containers, deep nesting, other widths and strings containing layout characters are not covered.',
  [VI,AI,OI],[('format_to recursion with the nesting level',VI)],(),['format','dumps(indent)','operator<<'])
p('C08','Strings are escaped minimally, completely and reversibly',
  'In every serialised text, a string or member name made of arbitrary bytes is written between quotes with quotation mark, backslash and the five short control escapes as two-character escapes, every other byte below 0x20 as \\u00xx in lower-case hexadecimal, and every other byte unchanged. Decoding that token by the JSON grammar gives back exactly the original bytes.',
  ['inputs'],'every byte string as a value and as a member name, in compact and pretty form',
  'The tests use a few printable strings; each of the 256 bytes matters at every position and next to every other.',
  [U,VI,OI,PI],[('append_escaped_string and hex_digit',U)],(),['to_string','format'])
p('C09','Copies are deep, exact and independent, even when source and target overlap',
  'Copy-constructing or copy-assigning a value, array or object gives a target equal to what the source was when the operation began, and leaves the source unchanged unless it contains or is contained in the target. Later changes to either are never visible through the other. This also holds for self-assignment, for assigning a value to one of its own descendants and for assigning a descendant to the value that contains it.',
  ['histories'],'every history of copies and mutations over value trees, including overlapping source and target',
  'The tests copy a few fresh values; aliasing and mutation after copying have unboundedly many shapes.',
  [VI,V,AI,OI],[('deep_copy and copy assignment',VI)],[('value tree','owned by unique pointers',V)],['value/array/object copy construction and assignment'])
p('C10','Moves and swaps transfer the exact content and leave usable sources',
  'Move-constructing, move-assigning or swapping values, arrays or objects gives the target exactly the content that the source had when the operation began, including when the source is a descendant of the target or the target itself. The moved-from object remains valid: it can be inspected, serialised, copied, assigned, modified and destroyed. No other value changes.',
  ['histories'],'every history of moves, swaps and subsequent uses over value trees (a target inside its own source excepted)',
  'The tests move a few values and hardly touch the sources afterwards.',
  [VI,V,AI,OI],[('move construction and assignment',VI)],(),['value/array/object move construction and assignment, std::swap'])
p('C11','Arrays behave as sequences',
  'Every history of operations on a JSON array (push/emplace, erase by position or iterator, clear, element assignment, concatenation with + and += for any mix of lvalue and rvalue operands, the array itself as an lvalue operand and operands that are a part of the array included, sized and list construction, iteration in both directions) has the results and effects of the same history on a mathematical sequence of values. Erasing a position outside the array returns false and changes nothing, and lvalue operands are never modified by +.',
  ['histories'],'every history of array operations, through json::array and through an array-typed json::value',
  'The tests apply a few operations to small arrays once each; interactions, boundary positions and self-operands are unbounded.',
  [AI,VI,'include/common/array.hpp'],[('vector of values',AI),('append_array / append_array_move',AI)],(),['json::array API','json::value array operations'])
p('C12','Objects behave as ordered maps with unique names',
  'Every history of operations on a JSON object (emplace/insert, subscript, erase by name or iterator, clear, merging with | and |= for any mix of lvalue and rvalue operands, the object itself as an lvalue operand and operands that are a part of the object included, list and map construction, iteration) has the results and effects of the same history on a finite map from names to values that iterates in ascending byte order of names. Emplace, insert and assignment through a subscript overwrite an existing member, the right operand wins in a merge (what is merged is what it was when the merge began), the first of equal names wins in an initializer list, and lvalue operands are never modified by |.',
  ['histories'],'every history of object operations, through json::object and through an object-typed json::value',
  'The tests apply a few operations to small objects; overwriting, merging and ordering must hold for all names (including empty ones, prefixes and bytes above 127).',
  [OI,VI,'include/common/object.hpp'],[('std::map of values',OI),('merge_object / merge_object_move',OI)],(),['json::object API','json::value object operations'])
p('C13','Type-checked access either does exactly what the type allows or throws unchanged',
  'Each as_*, at, subscript, erase, emplace, + and | on a value of the wrong type throws json::exception and leaves the value unchanged, and on the right type gives exactly its content. Only an empty value (null, "", [] or {}) is converted to an array or object, and only by a mutable container access; const access never changes a value and never converts. at() with a missing key or position throws an exception derived from std::exception.',
  ['inputs','histories'],'every value x every accessor, const and mutable',
  'The tests call a few accessors on matching values; the matrix of accessor x type x emptiness x constness is not covered.',
  [VI,V],[('type checks in as_* and in the operators',VI),('conversion of empty values in mutable as_array/as_object/operator[]',VI)],(),['value accessors'])
p('C14','Lookups report exactly what is there and never modify or throw',
  'contains, exists, find, find_value and get with any chain of names and positions report exactly the member or element the chain leads to, or the given default, an empty optional or a null pointer when any link is missing or of the wrong type, or when the found value is not convertible to the requested type. They never throw and never change the value.',
  ['inputs'],'every value x every chain of keys and positions x every default type',
  'The tests look up a few keys in a few values; chains through mixed containers, boundary positions and type mismatches are unbounded.',
  [VI,AI,OI,U],[('get_helper recursion',VI),('json_value_or_default',U)],(),['get','find','find_value','contains','exists'])
p('C15','Equality is structural and consistent',
  'Two values compare equal exactly when they have the same type and the same content: numbers by their text, strings by bytes, arrays element by element in order, objects by equal name sets with equal members. != is the negation of ==, and equality is reflexive, symmetric, transitive and unaffected by how the operands were built.',
  ['inputs'],'every pair and triple of values',
  'The tests compare a few pairs; a comparison that ignores a tail, a type or a nested difference passes them.',
  [VI,AI,OI],[('operator== on value, array, object',VI)],(),['operator==','operator!='])
p('C16','is<T> predicts whether as<T> succeeds',
  'For every supported C++ type T and every value, is<T>() is true exactly when the value has the shape and range that T requires, as<T>() then succeeds, and it throws a json::exception when is<T>() is false for a scalar, enum, fixed-size, tuple or container type; find<T> is engaged exactly when the member exists and is<T>() holds. all<T>() is true exactly for arrays and objects all of whose elements or members satisfy is<T>().',
  ['inputs','configurations'],'every value x every composition of supported types',
  'The tests check a few types against matching values; the interesting cases are near misses (one wrong element, one too many, out-of-range number) at any depth of composition.',
  [VI,AI,OI,U,V],[('is<T>() dispatch',VI),('conversion operators',V)],(),['value::is','value::as','value::find','value::all'])
p('C17','C++ values survive the round trip through JSON',
  'For every supported C++ type composed of booleans, integers, strings, enums, paths, optional, smart pointers, pairs, tuples, fixed arrays, sequences, sets, string-keyed maps, variants and reflected structs, and every value x of it, converting x to JSON gives the documented JSON value and converting that back to the type gives a value equal to x, also after serialising and parsing (a variant is read as its first alternative that accepts the JSON value; of nested nullable types the outermost takes null). Converting from a const value and from an expiring value give the same result.',
  ['inputs','programs'],'every composition of supported types and every value of it (a variant value must not be representable by an earlier alternative)',
  'The tests round-trip a few instances of a few types; sizes, nesting, order, duplicates and empty cases are unbounded.',
  [V,VI,AI,OI,U],[('converting constructors',V),('array::as / object::as / conversion operators',AI)],(),['json::value(T)','value::as<T>'])
p('C18','Integers are converted exactly or refused',
  'Every integer of every standard integer type is written as its plain decimal text. Reading a number as an integer type yields exactly the integer it denotes when its text is a plain decimal integer within the range of that type, and otherwise is refused: as throws json::exception, is is false, find is empty; it never wraps, truncates, saturates or drops a fraction, exponent or trailing text.',
  ['inputs'],'every number token (of any length) x every integer type',
  'The tests use a few small integers and one or two overflows; the boundaries of each of the types and tokens with fractions, exponents or many digits are not covered.',
  [VI,U],[('from_chars based parse_integer',VI)],(),['as_integer ... as_unsigned_long_long','is<int...>','value(integer)'])
p('C19','Converting from lvalues never modifies the source',
  'Building a JSON value, array or object from an lvalue C++ object (container, optional, smart pointer, variant, tuple, struct, string or another JSON value), or inserting one, leaves that object and everything it shares unchanged, const or not. The JSON built from an rvalue is the same as from an equal lvalue, and moving a shared pointer in does not alter the object other owners share.',
  ['inputs','programs'],'every supported type x every way of handing it over (const lvalue, lvalue, rvalue, shared)',
  'The tests never inspect the sources after conversion.',
  [V,AI,OI],[('lvalue/rvalue overloads of the converting constructors',V)],(),['converting constructors','emplace/push_back/operator='])
p('C20','Enums map to names and back',
  'An enumerator within the reflected range converts to its exact name and its name (compared without regard to ASCII case) converts back to it; a value that names no enumerator in the range is refused with json::exception when writing, and a string that is no enumerator name is refused when reading, with is<T>() agreeing. A number converts to the enum value with that number when it fits the underlying type, and when enums are configured as numbers they are written as such.',
  ['inputs','configurations'],'every enum value of the underlying type x every string x the enum-as-number option, for default and custom ranges, scoped and unscoped, signed and unsigned',
  'The tests use one or two enums and a handful of names; off-by-one range ends, negative enumerators, gaps, case folding and near-miss names are not covered.',
  [ER,V,VI],[('enum_name_storage table and range offsets',ER),('iequals',ER)],(),['value(enum)','as<enum>','is<enum>'])
p('C21','Reflected structs are written and read member by member under their names',
  'For every struct described with MEO_JSONIZATION (up to the supported 64 arguments, with MEO_OPT and MEO_KEY in any combination), to_json gives an object with exactly one member per field, under the field name or its MEO_KEY name, holding the JSON of that field, and from_json of it restores an equal struct, nested structs and containers of structs included. Members of the JSON object that belong to no field are ignored.',
  ['inputs','programs'],'every field list shape x every field value',
  'The tests describe a few small structs; each of the 64 expansion arities and every placement of the modifiers is separate code.',
  [J],[('_MEOJSON_FOR_EACH_N expansion',J),('dumper / loader recursion',J)],(),['to_json','from_json','json::value(struct)','value::as<struct>'])
p('C22','Struct validation accepts exactly matching objects and names the offending key',
  'For every reflected struct with at least one required field and every JSON value, check_json and from_json both succeed exactly when every required key is present with a value convertible to its field type and every optional key is absent or convertible; otherwise both return false and report the key of the first field (in declaration order) that is missing or not convertible. Absent optional fields keep their previous value, fields before the offending one are the only ones that may be changed on failure, and is / as agree with check_json / from_json.',
  ['inputs','programs'],'every JSON value against every struct: all subsets of present, absent and ill-typed keys',
  'The tests try a few missing or wrong keys; the combinations of required/optional/renamed x present/absent/ill-typed are exponential.',
  [J,VI,V],[('checker and loader',J)],(),['check_json(value, error_key)','from_json(value, error_key)','is<T>','as<T>'])
p('C23','Concurrent use of distinct values and concurrent reads of one value are safe',
  'Threads that parse, build, copy, convert and serialise their own values at the same time, and threads that only read (const access, lookup, copy, comparison, serialisation) one shared value, get exactly the results they would get alone and cause no data race.',
  ['schedules','histories'],'every interleaving of per-thread histories on distinct values and of const operations on a shared value',
  'The tests are single-threaded.',
  [PI,VI,U,ER],[('no mutable static or lazily cached state in const operations',VI)],(),['the whole API from several threads'])
p('C24','Floating-point values survive the round trip in precision-keeping builds',
  'With MEOJSON_KEEP_FLOATING_PRECISION, every finite float, double and long double (subnormal values and signed zero included) is written as a JSON number token, and reading that number back as the same type gives a value with the same bits. The token survives serialising and parsing unchanged.',
  ['inputs'],'every finite float, double and long double',
  'The tests use a few short decimals; the digits needed and the exponent forms differ across the whole range.',
  [U,VI],[('to_basic_string with max_digits10',U),('parse_floating',VI)],(),['value(float/double)','as_float','as_double'])
p('C25','Results do not depend on the locale or on errno',
  'Whatever the C locale, the global C++ locale (punctuation, grouping, character classes, case mapping) and errno are, and however they change between calls, every operation gives the result it gives in the "C" locale: the same documents are accepted with the same values, numbers are written as the same JSON number tokens (a decimal point, no grouping) and numbers, enum names and members are read back the same. This holds with and without MEOJSON_KEEP_FLOATING_PRECISION.',
  ['inputs','histories','configurations'],'every call history x every sequence of environment changes',
  'The tests run in the "C" locale only; a number written in one locale and read in another is never tried.',
  [U,VI,ER,PI],[('to_basic_string',U),('try_parse_floating',VI),('iequals',ER),('isdigit in the number grammar',PI)],(),['value(float/double)','as_float, as_double, as_long_double','json::parse','dumps / format','enum_reflection'])
p('C26','A value has exactly one kind and describes itself truthfully',
  'Every value, wherever it came from, is exactly one of null, boolean, string, number, array and object: exactly that one of is_null, is_boolean, is_string, is_number, is_array and is_object is true, type() and type_name() name the same kind, and valid() is true. empty() is true exactly for null, the empty string, the empty array and the empty object. value_info() reads type=<name>, followed for booleans, numbers and strings by the serialised text (cut after 100 bytes and then marked) and for arrays and objects by their size. None of these calls throws or changes anything.',
  ['inputs','histories'],'every value, however it was built, copied, moved, assigned, converted or parsed',
  'The tests ask a few values for the kind they were built with; after histories that change the kind in place, and at the length at which descriptions are cut, nothing is tested.',
  [VI,V],[('_type and the variant that has to agree with it',V),('value_info and type_name',VI)],[('value_type','kind of the value',V)],['value::is_*','value::type','value::type_name','value::value_info','value::empty','value::valid'])
p('C27','A failed allocation leaves every value usable and loses nothing',
  'When memory runs out at any point of a call on values, arrays or objects, or while parsing, copying or serialising, std::bad_alloc reaches the caller and the process goes on: no memory is lost, and every value, array and object remains valid, its type agreeing with its content, so that it can be inspected, serialised, modified and destroyed. A reading call changes nothing. A construction, an assignment or a call that adds, replaces or erases one element has happened completely or not at all, except that an empty receiver may already have become the container it is used as, a member created by a subscript may be there as null, and an operand that is moved from may have lost its value; merging or concatenating in place may have been done for some of the elements. A conversion between C++ types and JSON gives its result or throws and leaves lvalue sources unchanged (is<T>(), which is noexcept, and what uses it excepted where T brings its own check). Objects not involved in the call are unchanged.',
  ['fault_sequences','histories'],'every call in every history x every allocation within it (that one alone, or that and all later ones, failing)',
  'In the tests no allocation ever fails.',
  [VI,AI,OI,PI],[('type and content are set separately in the mutable accessors',VI),('copy construction before replacement in assignments',VI),('vector and map operations',AI)],[('_type / _raw_data','kind and content of a value',V)],['the whole API under an operator new that fails'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
import re
for x in P:
    assert len(x['title']) <= 80, x['id']
print(len(P))
