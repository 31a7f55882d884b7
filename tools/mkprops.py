"""Writes /verif/properties.jsonl (run by hand; kept so the statements are easy to edit)."""
import json
P = '/repo/distribution/src/jadn/'
S = 'distribution/src/jadn/'


def p(id, title, statement, over, text, why, files, mech, observe):
    return {'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': [S + f for f in files],
                        'mechanism': [{'name': n, 'where': S + w} for n, w in mech],
                        'observe_at': observe, 'hook_needed': None}}


props = [
 p('C01', 'Codec round trip: decode(encode(v)) == v in every encoding mode',
   'For every schema the package accepts and every application value that encodes under one of its types, decoding the encoded value under the same type and the same verbose_rec/verbose_str mode returns an equal value (same keys, same Python types, lists in the same order). This holds in all four encoding modes, for optional fields present or absent, for nested containers and for names or IDs as identifiers. Untagged unions are included as far as no other alternative accepts the encoded form.',
   ['inputs', 'programs', 'configurations'], 'all schemas x all encodable values x 4 modes',
   'test_codec samples a few hundred values, mostly one direction at a time and with hand-written expected output; no test quantifies over values or mixes optional subsets with all modes.',
   ['codec/__init__.py', 'codec/codec.py'],
   [('Codec.encode/decode dispatch', 'codec/__init__.py'), ('_encode_maprec/_decode_maprec, dMap/eMap tables', 'codec/codec.py')],
   ['Codec.encode', 'Codec.decode', 'Codec.set_mode']),
 p('C02', 'Scalar values are accepted exactly when they satisfy the declared type',
   'Encoding and decoding a Boolean, Integer, Number, String, Binary or Enumerated value succeeds exactly when the value has the declared Python/JSON type (booleans are never numbers), lies inside every declared inclusive bound (value range for numbers, length for strings and binary), matches the declared pattern and is one of the declared items. Encode and decode apply the same rule, and a rejected value raises an error instead of being altered or passed through.',
   ['inputs', 'programs'], 'all scalar types x all option values x all candidate values, both directions',
   'tests try single values on each side of a few constant bounds and rarely exercise the decode side of a constraint.',
   ['codec/codec.py', 'codec/__init__.py', 'utils.py'],
   [('_check_type/_check_range/_check_frange/_check_size/_check_pattern', 'codec/codec.py')],
   ['Codec.encode', 'Codec.decode']),
 p('C03', 'Structured values are accepted exactly when they satisfy the declared type',
   'Encoding and decoding a Record, Map, Array, Choice, ArrayOf or MapOf value succeeds exactly when it is the right container, every required field is present, no undeclared field or element is present, the number of elements lies inside the declared bounds, a tagged Choice has exactly one known alternative, a unique or set list has no duplicates, and every field, key and element is valid for its own type. Encode and decode agree on this in all four modes; anything else raises an error.',
   ['inputs', 'programs', 'configurations'], 'all structure types x field counts x optional subsets x element counts x modes, both directions',
   'tests check one missing or extra field in a handful of fixed types; combinations of optional fields, bounds and modes are not covered.',
   ['codec/codec.py', 'codec/__init__.py'],
   [('_check_count/_check_size, missing and extra field detection', 'codec/codec.py')],
   ['Codec.encode', 'Codec.decode']),
 p('C04', 'Encoded form follows the selected mode and survives JSON text',
   'The encoded form of a value is the one its mode prescribes: records are objects when verbose_rec is set and otherwise positional arrays with null for absent fields and no trailing nulls; map, choice and enumerated identifiers are names when verbose_str is set and integer IDs otherwise; types with the id option always use IDs; array fields keep their position. The encoded value contains only JSON types, and writing it as JSON text and reading it back yields a value that decodes to the original.',
   ['inputs', 'configurations'], 'all values of all structured types x 4 modes',
   'tests compare fixed pairs; none passes encoded data through JSON text, where integer keys become strings.',
   ['codec/codec.py', 'codec/__init__.py'],
   [('set_mode symbol table (EncType, dMap, eMap, Fld)', 'codec/__init__.py'), ('_check_key', 'codec/codec.py')],
   ['Codec.encode', 'Codec.decode']),
 p('C05', 'Binary, address, UUID and date text formats are exact inverses',
   'For every byte string or value valid for its format, encoding yields the standard text form (base64url without padding, lower- or upper-case hex, dotted-quad IPv4, RFC 5952 IPv6, address/prefix, RFC 4122 UUID, tag-uuid, RFC 3339 UTC date-time with milliseconds) and decoding that text returns the same value. Text that is not a valid form of the format is rejected with ValueError or TypeError.',
   ['inputs'], 'all byte contents and prefix lengths within the length bounds, all short texts',
   'tests use about two dozen fixed literals; byte values, zero-run positions, paddings and prefix lengths are sampled once.',
   ['codec/format_serialize_json.py', 'codec/codec.py'],
   [('b2s_*/s2b_*/a2s_*/s2a_*/int2datems/datems2int', 'codec/format_serialize_json.py')],
   ['Codec.encode', 'Codec.decode']),
 p('C06', 'Semantic format validation accepts exactly the valid values',
   'A value with a semantic format is accepted by encode and decode exactly when it is valid for that format: i8, i16, i32 and i64 integers inside the signed range, eui of 6 or 8 bytes, uuid of 16 bytes (RFC 4122 variant, version 1 to 5), ipv6-addr of 16 bytes, ipv4-addr of 4 bytes, network prefixes inside the address width, and hostname or email strings of the documented grammar as a whole string.',
   ['inputs'], 'all integers; all byte lengths; all short strings',
   'tests use one value on each side of some limits; hostname and email are regular-expression based and only sampled.',
   ['codec/format_validate.py', 'codec/codec.py'],
   [('i_i8..i_i64, b_*, a_*, s_hostname, s_email', 'codec/format_validate.py')],
   ['Codec.encode', 'Codec.decode']),
 p('C07', 'Untagged unions implement anyOf, allOf and oneOf',
   'An untagged union (Choice with combine) accepts a value, when encoding and when decoding, exactly when at least one (anyOf), every (allOf) or exactly one (oneOf) of its alternatives accepts it, and rejects it with an error otherwise. For anyOf and oneOf the result is the one produced by the first accepting alternative.',
   ['inputs', 'programs'], 'all pairs/triples of alternatives x all values, both directions',
   'tests cover four fixed unions of string patterns and one nested pair.',
   ['codec/codec.py'], [('_encode_choice/_decode_choice combine branch', 'codec/codec.py')],
   ['Codec.encode', 'Codec.decode']),
 p('C08', 'Externally tagged values use the type named by the tag field',
   'A field whose type is a Choice selected by another field (tagid) is encoded and decoded with the alternative named by that other field in the same container, in records, maps and arrays and in all four modes; a value that does not fit the selected alternative, an unknown tag, or a missing tag is rejected with an error. An absent optional tagged field is simply absent.',
   ['inputs', 'configurations'], 'all tag values x payload values x container kinds x 4 modes',
   'tests cover one array and two records, one value per alternative, in two modes.',
   ['codec/codec.py', 'codec/__init__.py'],
   [('ctag handling in _encode_maprec/_decode_maprec/_encode_array/_decode_array', 'codec/codec.py')],
   ['Codec.encode', 'Codec.decode']),
 p('C09', 'Arbitrary input is rejected cleanly and never modified',
   'Encoding or decoding an arbitrary JSON-like value (or bytes) under any type of an accepted schema either returns a result or raises ValueError or TypeError; no other exception escapes. Neither call modifies the value it is given, and constructing a codec or transforming a schema does not modify the schema it is given.',
   ['inputs', 'programs'], 'all types x all JSON-like values up to a structural bound x 4 modes',
   'tests assert rejection of selected wrong values with the expected class; nothing checks arbitrary shapes or mutation.',
   ['codec/codec.py', 'codec/format_serialize_json.py', 'codec/format_validate.py'],
   [('raise_error, _check_type', 'codec/codec.py')],
   ['Codec.encode', 'Codec.decode']),
 p('C10', 'JIDL text round trip preserves the schema',
   'For every accepted schema, loading the JIDL text produced from it yields the same schema up to canonical form: same types and order, base types, options, fields, IDs, names, multiplicities, descriptions and info values. Texts are single-line printable text; descriptions and enumerated values have no surrounding blanks, enumerated values contain no comment mark ( //), labels of ID types no double colon, and patterns no unescaped quote followed by a closing brace.',
   ['programs', 'inputs'], 'all schemas up to the type/field/option bounds with symbolic option values and texts',
   'tests round-trip three fixed schemas; interactions between option strings, multiplicity, ID types and description text are unsampled.',
   ['convert/jidl.py', 'utils.py'],
   [('jidl_dumps/line2jadn', 'convert/jidl.py'), ('jadn2fielddef/fielddef2jadn', 'utils.py')],
   ['jidl_dumps', 'jidl_loads', 'canonicalize']),
 p('C11', 'HTML round trip preserves the schema',
   'For every accepted schema, loading the HTML produced from it yields the same schema up to canonical form: same types and order, base types, options, fields, IDs, names, multiplicities, descriptions and info values. Texts are single-line printable text; descriptions and enumerated values have no surrounding blanks and labels of ID types no double colon.',
   ['programs', 'inputs'], 'all schemas up to the type/field/option bounds with symbolic option values and texts',
   'tests round-trip two fixed schemas.',
   ['convert/html.py', 'convert/utils.py', 'utils.py'],
   [('html_dumps/html_loads/line2jadn', 'convert/html.py')],
   ['html_dumps', 'html_loads']),
 p('C12', 'Type strings and field definitions are faithful to type options',
   'For every base type and every combination of option values the schema checker accepts for it, converting the type (or field) definition to its printed string and parsing that string back yields the same type and the same set of options, apart from options equal to their default (a size minimum of 0, a multiplicity of 1), which may be left out. Patterns, names and descriptions are single-line printable text, descriptions without surrounding blanks. Definitions that differ otherwise therefore never print the same string.',
   ['programs', 'inputs'], 'all base types x option subsets x symbolic option values',
   'tests list about 40 literal type strings.',
   ['utils.py'], [('jadn2typestr/typestr2jadn, jadn2fielddef/fielddef2jadn, multiplicity_str', 'utils.py')],
   ['jadn2typestr', 'typestr2jadn', 'jadn2fielddef', 'fielddef2jadn']),
 p('C13', 'Canonical form is stable, order-insensitive and meaning-preserving',
   'Canonicalizing a schema does not modify the original, is idempotent, gives the same result for any ordering of the options of a type or field, and changes nothing except option order, removal of options equal to their default, and the spelling of numeric bounds.',
   ['programs', 'inputs'], 'all option subsets x orders x symbolic values',
   'canonicalize is only used as a helper in the round-trip tests.',
   ['utils.py'], [('canonicalize, opts_sort, get_optx, del_opt', 'utils.py')], ['canonicalize']),
 p('C14', 'Saved schemas load back unchanged',
   'For every accepted schema, the JADN text written by dumps (stripped or not) is valid JSON that loads to an equal schema, for any description, info or name text. A schema written to a file by dump, jidl_dump or html_dump is read back by the matching loader to an equivalent schema.',
   ['programs', 'inputs'], 'all schemas up to a bound with symbolic text content',
   'one test checks one fixed schema object.',
   ['core.py', 'convert/jidl.py', 'convert/html.py'], [('dumps_rec', 'core.py'), ('load/load_any', 'core.py')], ['dumps', 'loads', 'dump', 'load', 'load_any']),
 p('C15', 'Unfolding removes every extension and yields a self-contained schema',
   'For every accepted schema without import references, unfolding its extensions (all, or a chosen set) yields a schema in which no listed extension is left, every type name is defined exactly once, every reference is to a defined type, all original types remain in order under their names, and unfolding again changes nothing. The input schema is not modified.',
   ['programs'], 'all schemas up to a bound combining key/link, multiplicity, anonymous options, derived enumerations, pointers and MapOf enumerations',
   'tests compare about ten fixed schemas with their expected unfolding.',
   ['transform/transform.py', 'utils.py'],
   [('unfold_link/unfold_multiplicity/unfold_anonymous_types/unfold_derived_enum/unfold_map_of_enum', 'transform/transform.py')],
   ['unfold_extensions']),
 p('C16', 'Unfolded schemas keep the meaning of the extensions',
   'A codec built on a schema that uses extensions accepts exactly the values the extensions describe: a field with maximum cardinality other than 1 is a list with between minc and maxc elements (optional when minc is 0), options written on a field constrain that field or its elements, a derived enumeration has exactly the IDs and names of the referenced type, a pointer enumeration lists the paths of its leaf fields, a MapOf with enumerated keys accepts exactly those keys, and a link field has the type of the target key.',
   ['programs', 'inputs'], 'all field options and multiplicities within bounds x symbolic values',
   'tests compare generated definitions for fixed schemas and never ask which values the result accepts.',
   ['transform/transform.py', 'codec/__init__.py', 'codec/codec.py'],
   [('unfold_extensions', 'transform/transform.py')], ['Codec.encode', 'Codec.decode', 'unfold_extensions']),
 p('C17', 'Stripping comments changes only descriptions',
   'Removing or truncating comments returns a schema identical to the original except that every type, item and field description is empty (width 0) or at most the requested width, unchanged if it already fits and otherwise a prefix of the original followed by two dots where they fit. The original schema is not modified.',
   ['programs', 'inputs'], 'all widths and all texts within bounds, all type kinds', 'two fixed widths on one schema.',
   ['transform/transform.py', 'utils.py'], [('strip_comments', 'transform/transform.py'), ('etrunc', 'utils.py')], ['strip_comments']),
 p('C18', 'Schema checking accepts exactly the well-formed schemas',
   'Checking a schema returns it unchanged (apart from filling in omitted trailing columns) when it is well formed and raises an error otherwise: duplicate type names, reserved or unknown type names, duplicate field IDs or names, non-ordinal IDs in Array or Record, options not allowed or missing for the base type, inverted ranges or multiplicities, unknown or mismatched formats, both pattern and length, dangling tag references, and items of the wrong length are all rejected.',
   ['programs'], 'all schemas up to a bound with symbolic IDs, bounds and multiplicities, and one injected defect',
   'tests check a few malformed schemas each of one kind.',
   ['core.py', 'definitions.py', 'utils.py'], [('check, check_typeopts', 'core.py')], ['check']),
 p('C19', 'Dependency analysis reports exactly the references that exist',
   'Dependencies list exactly the non-built-in types each type refers to through fields, key and value types, derived enumerations and pointers. Analysis reports as undefined exactly the referenced or root names without a definition and as unreferenced exactly the definitions nobody refers to; the topological order lists every type reachable from the roots exactly once, starting at a root, each after a type that refers to it.',
   ['programs'], 'all reference graphs up to a bound of types, including cycles',
   'tests check two fixed schemas.',
   ['core.py', 'utils.py'], [('build_deps, topo_sort', 'utils.py'), ('analyze', 'core.py')], ['build_deps', 'topo_sort', 'analyze']),
 p('C20', 'JSON Schema translation is closed and agrees with the codec',
   'For every accepted schema the translation is valid JSON with one definition per type, every reference it contains resolves inside the document (or to the placeholder of an imported type), and every value that the codec accepts in verbose JSON mode is valid in it. For primitive types (sizes, bounds, anchored patterns), Enumerated (all three styles, derived ones included), Map, Record, Array, ArrayOf, repeated fields, links, tagged and untagged Choice types and MapOf with text keys, a value that the codec rejects is not valid either.',
   ['programs', 'inputs'], 'all schemas up to a bound x symbolic bounds x candidate instances', 'tests only check that translation does not crash.',
   ['translate/jsonschema_w.py'], [('json_schema_dumps and the t_*/w_* writers', 'translate/jsonschema_w.py')], ['json_schema_dumps']),
 p('C21', 'Resolving imports yields one self-contained package',
   'Resolving a package against a directory of packages that declares everything it imports yields a schema that contains every type of any package that is reachable from the roots (or exports) of the root package exactly once and no other type, with no namespace prefixes or dangling references left: every reference leads to the definition it led to before, and the definitions are otherwise unchanged. The result does not depend on the order of files in the directory, and input schemas are not modified.',
   ['programs'], 'all small sets of packages and reference graphs', 'tests resolve one fixed directory, if it is present.',
   ['transform/resolve.py'], [('resolve_imports, merge_typedef, SchemaPackage', 'transform/resolve.py')], ['resolve_imports']),
 p('C22', 'Diagrams show every type and every relationship',
   'For every accepted schema and every style, the generated diagram source has one node for each displayed type and one edge for each field, key or value type that refers to a displayed type, labelled with the field name and multiplicity, and no edge to an undeclared node; at the logical and information levels a node lists the fields of its type in order, and the documented style options (links, link_horizontal, attributes, edge and multiplicity labels, detail) take effect. Names, type options and descriptions never break the syntax of the output.',
   ['programs', 'configurations'], 'all schemas up to a bound x format x detail x flags', 'tests only check that output is produced.',
   ['convert/diagram_w.py'], [('diagram_dumps', 'convert/diagram_w.py')], ['diagram_dumps']),
 p('C23', 'Configured limits and names apply exactly where no explicit option does',
   'Strings, binaries and containers without an explicit maximum are limited by the package configuration ($MaxString, $MaxBinary, $MaxElements), taken from the schema info or from the configuration passed to the codec, else from the documented defaults; an explicit maximum always takes precedence over the configured one, and configured name patterns replace the default ones.',
   ['inputs', 'configurations'], 'all limit values x lengths x override combinations', 'tests use one configured value per limit.',
   ['codec/__init__.py', 'utils.py', 'definitions.py'], [('get_config', 'utils.py'), ('config_opts and limit defaults in set_mode', 'codec/__init__.py')], ['Codec', 'check']),
 p('C24', 'Codec behaviour depends only on schema and current mode',
   'The result of encoding or decoding depends only on the schema, the current mode and the value: it is the same for a codec that was switched between modes, has processed or rejected other values, or shares its schema with other codecs, as for a freshly built one.',
   ['histories', 'inputs'], 'all sequences of mode switches and calls up to a bound', 'tests switch modes but never compare with a fresh codec or reuse one after an error.',
   ['codec/__init__.py', 'codec/codec.py'], [('set_mode rebuilds the symbol table', 'codec/__init__.py')], ['Codec.set_mode', 'Codec.encode', 'Codec.decode']),
 p('C25', 'Results do not depend on set iteration order',
   'Everything the package produces (unfolded schemas, canonical forms, JIDL, HTML, Markdown, diagrams, JSON Schema, encoded values) is a function of its input alone: it does not change with the iteration order of sets, that is, with the interpreter hash seed.',
   ['programs', 'schedules'], 'all iteration orders of every set the code iterates', 'tests run under one fixed hash seed.',
   ['utils.py', 'convert/jidl.py', 'convert/html.py', 'convert/markdown.py', 'transform/transform.py'],
   [('topts_s2d, info ordering', 'utils.py')], ['jidl_dumps', 'html_dumps', 'markdown_dumps', 'unfold_extensions', 'canonicalize']),
 p('C26', 'Markdown documentation lists every definition completely',
   'For every accepted schema the Markdown output contains every type in order with its definition string and, for types with fields, one table row per field or item holding its ID, name, type, multiplicity and description, in tables whose rows all have the same number of columns as their header.',
   ['programs', 'inputs'], 'all schemas up to a bound', 'tests only check that output is produced.',
   ['convert/markdown.py'], [('markdown_dumps, format_table', 'convert/markdown.py')], ['markdown_dumps']),
 p('C27', 'Flat and nested forms of data are inverses',
   'Flattening nested dicts and lists yields one entry per leaf, in order, whose key joins the keys and list positions on its way with the separator (namespace prefixes of keys removed); unflattening it and turning dicts with the keys 0..n-1 into lists gives the original data back, for any separator and lists of any length. Neither flatten nor fluff modifies its input.',
   ['inputs'], 'all trees up to a bound, all key texts and separators within bounds', 'tests flatten two fixed messages.',
   ['utils.py'], [('hdict, fluff, flatten, dlist', 'utils.py')], ['fluff', 'flatten', 'dlist']),
 p('C28', 'JAS text lists every type, field and item',
   'For every accepted schema the JAS output contains every information entry, every type in order with its base type and id flag and description, and for each field or item its name, ID (unless implied by position), type, tag, optional flag and description, separated by commas except after the last. The schema is not modified.',
   ['programs', 'inputs'], 'all base types, options and field shapes within bounds', 'no test of JAS output exists.',
   ['convert/jas_w.py'], [('jas_dumps', 'convert/jas_w.py')], ['jas_dumps']),
 p('C29', 'Definition objects behave like the lists they stand for',
   'A type, field or item definition object holds the columns it was built from, documented defaults for the others, and behaves like the list of these columns: reading by index of either sign, slice, name, attribute or iteration gives the same values, an index out of range raises IndexError, assignment changes one column of one object, deletion restores its default, defaults are never shared between objects, and objects are equal exactly if all columns are. Converting a schema to objects and back gives the schema again (with all columns), neither form shares parts with the other, and the text conversions, unfolding and dependency analysis give the same result for the object form.',
   ['inputs', 'histories'], 'all column counts, indexes, slices and short sequences of changes with symbolic values; schemas up to a bound',
   'tests only use definition objects implicitly, never change or delete columns and never use the object form of a schema.',
   ['definitions.py', 'utils.py'], [('BasicDataclass, TypeDefinition, GenFieldDefinition, EnumFieldDefinition', 'definitions.py'), ('object_types, list_types', 'utils.py')],
   ['TypeDefinition', 'GenFieldDefinition', 'EnumFieldDefinition', 'object_type_schema', 'list_type_schema']),
 p('C30', 'Written files hold exactly the converted text',
   'For every accepted schema, output style and source name, each function that writes a file (JADN, JIDL, HTML, Markdown, JAS, diagrams, JSON Schema) leaves in it exactly the text that the corresponding conversion to text returns for the same style, preceded, if a source is named, by one comment line of the format that names it and an empty line (for JSON Schema, with a $comment that names it), whatever the file held before; reading the file gives what reading the text gives, and the schema is not modified.',
   ['inputs', 'configurations'], 'all formats x styles x source names x previous contents, with symbolic descriptions',
   'tests write files for a few schemas and do not compare them with the text.',
   ['core.py', 'convert/jidl.py', 'convert/html.py', 'convert/markdown.py', 'convert/jas_w.py', 'convert/diagram_w.py', 'translate/jsonschema_w.py'],
   [('dump, *_dump', 'core.py')], ['jadn.dump', 'jidl_dump', 'html_dump', 'markdown_dump', 'jas_dump', 'diagram_dump', 'json_schema_dump']),
]
if __name__ == '__main__':
    with open('/verif/properties.jsonl', 'w') as f:
        for x in props:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')
    print(len(props))
