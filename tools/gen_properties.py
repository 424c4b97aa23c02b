import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
D="binread_derive/src/codegen/read_options.rs"; DS="binread_derive/src/codegen/read_options/struct.rs"; DE="binread_derive/src/codegen/read_options/enum.rs"
B="binread/src/"
p("C01","A failed read puts the reader back where it started",
 "When reading a type with a derived parser (struct, unit struct, data enum, unit-like enum, mapped type) or a built-in number fails for any reason, the reader is back at the exact position it had when that read began before the error is returned. The only exception is a failure of the repositioning seek itself, which is then the error returned.",
 ["programs","inputs","fault_sequences"],"every derivable type, every input (truncated, bad magic, failed assert, failed pointer target, failed map), every read/seek failure point",
 "Tests check the position after a handful of failures of a handful of types; a rewind missing on one error kind, one directive combination or one number type is not sampled.",
 [D,DE,B+"binread_impls.rs"],[("outer rewind wrapper around every generated parser","codegen/read_options.rs generate()"),("rewind on short read in the number impls","binread_impls.rs binread_impl!")],["reader position at every error return of a read"])
p("C02","Pointer following and restore_position leave no displacement",
 "After a successful derived read the reader stands exactly after the last sequentially read byte of the value: deferred post-processing of fields (for example following file pointers) does not move it. A field marked restore_position leaves the reader where it was before that field, including before that field's own padding, alignment or seek.",
 ["programs","inputs"],"every derived struct or enum variant with post-processed and/or restore_position fields, every input",
 "Tests look at one or two shapes with a few bytes; whether the position is right for every field kind and combination of directives is a statement about all programs.",
 [DS,B+"file_ptr.rs"],[("save/restore around the post-processing block","struct.rs wrap_save_restore"),("save/restore in pointer dereference","file_ptr.rs after_parse")])
p("C03","A failing `try` field becomes None, rewinds, and parsing goes on",
 "A field marked `try` never makes its parent fail because the field's own value could not be read: the field becomes None, the reader is put back where the read of that value began, and the following fields are read from there. When the value can be read the field is Some of that value.",
 ["programs","inputs"],"every type that can be read in a `try` field (including collections and other types that do not rewind on their own), every failure point inside it",
 "The only test uses a single number on empty input, where no byte has been consumed yet.",
 [DS],[("try conversion of a field's read result","struct.rs try_conversion")])
p("C04","Byte-order directives follow the documented precedence",
 "Every value read by a derived parser uses the byte order of the innermost directive that applies: field first (including the conditional is_big/is_little, whose other outcome is the opposite order), then enum variant, then the struct or enum itself, then the order requested by the caller. A byte order on a struct or enum always wins over the caller's and applies to its magic and its mapped form too, and a directive on one field never affects another field (the conditional forms exist on fields only).",
 ["programs","configurations"],"every placement and combination of byte-order directives on structs, tuple structs, data enums and their variants, unit-like enums, mapped types, fields; every caller byte order",
 "Tests cover a few placements with specific bytes; precedence is a rule over all combinations of four levels.",
 [D,DS,"binread_derive/src/parser/top_level_attrs.rs","binread_derive/src/parser/types/cond_endian.rs"],[("options builder","codegen/read_options.rs ReadOptionsGenerator"),("variant override","top_level_attrs.rs Enum::with_variant")])
p("C05","Numbers consume exactly their width and decode per byte order",
 "Reading any built-in integer or float consumes exactly its size in bytes from the current position and returns those bytes decoded as big-endian, little-endian or host-endian according to the requested byte order. A char is one byte read the same way.",
 ["inputs","configurations"],"all 12 number types plus char, all byte orders, all byte contents, each feature set",
 "Tests use a few types and values; palindromic or small values hide a swapped byte order in one type.",
 [B+"binread_impls.rs"],[("number impls","binread_impls.rs binread_impl!")])
p("C06","Containers and helpers pass options and arguments through unchanged",
 "Library-provided containers, wrappers and helper parsers (vectors, arrays, tuples, Box, Option, PosValue, file pointers and their targets, wide strings, punctuated lists, count/until/until_exclusive/until_eof) read every element with the byte order, pointer base offset and arguments they were themselves given; those that post-process their elements do so with the same ones. A count given to a vector is consumed by that vector and is not visible to its elements.",
 ["programs","configurations"],"every library container or helper, every element type, every caller byte order, offset, count and argument value",
 "Tests instantiate a few containers with one byte order and no arguments or offset; an option dropped in one wrapper is invisible to them.",
 [B+"binread_impls.rs",B+"helpers.rs",B+"file_ptr.rs",B+"pos_value.rs",B+"punctuated.rs",B+"strings.rs"],[("element read calls","each impl's read_options/after_parse")])
p("C07","Magic is checked exactly, first, and gates everything after it",
 "For every struct, unit struct, enum, enum variant, mapped type or field with a magic value, that value is read at the start of the item (for a field: before its padding and value; a variant's own magic replaces one the enum declares for its variants) in the item's byte order and compared for equality with the declared one before anything else of the item is read or accepted. On mismatch nothing further of the item is read and a bad-magic error carrying the value found and its position is produced; on a match parsing continues right after the magic.",
 ["programs","inputs"],"every placement of magic and every literal kind (byte, byte string, char, int, float), every input",
 "Tests exercise a few placements with one matching and one failing input.",
 [D,DS,DE,B+"error.rs"],[("magic check emission","codegen/read_options.rs get_magic, add_magic_pre_assertion; struct.rs prefix_magic"),("comparison","error.rs magic")])
p("C08","Every assertion is enforced, in order and lazily",
 "A read succeeds only if every assert on the fields, structs, unit structs, variants and enums involved, and every pre_assert on structs, enums and variants, wherever these directives are accepted, evaluated to true; pre_asserts run before the item's fields are read, field asserts right after their field and type-level asserts after all fields, each group in the order written. A failing assert produces an assertion error with the declared message (or the condition text) or the declared custom error, whose expression is evaluated only on failure.",
 ["programs","inputs"],"every placement, number and form of assert/pre_assert, every truth assignment of the conditions",
 "Tests use single assertions on a few shapes; a silently dropped assertion in an untested placement accepts invalid data forever.",
 [D,DS,DE,B+"private.rs","binread_derive/src/parser/types/assert.rs"],[("assertion emission","codegen/read_options.rs get_assertions"),("runtime check","private.rs assert")])
p("C09","Arguments, count and offset reach exactly the field they are written on",
 "A parser with imports sees exactly the argument values its caller passed, by name and position (or as the whole tuple), available to all its fields, assertions and variants. A field is read with exactly the args/args_tuple, count and offset written on it, or with no arguments and the enclosing parser's own count and offset when none are written; offset_after is used only for that field's post-processing; none of them leaks to another field.",
 ["programs"],"every combination of import/import_tuple with args/args_tuple/count/offset/offset_after on any field of any shape",
 "Tests cover one or two arguments on one field; swapped, dropped or leaked settings need specific combinations.",
 [D,DS,"binread_derive/src/parser/types/imports.rs","binread_derive/src/parser/types/passed_args.rs"],[("argument binding","codegen/read_options.rs add_imports"),("per-field options","struct.rs prefix_args_and_options, prefix_offset_options")])
p("C10","Enum variants are tried in order from the same position; first match wins",
 "Reading a data enum tries the variants in declaration order, each one from the position at which the enum's read began, and returns the first variant whose magic, assertions and fields all succeed, with exactly that variant's fields. No later variant is attempted after a success, and no variant is skipped or attempted twice.",
 ["programs","inputs"],"every data enum (unit, tuple and struct variants mixed, with and without magic and assertions), every input and failure point in each variant",
 "Tests have enums of two or three variants with a couple of inputs.",
 [DE],[("variant trial loop","enum.rs generate_data_enum")])
p("C11","Enum failures report every variant's error, or one generic error",
 "When no variant of a data enum matches, the error lists every variant exactly once, in declaration order, by its name and with the very error that variant failed with, together with the position at which the enum's read began; with return_unexpected_error it is instead a single no-variant-match error at that position.",
 ["programs","inputs"],"every data enum in either error mode, every combination of failure points",
 "Tests check one enum per mode.",
 [DE],[("error collection","enum.rs generate_data_enum"),("mode","parser/types/enum_error_mode.rs")])
p("C12","Unit-like enums map each stored value to its own variant and reject others",
 "A unit-like enum reads exactly one value of its repr type (or of its variants' magic type) in its byte order, after its own top-level magic if it has one, and yields the variant whose discriminant (or magic) equals that value and whose pre_assert conditions hold, in declaration order. Any other value gives a no-variant-match error at the position where the enum began; a read error is passed on.",
 ["programs","inputs"],"every unit-like enum (repr or magic, explicit, implicit and negative discriminants, any number of variants, pre_asserts, imports), every value",
 "Tests check two or three values of small enums.",
 [DE,"binread_derive/src/parser/top_level_attrs.rs"],[("repr comparison chain","enum.rs generate_unit_enum_repr"),("magic match","enum.rs generate_unit_enum_magic")])
p("C13","Skipped, defaulted and calculated fields read nothing",
 "A field whose `if` condition is false consumes nothing (apart from the magic written on it) and evaluates to its alternate (or default) value, which is evaluated only in that case; when the condition is true it is read exactly as it would be without the condition. Fields marked default, ignore or calc read nothing but the magic written on them and get the default value or the value of their expression.",
 ["programs","inputs"],"every combination of if/default/ignore/calc with other field directives, both condition outcomes",
 "Tests look at values on a few inputs, not at what is consumed for every directive combination.",
 [DS],[("condition wrapper","struct.rs wrap_condition"),("read mode","struct.rs read_value")])
p("C14","Padding, alignment and seek directives move the reader as documented",
 "Around each field the reader is moved in this order and by nothing else: seek_before, pad_before, align_before, the field's value, pad_size_to, pad_after, align_after. Each pad moves by exactly its amount, each align by the distance from the current position to the next multiple, and pad_size_to only by what is missing between the bytes consumed by the value since the position just before it and the requested size; a false `if` skips all of them.",
 ["programs","inputs"],"every combination of the six positioning directives on any field with any other directive, every position and amount",
 "Tests use single directives with one or two amounts.",
 [DS],[("seek generation","struct.rs generate_seek_before/generate_seek_after/map_align/map_pad")])
p("C15","map and try_map transform exactly the value read",
 "A field or type with map holds exactly the result of the function applied once to the value read, and the reader stays where reading that value left it; with try_map it holds the Ok result, and an Err result fails the read with that error: as an I/O error if it is one, otherwise as a custom error carrying it. For a mapped type the source value is read with the type's own byte order, after its magic and pre_asserts.",
 ["programs","inputs"],"every field and type with map/try_map combined with any other accepted directive, every outcome of the function",
 "Tests use a couple of closures on a couple of shapes; silently ignored directives next to map are never tried.",
 [D,DS,B+"private.rs"],[("type-level map","codegen/read_options.rs generate"),("field-level map","struct.rs map_value")])
p("C16","Every value read is post-processed exactly once",
 "Each value read by a derived parser, a library container or wrapper, or a reader extension method has its post-processing run exactly once, with the options and arguments it was read with: for plain fields after all fields of the parent are read and in field order, for deref_now/postprocess_now fields immediately after the field is read. Containers forward post-processing to every element they hold, and an error in it fails the read; only values consumed by map, parse_with, calc, default or a failed try have none.",
 ["programs","inputs"],"every field kind and container nesting, every element count",
 "Tests dereference a pointer in two or three containers; a container that does not forward shows only as a panic on later dereference.",
 [DS,B+"binread_impls.rs",B+"pos_value.rs",B+"lib.rs",B+"private.rs",B+"punctuated.rs"],[("post-processing emission","struct.rs generate_after_parse, deref_now"),("forwarding impls","binread_impls.rs, pos_value.rs")])
p("C17","Counted collections hold exactly the requested elements, in order",
 "Vectors, fixed-size arrays, tuples, the count helper and the bulk byte reader read exactly the requested number of elements, one after another from the current position, and return precisely those values in reading order. The first element that fails ends the read with that element's error; nothing is read after it and no partial collection is returned.",
 ["inputs","programs"],"every count (including 0), every array and tuple size from 0 to 32, every element type, every failing index",
 "Tests read a few small collections successfully.",
 [B+"binread_impls.rs",B+"helpers.rs"],[("element loops","binread_impls.rs Vec/array/tuple impls; helpers.rs count, read_bytes")])
p("C18","until helpers stop at the right element and lose none",
 "until returns every element read up to and including the first that satisfies the condition, until_exclusive the same without that last element, and until_eof every complete element before the first end-of-file error; elements keep their order, each is tested exactly once, and nothing is read beyond the stopping point. Any other error ends the read with that error.",
 ["inputs"],"every element sequence, every stopping index (including the first), every failure point and error kind",
 "Tests use one sequence per helper.",
 [B+"helpers.rs"],[("loops","helpers.rs until, until_exclusive, until_eof")])
p("C19","Punctuated lists alternate items and separators exactly",
 "A punctuated list of count n reads item, separator, item, separator and so on from the current position and ends with the n-th item, or, in trailing form, with the n-th separator; it holds the n items and the n-1 (or n) separators in reading order, and none of either for n = 0. The first failing item or separator ends the read with its error.",
 ["inputs"],"every count including 0 and 1, every failing index",
 "Tests use count 3 only.",
 [B+"punctuated.rs"],[("loops","punctuated.rs separated, separated_trailing")])
p("C20","Null-terminated strings end at, consume and exclude the first terminator",
 "A null-terminated string holds exactly the code units from the current position up to, not including, the first zero unit, and the reader ends right after that zero unit; no unit is dropped, altered or zero. Wide strings read each 16-bit unit in the requested byte order. Any read error other than reaching end of data is returned.",
 ["inputs"],"every byte sequence, every terminator position, every byte order, every read failure point",
 "Tests use two short ASCII strings.",
 [B+"strings.rs"],[("unit loops","strings.rs impls for vectors of non-zero units")])
p("C21","File pointers read their target at base offset plus pointer",
 "A file pointer's target is read at exactly the configured base offset plus the stored pointer value, relative to the start of the reader, using the same byte order, offset and arguments, and post-processed there; afterwards the reader is back where it was before the jump; a target no seek can express is past any data. Parsing a pointer with immediate dereference leaves the reader just after the stored pointer and yields the target's value.",
 ["inputs","programs"],"every pointer width, pointer value, base offset, target type and failure point",
 "Tests dereference a few small pointers.",
 [B+"file_ptr.rs"],[("dereference","file_ptr.rs after_parse, parse, IntoSeekFrom")])
p("C22","temp fields are read but never stored, all other fields are kept",
 "With the derive_binread attribute, fields marked temp are read in place like any other and can be used by later directives, but do not exist in the resulting type; every other field keeps its name, position, type, visibility and value, and all parser attributes are removed from the emitted definition while all other attributes written below it remain.",
 ["programs"],"every struct, tuple struct and enum variant with any subset of fields marked temp, at any index",
 "Tests use one struct and one enum with a single temp field.",
 ["binread_derive/src/lib.rs","binread_derive/src/parser/top_level_attrs.rs"],[("definition filtering","lib.rs clean_field_attrs"),("value construction","top_level_attrs.rs iter_permanent_idents")])
p("C23","Conflicting or unsupported directives are rejected at compile time",
 "A derive with a directive that is unknown or not supported at that place, a directive repeated where only one is meaningful, or mutually exclusive directives does not compile, with an error for every attribute in the item holding such a mistake, and every supported combination compiles. No accepted directive is dropped because of another directive on the same item, except that directives about how a value is read have no effect on a field that reads none.",
 ["programs"],"every directive at every place (struct, unit struct, data enum, unit-like enum, data variant, unit variant, field) and every pair of directives",
 "The compile-fail tests list about thirty hand-picked cases.",
 ["binread_derive/src/parser/mod.rs","binread_derive/src/parser/macros.rs","binread_derive/src/parser/field_level_attrs.rs","binread_derive/src/parser/top_level_attrs.rs","binread_derive/src/parser/types/mod.rs"],[("keyword tables","macros.rs attr_struct!, parse_any!"),("conflict detection","TrySet impls")])
p("C24","No read or seek error is swallowed or replaced",
 "Whenever a read or seek on the underlying reader, or the reading or post-processing of a nested value, fails, the enclosing read stops there and returns that same error, without reading or post-processing anything further. The only exceptions are a failing try field, a failing enum alternative, end-of-file ending until_eof, retry of interrupted reads, and a failing rewind, whose own error is returned.",
 ["programs","fault_sequences"],"every reader operation performed by any derived or library parser, every failure of it",
 "Tests run on in-memory cursors, on which seeks never fail and reads fail only at the end.",
 [D,DS,DE,B+"binread_impls.rs",B+"helpers.rs",B+"strings.rs",B+"punctuated.rs",B+"file_ptr.rs"],[("error propagation","every fallible call in generated and library parsers")])
p("C25","The no_std I/O layer behaves like std::io",
 "Without the std feature, the cursor's seeks set and return exactly the requested absolute, current-relative or end-relative position and reject negative or overflowing targets without moving; its reads copy min(requested, remaining) bytes from the current position and advance by that many. Exact reads fill the whole buffer or fail with unexpected-eof, byte iteration yields each byte once until the end, both retry interrupted reads and pass other errors on, and forwarding through a mutable reference does the same.",
 ["inputs","histories","configurations"],"every buffer length, position, seek target and sequence of operations, every reader behaviour (short reads, interruptions, errors that consume nothing)",
 "Tests compare a few operations on a five-byte buffer; end-relative seeks and overflow are not exercised.",
 [B+"io/cursor.rs",B+"io/no_std.rs",B+"io/mod.rs"],[("cursor","io/cursor.rs"),("provided methods","io/no_std.rs")])
p("C26","Every entry point reads with the byte order and arguments it promises",
 "read and read_args read with native byte order, no count and zero offset; read_be, read_le, read_ne and their _args forms use big, little and native byte order, read_type and read_type_args the one given; the given (or default) arguments are passed unchanged to both reading and post-processing and the resulting value or error is returned as is. Convenience calls without arguments work exactly for types whose arguments default.",
 ["inputs","programs"],"every entry point, every type and argument value",
 "Tests call a few entry points on specific types.",
 [B+"lib.rs",B+"options.rs",B+"endian.rs"],[("trait methods","lib.rs BinRead, BinReaderExt"),("defaults","options.rs, endian.rs")])
p("C27","Hostile input never panics the library",
 "No input bytes, reader behaviour or caller-requested element count makes a library parser panic or overflow, and generated parsers add no panic of their own except for arithmetic on values written by the user in directives. The only panics are the documented programming errors: a missing count, missing arguments, and using a file pointer that was never post-processed.",
 ["inputs","fault_sequences"],"every input and reader failure, for every library parser and generated parser",
 "A test cannot enumerate all inputs; panics hide behind extreme lengths, offsets and failure points.",
 [B+"binread_impls.rs",B+"helpers.rs",B+"file_ptr.rs",B+"strings.rs",B+"punctuated.rs",B+"io/cursor.rs",B+"io/no_std.rs",D,DS,DE],[("total operations only","all parsers")])
p("C28","The debug_template feature never changes what is parsed",
 "With the debug_template feature enabled every derived and library parser performs the same reads and seeks with the same byte order, count, offset and arguments, and returns the same value, error and reader position as without it; failures to write the template are ignored (a lock poisoned by a panic in the middle of such a write aside).",
 ["configurations","programs","inputs"],"every type and input, feature on versus off, output set or not",
 "Tests run separately per feature set; equivalence of the two builds on all inputs is never compared.",
 ["binread_derive/src/codegen/read_options/debug_template.rs",B+"binary_template.rs",B+"binread_impls.rs",B+"strings.rs",B+"file_ptr.rs",B+"error.rs",D,DS],[("feature-gated emission","debug_template.rs; cfg blocks in the library")])
p("C29","Generated code is self-contained and hygienic",
 "A derived type compiles and means the same wherever it is written: in crates without std, next to user items or fields with any names (including reader, options, args, value, error, pos, size, pad, align) other than the reserved generated prefix, the crate's own name and the prelude's Ok, Err, Some and None, and in generic types. The names of fields (self_0, self_1 and so on in tuple shapes) and of imports are the only names a derive introduces for user expressions.",
 ["programs","configurations"],"every naming of user fields, types, functions and constants; std and no_std crates; generic parameters",
 "Tests use one set of names in std crates.",
 ["binread_derive/src/codegen/sanitization.rs",D,DS,DE],[("reserved names and absolute paths","sanitization.rs")])
p("C30","Positions reported to the user are the positions of the thing described",
 "Every position in an error or value is right: bad-magic errors carry the position where the magic was read, assertion, enum and type-level mapping errors the position where the enclosing struct or enum began, field-level mapping errors the position of the field's value, and a position-recording value the position where its inner value began.",
 ["programs","inputs"],"every error with a position from every placement of the directive that raises it, any padding, alignment, nesting",
 "Tests rarely look at positions and only at offset zero or one shape.",
 [D,DS,DE,B+"error.rs",B+"private.rs",B+"pos_value.rs"],[("saved start position","codegen/read_options.rs generate"),("position capture","error.rs magic, pos_value.rs")])
p("C31","Memory use is driven by data read, not by counts claimed in it",
 "No parser reserves or fills memory in proportion to a requested element count before the elements have actually been read, so a huge count with little data fails with an ordinary end-of-file error instead of exhausting memory or overflowing a capacity.",
 ["inputs"],"every count value up to the maximum, every collection parser",
 "Tests use small counts with matching data.",
 [B+"binread_impls.rs",B+"helpers.rs",B+"punctuated.rs",B+"strings.rs"],[("incremental growth","collection loops")])
p("C32","Unsafe operations are reached only when their precondition was checked",
 "Code that fabricates values without validation (non-zero integers from raw units, the zero-sized default argument value) runs only on paths where the corresponding check (the unit is not zero, the argument type is exactly unit) has just succeeded. The library and the code it generates contain no unsafe operation whose precondition is not established that way.",
 ["inputs","programs"],"every path through the library",
 "Undefined behaviour is not observable by ordinary tests.",
 [B+"strings.rs",B+"lib.rs"],[("guards","strings.rs zero tests; lib.rs args_default type test")])
p("C33","Wrappers, conversions and errors give back exactly what they hold",
 "A position-recording value, a followed file pointer, a punctuated list and a null-terminated string compare, print, clone, dereference and convert exactly as the value they hold does, and writing through them changes that value and nothing else. Converting a null-terminated string to text decodes exactly the units it holds. custom_err returns the payload of a custom error exactly when it has the requested type, an I/O error converts to the same error, and default options mean native byte order, no count and zero offset.",
 ["inputs"],"every held value, every error kind, every payload type",
 "Tests dereference one value of each wrapper and never write through, compare unequal values or ask for another payload type.",
 [B+"pos_value.rs",B+"file_ptr.rs",B+"punctuated.rs",B+"strings.rs",B+"error.rs",B+"options.rs",B+"endian.rs"],[("wrapper traits","pos_value.rs, file_ptr.rs, punctuated.rs, strings.rs"),("errors and options","error.rs custom_err, options.rs")])
p("N01","Alignment arithmetic is right for every position and alignment",
 "For every position below 2^63 and every positive alignment the aligned position is the least multiple of the alignment not below the position.",
 ["inputs"],"all positions and alignments","Numeric statement over all integers.",
 [DS],[("align formula","struct.rs map_align")])
p("N02","String conversions decode UTF-8 and UTF-16 correctly",
 "Converting a null-terminated string to text yields the text encoded by its units, with replacement characters only for invalid sequences in the lossy forms and an error in the lossless forms.",
 ["inputs"],"all unit sequences","Quantifies over all encodings.",
 [B+"strings.rs"],[("conversions","strings.rs into_string, into_string_lossless, to_string")])
p("N03","Debug templates describe the bytes that were read",
 "The template written by the debug_template feature is syntactically valid and its declarations cover exactly the byte ranges that were read.",
 ["programs","inputs"],"all types and inputs","No test reads the emitted template.",
 [B+"binary_template.rs","binread_derive/src/codegen/read_options/debug_template.rs"],[("writers","binary_template.rs")])
p("N04","Parsing terminates on every finite input",
 "Every parser terminates on every finite reader.",
 ["inputs","programs"],"all types and inputs","Termination over all inputs and user-supplied readers, closures and element types.",
 [B+"helpers.rs",B+"binread_impls.rs"],[("loops","helpers.rs, binread_impls.rs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
