#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the long texts stay reviewable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Booleans, integers and floats encode exactly as encoding/json does",
 "For every value of every boolean, integer and floating-point type (named or not, behind pointers, as a struct field with or without the `string` option, as array or slice element, inside an interface), Marshal returns byte for byte what encoding/json returns. NaN and infinities are rejected with an error wherever they occur.",
 ["inputs"],"every bit pattern of every width, in every position a scalar can occupy",
 "the tests sample a few dozen values per kind; width, sign and exponent-boundary slips show up on single values",
 ["integer.go","encode.go","instruction.go","types.go"],
 [("per-kind scalar encoders","integer.go"),("float formatting","encode.go appendFloat"),("kind dispatch","instruction.go newBasicTypeInstr")],
 ["Marshal"])
p("C02","Every byte string encodes to the JSON string encoding/json would write",
 "For every sequence of bytes, valid UTF-8 or not, a string encodes to a valid JSON string whose text is the one encoding/json writes (invalid bytes become \\ufffd, <, >, & and U+2028/U+2029 are escaped), the only licence being that a backspace or form feed may be spelled \\u0008/\\u000c. The same holds wherever a string's content is emitted: values, map keys, `,string` fields, and the text returned by MarshalText.",
 ["inputs"],"all byte strings up to the stated length in every string position",
 "escaping depends on byte neighbourhoods (multi-byte runes, truncated sequences); tests use a handful of literals",
 ["encode.go","instruction.go"],
 [("string escaping","encode.go appendEscapedBytes"),("quoted strings","encode.go encodeQuotedString"),("text marshalers","encode.go encodeTextMarshaler")],
 ["Marshal"])
p("C03","String options change only what they document",
 "Under every combination of NoStringEscaping, NoHTMLEscaping and NoUTF8Coercion, string contents (values, keys, raw byte slices, byte arrays as strings) are emitted as documented: NoStringEscaping emits the bytes verbatim and overrides the two others; NoHTMLEscaping leaves only <, > and & unescaped; NoUTF8Coercion leaves only invalid bytes as they are, and every other escape stays. Decoding the output gives back the original bytes whenever escaping is on and coercion is off.",
 ["inputs","configurations"],"all byte strings up to the stated length x all combinations of the three options",
 "the tests try one literal per option, and no combination over arbitrary bytes",
 ["encode.go","options.go"],
 [("string escaping","encode.go appendEscapedBytes"),("option flags","options.go")],
 ["MarshalOpts"])
p("C04","Composite values encode as encoding/json does",
 "For every acyclic value built from structs, pointers, slices, arrays, maps and interfaces (empty and non-empty interface types, recursive named types included), Marshal returns what encoding/json returns: nil pointers, slices, maps and interfaces are null, empty ones are [] or {}, elements keep their order and count, nested values are encoded at their own address and type. The result does not depend on whether the value is passed directly or through a pointer or an interface, except as encoding/json itself distinguishes them.",
 ["inputs","programs"],"all values up to the stated sizes of a catalogue of type shapes covering every kind in every position",
 "the code reads memory through unsafe offsets chosen per type shape; tests cover particular shapes with one value each",
 ["encode.go","instruction.go","types.go","unsafe.go","json.go"],
 [("instruction generation","instruction.go newInstruction"),("array/slice/struct/pointer walkers","encode.go"),("inline (pointer-shaped) values","instruction.go wrapInlineInstr, types.go isInlined")],
 ["Marshal"])
p("C05","Struct fields are selected, named and ordered as encoding/json does",
 "For every struct type, the set of encoded fields, their JSON names (with HTML-escaping of keys), their order and the memory they are read from are those encoding/json uses: json tags and their validity rules, `-`, unexported fields, embedding by value or pointer to any depth, shadowing, tag dominance and ambiguity elimination, nil embedded pointers skipping their fields. The `string` tag option applies to exactly the fields encoding/json applies it to.",
 ["programs","inputs"],"struct types of the catalogue, every tag text up to the stated length, all field values and nil-ness patterns",
 "field resolution is a graph algorithm over types; tests cover one example per rule and rarely combine depth, siblings and pointers",
 ["struct.go","tags.go","encode.go","instruction.go"],
 [("field discovery","struct.go structFields, scanFields"),("visibility","struct.go filterByVisibility, dominantField"),("tag parsing","tags.go parseTag")],
 ["Marshal"],[("fieldsCache","resolved fields per type","struct.go")])
p("C06","omitempty and omitnil drop exactly the right fields",
 "A field tagged omitempty is left out exactly when encoding/json leaves it out (false, 0, empty string, nil pointer or interface, empty slice, map or array), for every value. A field tagged omitnil is left out exactly when its pointer, interface, slice or map is nil, or when its type implements MarshalJSON and produced the literal null; all other fields are kept and the object stays well-formed whichever subset of fields is left out.",
 ["inputs","configurations"],"every kind of field, every combination of empty/non-empty fields up to the stated number of fields",
 "which fields are dropped interacts with separators and neighbours; tests take two or three fixed values",
 ["encode.go","struct.go","types.go","instruction.go"],
 [("emptiness tests","types.go emptyFuncOf"),("field loop","encode.go encodeStruct"),("omitnil eligibility","instruction.go newStructFieldsInstr")],
 ["Marshal"])
p("C07","Maps encode every entry once, sorted by key, like encoding/json",
 "A Go map is encoded with every entry exactly once, in increasing order of the (unescaped) key text, for every content and every iteration order of the runtime; keys of string kind are used directly, then MarshalText, then integers in decimal, and other key types are an error. With UnsortedMap the same entries appear in any order; a sync.Map encodes exactly as a Go map with the same entries.",
 ["inputs","schedules","configurations"],"all maps up to the stated number of entries with symbolic keys and values, every iteration order, sorted and unsorted",
 "iteration order is random at run time, and tests use alphabetic ASCII keys whose escaped order equals their order",
 ["encode.go","map.go","instruction.go"],
 [("sorted/unsorted map walkers","encode.go encodeSortedMap, encodeUnsortedMap, encodeSortedSyncMap, encodeUnsortedSyncMap"),("map iterator reuse","map_1.18.go"),("key instruction","instruction.go newMapInstr")],
 ["Marshal","MarshalOpts"],[("hiterPool, mapElemsPool, bufferPool","scratch reused between map encodings","map.go, buffer.go")])
p("C08","Custom marshalers are chosen, called and propagated as documented",
 "The method used for a value is AppendJSONContext, else AppendJSON, else MarshalJSON, else MarshalText, counting pointer-receiver methods exactly where encoding/json would consider the value addressable; the receiver seen by the method equals the value being encoded, and a nil pointer or interface gives null without a call. AppendJSONContext receives the context given with WithContext (a non-nil default otherwise); an error of the method is returned, wrapped so that errors.Is finds it.",
 ["inputs","programs","configurations"],"all receiver values of a catalogue of types implementing each subset of the four interfaces by value or pointer receiver, in every position (top level, pointer, field, embedded pointer, element, map value, interface)",
 "addressability depends on the path to the value; tests cover top-level and direct fields",
 ["encode.go","instruction.go","json.go","unsafe.go"],
 [("marshaler selection","instruction.go newMarshalerTypeInstr"),("receiver construction","encode.go encodeMarshaler, unsafe.go packEface"),("method invocation and errors","encode.go encodeJSONMarshaler, encodeTextMarshaler, encodeAppendMarshaler, encodeAppendMarshalerCtx")],
 ["Marshal","MarshalOpts"])
p("C09","MarshalJSON output and RawMessage are compacted, validated, escaped",
 "For every byte sequence returned by a MarshalJSON method or held by a json.RawMessage: if it is valid JSON the output is that text with insignificant whitespace removed, U+2028/U+2029 escaped and, unless NoHTMLEscaping is set, <, > and & escaped, as encoding/json does; if it is not valid JSON an error is returned. With NoCompact the bytes are emitted verbatim; a nil RawMessage is null.",
 ["inputs","configurations"],"all byte strings up to the stated length, with and without NoHTMLEscaping and NoCompact",
 "a compactor must track string and escape state over arbitrary bytes; the tests use one or two literals",
 ["encode.go"],
 [("compaction","encode.go appendCompactJSON"),("validation","encode.go encodeJSONMarshaler, encodeRawMessage")],
 ["Marshal","MarshalOpts"])
p("C10","json.Number values are accepted exactly when they are JSON numbers",
 "For every string held by a json.Number, Marshal emits it unchanged if it matches the JSON number grammar, emits 0 if it is empty, and returns an error otherwise, exactly as encoding/json; with the `string` tag option it is quoted. With NoNumberValidation the text is emitted without check.",
 ["inputs","configurations"],"all strings up to the stated length",
 "the grammar is a small automaton with many transitions; tests list a few dozen literals",
 ["number.go","encode.go"],
 [("number grammar","number.go isValidNumber"),("encoding","encode.go encodeNumber")],
 ["Marshal","MarshalOpts"])
p("C11","Times encode as the configured layout says, for every instant in range",
 "For every time.Time whose local year is in [0,9999] and whose zone offset is within 24 hours, the output is the quoted result of formatting the time with the configured layout (RFC3339Nano by default, byte for byte what time.Format gives), or the decimal Unix seconds when UnixTime is set, which has precedence. A year outside [0,9999] is an error.",
 ["inputs","configurations"],"all (seconds, nanoseconds, zone offset) in the stated ranges x {RFC3339, RFC3339Nano, custom layouts, UnixTime}",
 "calendar arithmetic is hand-written; tests sample random instants of recent years and cannot hit all centuries, leap days or offsets",
 ["time.go","encode.go"],
 [("calendar algorithm","time.go rdnToYmd"),("RFC3339 writer","time.go appendRFC3339Time"),("range check and layout selection","encode.go encodeTime")],
 ["Marshal","MarshalOpts"])
p("C12","Durations encode in the configured format for every value",
 "For every time.Duration, the output is: the integer nanoseconds (default), microseconds or milliseconds (truncated toward zero), the shortest JSON number for d.Minutes() or d.Seconds(), or the quoted d.String(), according to DurationFormat. This holds over the full int64 range, including the most negative value.",
 ["inputs","configurations"],"all 2^64 durations x all six formats",
 "unit boundaries and fraction trimming depend on the magnitude; tests sample a dozen values",
 ["time.go","encode.go"],
 [("duration formatting","time.go appendDuration, fmtFrac, fmtInt"),("format selection","encode.go encodeDuration")],
 ["Marshal","MarshalOpts"])
p("C13","Byte slices and byte arrays encode in the selected representation",
 "A byte slice encodes as the quoted standard base64 of its bytes (null when nil), for every length, content and destination capacity; with RawByteSlice it is the JSON string of its bytes. A byte array encodes as an array of numbers, or with ByteArrayAsString as the JSON string of its bytes; slices or arrays whose element type has its own marshaler are encoded element by element.",
 ["inputs","configurations"],"all contents up to the stated length, all lengths up to the stated bound, with and without the two options",
 "padding and buffer growth depend on length modulo 3 and on the remaining capacity of the destination",
 ["encode.go","instruction.go"],
 [("byte slices","encode.go encodeByteSlice"),("byte arrays","encode.go encodeByteArrayAsString, encodeArray"),("eligibility","instruction.go newSliceInstr, newArrayInstr")],
 ["Marshal","MarshalOpts","AppendOpts"])
p("C14","Options are independent, order-insensitive and validated",
 "Each option has exactly its documented effect whatever other options are given: NilMapEmpty and NilSliceEmpty turn only nil maps or slices into {} or []; AllowList keeps and DenyList drops, at every nesting level, exactly the struct fields whose JSON name is listed, with DenyList winning, and touch nothing else. The order of distinct options is irrelevant, nil options are ignored, and a nil context, empty time layout or unknown duration format is reported as an InvalidOptionError without output (when the value is not a nil interface).",
 ["configurations","inputs"],"subsets and orders of the options up to the stated size, over values exercising each option, with symbolic list membership",
 "tests exercise one option at a time on one value",
 ["options.go","encode.go","json.go"],
 [("option application and validation","options.go apply, validate"),("field lists","options.go isDeniedField"),("nil handling","encode.go encodeSlice, encodeMap")],
 ["MarshalOpts","AppendOpts"])
p("C15","The four entry points agree, and Append only appends",
 "For every value, destination slice (any length, content and spare capacity) and options, Append and AppendOpts return the destination's bytes followed by exactly the bytes Marshal or MarshalOpts return, without altering the destination's existing bytes; all four succeed or fail together, and Marshal and MarshalOpts without options agree. On failure Marshal returns no bytes, and the destination's existing bytes are still unaltered.",
 ["inputs","configurations"],"all destinations up to the stated length and capacity x values of the catalogue",
 "tests append to nil slices only, so capacity- and prefix-dependent slips stay invisible",
 ["json.go","encode.go","buffer.go"],
 [("entry points","json.go"),("in-place buffer edits","encode.go encodeStruct, encodeByteSlice, appendFloat")],
 ["Marshal","Append","MarshalOpts","AppendOpts"])
p("C16","A result depends only on the value and options, never on history",
 "The output of a call is the same whatever calls (successful or failed, of the same or other types, with other options) came before it, and repeating a call gives the same bytes. Returned byte slices belong to the caller: later calls never change them, and changing them never influences later calls.",
 ["histories","fault_sequences"],"all sequences of up to the stated number of calls over a catalogue of values, options and failing marshalers, with scratch pools returning any previously released item",
 "pooled buffers, map iterators and per-type caches persist between calls; tests are single calls on fresh types",
 ["json.go","buffer.go","map.go","instruction.go","struct.go"],
 [("buffer pool","buffer.go cachedBuffer"),("iterator and element pools","map.go, map_1.18.go"),("instruction, field and emptiness caches","instruction.go, struct.go, types.go")],
 ["Marshal","MarshalOpts"],[("bufferPool, hiterPool, mapElemsPool","scratch objects reused across calls","buffer.go, map.go"),("instrCachePtr, structInstrCache, fieldsCache, emptyFnCache","per-type caches","instruction.go, struct.go, types.go")])
p("C17","Concurrent calls behave as if run alone",
 "Any number of goroutines may call the entry points at the same time, including the very first use of a (recursive) type by several goroutines at once: every call returns what it returns when run alone, no data race occurs, and no call blocks forever.",
 ["schedules"],"all interleavings at synchronisation operations of two calls, within the stated preemption bound, on cold and warm caches",
 "no existing test runs two calls concurrently",
 ["instruction.go","struct.go","types.go","buffer.go","map.go"],
 [("copy-on-write instruction cache","instruction.go storeInstr"),("placeholder for types under construction","instruction.go newStructInstr"),("scratch pools","buffer.go, map.go")],
 ["Marshal"],[("instrCachePtr, structInstrCache","shared caches","instruction.go")])
p("C18","Encoding never modifies, over-reads or panics on the value",
 "Encoding a value of a supported type (acyclic, not concurrently modified) never panics, never writes to the value or to anything reachable from it, and reads no memory outside the value and what it references. This holds for nil pointers, empty and zero-sized components, and pointer-shaped values (single-pointer structs and arrays, maps) in every position.",
 ["inputs","programs"],"all values of the catalogue up to the stated sizes, with every memory access of the encoder checked against the bounds of the object it addresses",
 "an over-read returns plausible bytes and no test would notice",
 ["encode.go","unsafe.go","types.go","instruction.go"],
 [("unsafe field and element addressing","encode.go encodeStruct, encodeArray"),("header reinterpretation","unsafe.go sp2b, unpackEface, packEface"),("pointer-shaped types","types.go isInlined")],
 ["Marshal","MarshalOpts"])
p("C19","Success means well-formed JSON; unencodable values are errors",
 "Whenever a call succeeds with escaping, compaction and number validation left on, its output is exactly one valid JSON text, whatever user marshalers return from MarshalJSON or MarshalText. A channel, function or complex value, a map with an unsupported key type, or an invalid float, number or marshaler result anywhere inside the value makes the whole call fail as it does in encoding/json, unless it is omitted or never reached.",
 ["inputs","programs","configurations"],"all values up to the stated sizes of a catalogue that places unencodable parts at every position, and all marshaler outputs up to the stated length",
 "tests place an unencodable value at top level only and check that an error is returned",
 ["encode.go","instruction.go","json.go"],
 [("unsupported types","instruction.go newUnsupportedTypeInstr"),("error propagation in walkers","encode.go encodeStruct, encodeArray, encodeSortedMap, encodeUnsortedMap")],
 ["Marshal","MarshalOpts"])
p("C20","Errors name what failed and wrap its cause",
 "When a call fails, errors.As finds an UnsupportedTypeError with the type encoding/json reports, an UnsupportedValueError with the same text, a MarshalerError with the type (or a pointer to it) and, in its message, the method that failed, which unwraps to the error that method returned or, when the JSON it returned is invalid, to a SyntaxError, or an InvalidOptionError wrapping the reason. Outside maps, the failure reported is the first in encoding order; every error, for every input, has a non-empty message; DurationFmt.String names the known formats and gives \"unknown\" for every other integer.",
 ["inputs","programs","configurations"],"all pairs and triples of failing and encodable parts in structs, slices, arrays and maps; every marshaler interface combination failing; all non-finite floats; all method results up to the stated length; every DurationFmt",
 "tests check that an error is returned for a value at top level, rarely which one or what it wraps",
 ["encode.go","json.go","options.go","instruction.go"],
 [("error types","json.go UnsupportedTypeError, UnsupportedValueError, MarshalerError, SyntaxError, InvalidOptionError"),("wrapping of method errors","encode.go encodeJSONMarshaler, encodeTextMarshaler and their siblings"),("option validation","options.go validate, DurationFmt.String")],
 ["Marshal","Append","MarshalOpts","AppendOpts"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
