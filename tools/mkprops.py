#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))

prop("C01", "Parsing any bytes ends in a value or an error, never a crash or a hang",
 "For every byte string, every parsing entry point (one document, a document at an offset, a stream of documents, YAML text, query text) returns either a value or an error; it never panics, loops forever, returns both or neither, or reports a position outside the input. Every value it returns can be rendered, inspected, copied, compared and converted without a panic, and every error can be printed.",
 ["inputs"], "every byte string, including non-UTF-8, truncated, mis-nested and reference-bearing text",
 "the tests parse a few dozen well-formed texts; the panics live in texts nobody wrote down (an empty bare word, a repeated or non-numeric node id)",
 ["jsonutils.go", "parse_session.go", "yamlutils.go", "querystring.go"],
 [("scanner bounds checks", "jsonutils.go: parseString, parseQuoteString, parseDict, parseArray"), ("reference bookkeeping", "parse_session.go")],
 ["Parse", "ParseStream", "ParseJsonStreams", "ParseYAML", "ParseQueryString"])
prop("C02", "Compact text of any document is valid JSON and parses back to that document",
 "For every document built from null, booleans, 64-bit integers, finite floats, byte strings, arrays and objects, parsing its compact text yields the same document (a float with an integral value may come back as the equal integer) and rendering that again yields the same bytes. The text is exactly one standard (RFC 8259) JSON text when the strings are valid UTF-8, and lists object members in ascending byte order of their keys.",
 ["inputs"], "every document, of any nesting, size, key set and string bytes",
 "the tests render fixed samples; which bytes are escaped, how each number is spelled and where separators go must hold for all contents and shapes",
 ["write.go", "string.go", "jsonutils.go"],
 [("string escaping", "jsonutils.go: quoteString, escapeJsonChar"), ("container writers", "write.go: buildString"), ("number text", "string.go")],
 ["String()", "Parse"])
prop("C03", "Standard JSON text is decoded to exactly the value it denotes",
 "Every RFC 8259 text (any white space, any escape including surrogate pairs, any number form, any nesting) parses to the document it denotes: strings byte for byte, integers that fit 64 bits exactly, other numbers as floats, array elements in order, and for a repeated member name the last value. Member order and white space never matter. (The member name ___jnid_ is the library's own, for node ids.)",
 ["inputs"], "every RFC 8259 text",
 "the tests compare a few texts; escapes x positions x nesting x number forms are unbounded",
 ["jsonutils.go"],
 [("quoted string decoding", "jsonutils.go: parseQuoteString"), ("bare value classification", "jsonutils.go: parseJSONValue"), ("container parsing", "jsonutils.go: parseDict, parseArray")],
 ["Parse"])
prop("C04", "Cut or malformed text is rejected; relaxed notation has one fixed reading",
 "A text whose string, array or object is not closed, or that misses a colon, comma or complete escape inside one, is rejected with an error and no document. The relaxed notation has one fixed reading: single or double quotes, unquoted words (null/none, true/yes, false/no in any case, then integer, then float, else string), a trailing comma, raw bytes as \\xHH, other escapes standing for themselves.",
 ["inputs"], "every proper prefix, deletion, insertion and replacement of every text, and every text in relaxed notation",
 "the tests contain almost no negative case; a truncated text being accepted as a shorter document is silent data loss",
 ["jsonutils.go"],
 [("Truncated and Unexpected char errors", "jsonutils.go: parseDict, parseArray, parseQuoteString"), ("bare words", "jsonutils.go: parseString, parseJSONValue")],
 ["Parse", "ParseString"])
prop("C05", "Streams and offsets: every document is found once, in order, at its place",
 "Parsing at an offset reads exactly the document that starts there after white space, whatever precedes it or follows it, and reports the position right after it. From a byte stream the stream parser returns exactly the arrays and objects in it, in order, whatever non-bracket text lies between them, and a broken fragment does not hide the complete documents after it.",
 ["inputs", "histories"], "every concatenation of documents, separators and broken fragments, and every start offset",
 "the tests contain one or two streams; offsets and recovery depend on the whole history of the stream",
 ["jsonutils.go"],
 [("offset threading", "jsonutils.go: ParseStream"), ("scan and resume", "jsonutils.go: ParseJsonStreams")],
 ["ParseStream", "ParseJsonStreams"])
prop("C06", "Pretty and YAML renderings denote the same document as the compact one",
 "For every document the indented rendering parses back to the same document as the compact rendering and differs from it only in white space outside strings. The YAML rendering parses back, as YAML, to that document as well, and any standard JSON text free of the characters YAML does not take literally (C1 controls, line and paragraph separators, non-characters) and of keys beyond YAML's thousand characters means the same read as JSON or as YAML.",
 ["inputs"], "every document; for YAML, those whose strings are valid UTF-8 and whose object keys are not the merge key '<<'",
 "the tests look at one or two fixed documents; key escaping and indentation of nested containers depend on contents",
 ["jsonutils.go", "yamlutils.go"],
 [("indented writer", "jsonutils.go: prettyString"), ("YAML bridge", "yamlutils.go: yamlString, ParseYAML")],
 ["PrettyString", "YAMLString", "ParseYAML"])
prop("C07", "Objects and arrays behave as a map and a sequence under every edit history",
 "After any sequence of sets, removals, merges, appends and element replacements, an object answers every lookup, size, key listing and map or text view as the abstract map holding the last value set per key, with keys listed once each in ascending byte order, and an array as the abstract sequence. An edit changes nothing but its target: no other key, element or separately held container changes, except through a value both hold.",
 ["histories"], "every interleaving of edits and reads over several objects and arrays that may hold one another's values",
 "the tests run a handful of short fixed scripts; slice-backed storage fails on particular insertion orders, sizes and aliasing histories",
 ["access.go", "dict.go", "clone.go", "size.go", "length.go", "values.go", "jsonutils.go"],
 [("sorted slice map", "access.go: Set, Remove over yunion.io/x/pkg/sortedmap"), ("array storage", "access.go: Add, SetAt")],
 ["Set", "Remove", "Add", "SetAt", "Update", "Get", "GetMap", "SortedKeys", "Size", "String"])
prop("C08", "Key paths read, test and create exactly the nested member they name",
 "Reading or testing a key path finds exactly the value reached by following each key through nested objects, and reports an error (or false) when a key is missing, a step is not an object, or the receiver is not an object; an object's empty path is itself. Setting a value at a non-empty path creates the missing or null objects on the way, changes no other member, and refuses with an error and no change beyond that creation when a step holds a non-object.",
 ["inputs", "histories"], "every document, every key path of any length, every value",
 "tests use a few two-step paths on friendly documents",
 ["access.go"],
 [("path walk", "access.go: _get"), ("path creation", "access.go: (*JSONDict).Add")],
 ["Get", "Contains", "Add", "GetAt", "GetMap", "GetArray"])
prop("C09", "Case-insensitive lookup prefers the exact key; removal takes every folded match",
 "A case-insensitive lookup or test at each step of a key path finds the exact key if present, otherwise the first key in ascending order that equals it under case folding, and otherwise fails just as the exact lookup does. Case-insensitive removal removes every key that equals the given one under case folding, and nothing else, and reports whether there was any.",
 ["inputs", "histories"], "every object, including ones with several keys that differ only in case, and every path",
 "the tests have one lookup per spelling; precedence among several spellings and along a path is not exercised",
 ["access.go"],
 [("folded find", "access.go: _get(false), remove(false)")],
 ["GetIgnoreCases", "ContainsIgnoreCases", "RemoveIgnoreCase"])
prop("C10", "Typed accessors return the value converted, or an error, and nothing in between",
 "Asking a document (or the value at a key path in it) for an integer, float, boolean, string, time, map, array or array element returns the stored value, or for a string the value its text denotes (numbers, on/off, yes/no, true/false, 1/0, timestamps), or an error when kind or text does not fit; it never invents a value. Array positions count from the end when negative and are errors out of range, and a scalar asked for an array is an array of itself.",
 ["inputs"], "every kind of document x every accessor x every key path and index",
 "the tests cover a few cells of the kind x accessor matrix",
 ["access.go", "values.go", "utils.go"],
 [("per-kind accessor methods", "access.go"), ("deprecated value getters", "values.go")],
 ["Int", "Float", "Bool", "GetString", "GetTime", "GetMap", "GetArray", "GetAt", "Value"])
prop("C11", "Copies equal their source and are independent of it",
 "A deep copy equals its source and shares nothing with it: no later edit of either, at any depth, is visible in the other. A shallow copy holds exactly the selected members (all, all but the excluded, or only the included) and its own member list, and the maps, arrays and key lists handed out are snapshots that later edits do not change and whose modification changes no document.",
 ["histories", "inputs"], "every document and every sequence of edits to source, copy and handed-out collections afterwards",
 "the tests compare a copy right after it is made; independence is a statement about every later edit",
 ["clone.go", "access.go", "values.go"],
 [("deep copy", "clone.go: DeepCopy"), ("shallow copies", "clone.go: Copy, CopyExcludes, CopyIncludes"), ("snapshots", "access.go: GetMap, GetArray")],
 ["DeepCopy", "Copy", "CopyExcludes", "CopyIncludes", "GetMap", "GetArray", "SortedKeys"])
prop("C12", "Merge and difference obey their map laws",
 "Merging an object into another keeps every member of both, the merged-in one winning on common keys (or losing, when merged in as defaults), leaves the merged-in object as it was, and does nothing for a non-object. The difference of two objects splits their members into four objects: only in the first, in both and different (as a pair of both values), in both and equal, only in the second; together these rebuild both inputs, which are left as they were.",
 ["inputs", "histories"], "every pair of objects, including equal, disjoint, empty and identical ones",
 "the tests diff one pair of small objects",
 ["dict.go", "update.go"],
 [("merge", "dict.go: Update, UpdateDefault"), ("difference", "dict.go: Diff")],
 ["Update", "UpdateDefault", "Diff"])
prop("C13", "Equality is an equivalence that agrees with content",
 "Two documents are equal exactly when they have the same kind and content: the same scalar value, the same elements in the same order, the same set of members with equal values, however each was built. Hence equality is reflexive, symmetric and transitive, and equal documents render to the same text (single-precision floats and negative zero aside).",
 ["inputs"], "every pair and triple of documents without NaN or infinities, built by any route (constructors, parsing, editing, marshalling, copying)",
 "the tests compare a few pairs; an equality that skips one member, one position or one kind is invisible to them",
 ["equals.go", "jsonpointer.go"],
 [("structural comparison", "equals.go"), ("references", "jsonpointer.go: Equals")],
 ["Equals"])
prop("C14", "Reading never writes: documents, Go values and shared constants stay as is",
 "Rendering, reading, comparing, copying, marshalling, and unmarshalling from a document leave that document, the marshalled Go value, the input bytes and the library's shared null, true and false values unchanged. Repeating any of these on the same input gives the same output, byte for byte.",
 ["histories", "inputs"], "every sequence of read operations, marshals and unmarshals over shared documents and values, including repeated unmarshals into the same target",
 "a test that only looks at the result cannot see a changed source; corruption of a shared constant shows up in unrelated code",
 ["unmarshal.go", "marshal.go", "access.go", "consts.go", "jsonutils.go"],
 [("replace, do not overwrite, shared nodes", "unmarshal.go: _unmarshalValue of each kind"), ("sorted output", "marshal.go: marshalMap")],
 ["every read operation", "Marshal", "Unmarshal", "JSONTrue", "JSONFalse", "JSONNull"])
prop("C15", "Marshalling a Go value and unmarshalling the result gives the value back",
 "For every Go value built from booleans, integers, floats, strings, three-valued flags, timestamps (to the microsecond), pointers, slices, arrays, string-keyed maps and (embedding) structs, unmarshalling its marshalled document, directly or through its text, into a fresh variable of its type gives an equal value, up to the distinctions that omission erases (nil and empty; nil elements when nulls are dropped) and the sign of zero.",
 ["inputs", "programs"], "every type expression over these constructors and every value of it, with unique member names, the string form asked for on scalars only, and, where nulls are dropped, arrays without elements that would be",
 "the tests round-trip a few hand-written struct types",
 ["marshal.go", "unmarshal.go"],
 [("marshal by kind", "marshal.go: _marshalValue"), ("unmarshal by kind", "unmarshal.go: _unmarshalValue")],
 ["Marshal", "MarshalAll", "Unmarshal", "Update"])
prop("C16", "Struct fields appear under the right names and are omitted by the stated rules",
 "A struct marshals to the object holding each exported, non-ignored field (those of embedded structs included) under its name tag, else its json tag name, else its snake-case name, with the declared string form if asked for. A field is left out only by the rules: empty strings, collections and structs unless allowed, zero numbers and false only if asked, nil always; when marshalling everything nothing is left out and nil becomes null. A map's entries stand under the texts of their keys, whatever type these are of.",
 ["programs", "inputs"], "every struct type over field names, tag combinations, kinds and embedding, and every value",
 "tag options x kinds x zero/non-zero x both modes is a product the tests sample",
 ["marshal.go"],
 [("omission rules", "marshal.go: marshalSlice, marshalMap, marshalStruct, marshalInt64, marshalBoolean, marshalString, marshalTime"), ("names", "marshal.go: struct2JSONPairs")],
 ["Marshal", "MarshalAll"])
prop("C17", "Deprecated aliases carry the value of the field that replaced them, both ways",
 "A field declared deprecated in favour of another marshals with the value of the field at the end of its replacement chain, and is absent if that field is; when unmarshalling, a value given under any deprecated name also reaches every field along its replacement chain. Chains that loop are ignored for output and neither direction ever fails to terminate.",
 ["programs", "inputs"], "every set of fields with replacement declarations forming chains, trees and loops, and every subset of names given in the document",
 "the tests have chains of length one or two and one loop shape",
 ["marshal.go", "unmarshal.go", "consts.go"],
 [("alias output", "marshal.go: struct2JSONPairs"), ("forwarding", "unmarshal.go: setStructFieldAt")],
 ["Marshal", "Unmarshal"])
prop("C18", "Pointer graphs with sharing and loops survive marshal, text and unmarshal",
 "Marshalling a pointer into any graph of structs linked by pointers, slices and maps terminates; the text shows every path of the graph, no node id stands on two objects, and every reference names an object in the text that shows the struct referred to; marshalling it again gives the same text. Read member by member, a reference is the object it names, and the plain values of the document end, at a loop in null. Unmarshalling the document, its compact or indented text, or a text in which objects and references to them have changed places, restores, in a fresh variable or in one whose pointers lead to old structs, a graph with the same values along every path, in which every struct on a cycle is one struct again.",
 ["inputs", "programs"], "every finite pointer graph of exported fields without deprecated aliases, with self loops, mutual loops, loops through slices and maps, and sharing inside and outside loops",
 "the tests have three or four fixed graphs; which nodes need an id depends on the whole traversal history",
 ["json_pointer_trace.go", "jsonpointer.go", "marshal_session.go", "unmarshal_session.go", "parse_session.go", "marshal.go"],
 [("traversal trace and reference counts", "json_pointer_trace.go: push, find, pop"), ("node ids", "jsonpointer.go: setAllNodeId"), ("reference resolution", "unmarshal_session.go")],
 ["Marshal", "Parse", "Unmarshal"])
prop("C19", "Unmarshalling converts every kind to every target, or fails with an error",
 "Unmarshalling any document into any settable target, of any kind, either stores the converted value (numbers and their text incl. grouped decimals, boolean words, timestamps, pointers allocated, text of composites into strings, a single string into a list) or returns an error; it never panics, never stores a value the document does not denote, and null always clears the target.",
 ["inputs", "programs"], "every document kind and text x every target type, nested through pointers, slices, arrays, maps and structs",
 "kind x target is a large matrix; tests visit the diagonal",
 ["unmarshal.go", "currency.go"],
 [("conversion by kind", "unmarshal.go: _unmarshalValue"), ("grouped decimals", "currency.go")],
 ["Unmarshal"])
prop("C20", "Unmarshalling overlays: only named members change, a bad one spares the rest",
 "Unmarshalling an object into a struct or map changes exactly the fields or entries it names (by name tag, json name, snake-case, field or capitalised name) and leaves every other as it was; unknown members are ignored. When some members for a struct cannot be converted an error is returned, and all the other members are still stored. Unmarshalling with a key path does this with the value at that path, and nothing when there is none; updating a Go value from another does it with the other's marshalled form, so what is left out of that stays as it was.",
 ["inputs", "histories"], "every prior state of the target, every object, every combination of good, bad, null and unknown members, every repetition",
 "the tests start from zero targets and have one failing field at most",
 ["unmarshal.go", "update.go"],
 [("updating from another value", "update.go: Update"), ("field matching", "unmarshal.go: setStructFieldAt"), ("error aggregation", "unmarshal.go: unmarshalStruct")],
 ["Unmarshal", "Update"])
prop("C21", "Custom JSON methods and after-unmarshal hooks are used wherever they apply",
 "A value whose Go method set includes MarshalJSON is represented by what that method produces, at every position (root, field, element, map value, behind pointers) and is never left out; one with UnmarshalJSON is filled by passing it its part of the document (null clears it). An error of such a method is reported: Unmarshal returns it, Marshal panics. A struct's AfterUnmarshal hook runs exactly once each time an object is stored in the struct, after all its members are set and after the hooks of the structs embedded in it, also when some members could not be converted.",
 ["inputs", "programs"], "every nesting position and pointer depth of types with value or pointer receivers",
 "the tests put such types at one or two positions",
 ["std_json.go", "unmarshal.go"],
 [("method detection", "std_json.go: indirectStdUnmarshaler, indirectStdMarshaler"), ("hook", "unmarshal.go: callStructAfterUnmarshal")],
 ["Marshal", "Unmarshal", "AfterUnmarshal"])
prop("C22", "A document encoded as a query string decodes to the same document",
 "Encoding an object as a query string and decoding it gives the same structure with every leaf as its text (null as an empty text), provided its keys are non-empty and free of dots, those below the top are not integers, and no array or object in it is empty. Nesting, array order and all special characters survive.",
 ["inputs"], "every such object, of any depth, any mixture of arrays and objects and any text in keys and leaves",
 "the tests decode fixed strings; escaping, depth and array sizes beyond nine are not covered",
 ["querystring.go", "stringsegment.go"],
 [("encoding", "querystring.go: _queryString, simpleQueryString"), ("decoding", "querystring.go: addQueryStringSeg"), ("ordering of keys", "stringsegment.go: Less")],
 ["QueryString", "ParseQueryString"])
prop("C23", "Decoding a query string depends on its parameters, not on their order",
 "Decoding a query text yields the object in which every parameter is found at the path its dotted name spells and nothing else; places below the top that are numbered from zero form an array, others an object, and a repeated parameter is an array of its values in order. The order of different parameters in the text never matters. Names that disagree (one place for a value and a container or for two values, a gap in an array, a name in an array) and text that is not a valid query encoding are an error; nothing is dropped or moved.",
 ["inputs", "schedules"], "every multiset of parameters, in every order, with any escaping",
 "map iteration and sort order make a dependence on order intermittent; the tests fix one order",
 ["querystring.go", "stringsegment.go"],
 [("grouping by segments", "querystring.go: parseQueryString, addQueryStringSeg"), ("segment order", "stringsegment.go: compare, Less")],
 ["ParseQueryString"])
prop("C24", "Concurrent readers of one document see no race and the sequential result",
 "Any number of goroutines may render, read, compare, copy, convert and unmarshal from one shared document, and parse or marshal unrelated data, at the same time: there is no data race and each gets the result it would get alone.",
 ["schedules"], "every interleaving of read operations on a shared document and of independent parse, marshal and unmarshal calls",
 "the tests are sequential",
 ["string.go", "jsonutils.go", "unmarshal.go", "marshal.go"],
 [("no hidden writes in readers", "string.go, access.go, write.go"), ("per-call sessions", "parse_session.go, marshal_session.go, unmarshal_session.go")],
 ["all read operations under the race detector"])
prop("C25", "Plain Go conversion mirrors the document",
 "Converting a document to plain Go values gives nil, bool, 64-bit integer, float, string, slice and string-keyed map mirroring it exactly and sharing nothing with it, and marshalling that (everything included) gives an equal document. Emptiness and size of every document follow from its content.",
 ["inputs"], "every document",
 "the tests convert fixed documents",
 ["interface.go", "iszero.go", "length.go", "size.go"],
 [("conversion", "interface.go"), ("zero test", "iszero.go")],
 ["Interface", "IsZero", "Length", "Size", "MarshalAll"])
prop("C26", "Convenience queries answer from the document exactly as defined",
 "The required-fields test fails exactly when the document is not an object or some listed field is missing or null; string lists come out as the texts of the elements of an array, a single string, or the members 0,1,2... of an object; the first non-empty string among several keys, the numbered-prefix array and the boolean query return exactly what the members say, or the stated default.",
 ["inputs"], "every document and every list of keys",
 "each helper has one or two fixed cases",
 ["utils.go", "querystring.go", "string.go"],
 [("helpers", "utils.go: CheckRequiredFields, GetQueryStringArray, GetAnyString, GetArrayOfPrefix, GetStringArray"), ("boolean query", "querystring.go: QueryBoolean")],
 ["the helper functions"])
prop("C27", "Registered serializable types are rebuilt from their text",
 "A value of a registered serializable type is rebuilt from its JSON text as the registered concrete type with the values the text denotes, both directly (then passed through its registered transformers, in order) and, from an object, as an interface-typed field or element; a document type is rebuilt as that document. An unregistered interface type, bad text or a mismatch is an error, never a panic.",
 ["inputs", "configurations"], "every registration state, text and nesting position of the interface type",
 "the tests register one type and read one text",
 ["reflect.go", "unmarshal.go"],
 [("registry lookup", "reflect.go: JSONDeserialize, init"), ("interface targets", "unmarshal.go: (*JSONDict)._unmarshalValue")],
 ["JSONDeserialize", "Unmarshal"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
