#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os
P = []
DOC = "every well-formed JSON document with an object or array root (unique keys per object, any nesting, any insignificant whitespace, any escapes)"
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
CORE = ("path search", "inter_core.go: core()")
PARSE = ("tree construction", "parse_core.go: pCore(); parse_utils.go: Parse()")
T8 = "The suite replays seven fixed documents (as stored and flattened); "

prop("C01", "Path lookup returns exactly the addressed value",
 "For any well-formed JSON document and any path that resolves in it (keys in their raw escaped spelling, array elements by decimal index), Get and GetString return exactly the text of the addressed value: the characters between the quotes for a string, the complete raw text for anything else. An empty path returns the whole document. GetAll and GetAllMap return the same values for each of several keys under one path, in the order asked.",
 ["inputs"], "for " + DOC + ", for every path that resolves in it",
 T8 + "they never meet most combinations of escapes, brace/comma/colon characters inside strings, look-alike keys at other levels, whitespace kinds, empty containers and depth.",
 ["inter_core.go", "inter_get.go"], [CORE, ("quote / escape tracking", "inter_core.go: backslash-parity loops"), ("value skipping between keys", "inter_core.go: jump from ':' to ','")],
 ["Get", "GetString", "GetAll", "GetAllMap"])

prop("C02", "A path that does not resolve is an error of the right kind, never another value",
 "For any well-formed document, a path that does not resolve makes every path-taking read and edit function return an error and no value. A missing key in an object is reported as KeyNotFound, a non-integer step into an array as IndexExpected, an index outside an array as IndexOutOfRange (or EmptyArray when the array is empty), and a step into a scalar as some error. A Parser, which knows labels only, may report KeyNotFound for any of these. ErrEqual recognises these and all other errors of the package by exactly their own code.",
 ["inputs"], "for " + DOC + ", for every path that does not resolve in it and every path-taking function",
 T8 + "every path they use resolves; the error side is not tested at all.",
 ["inter_core.go", "inter_get.go", "inter_iter.go", "inter_set.go", "inter_add.go", "inter_delete.go", "inter_type.go", "others.go", "errors.go"],
 [CORE, ("error classification", "errors.go: ErrEqual and err* constructors")],
 ["all path-taking functions", "ErrEqual"])

prop("C03", "Set replaces exactly the addressed value",
 "For any well-formed document, any resolving non-empty path and any well-formed JSON value, Set returns the document with the raw text of the addressed value (including the quotes of a string) replaced by the new value and every other byte unchanged. Reading the path back gives the new value and reading any path not at or under it gives what it gave before. An empty path is rejected as NullPath.",
 ["inputs"], "for " + DOC + ", every resolving path, every well-formed new value",
 T8 + "one fixed bare word is written and only that path is read back; the rest of the document is never compared.",
 ["inter_set.go", "inter_core.go", "utils.go"], [CORE, ("splice", "utils.go: replace()"), ("quote inclusion", "inter_set.go: Set()")], ["Set", "Get"])

prop("C04", "SetKey renames exactly the addressed key and never creates duplicates",
 "For any well-formed document and any path resolving to an object member, SetKey with a new non-empty key absent from that object returns the document with only that key's text replaced, leaving position, value and every other byte as they were. If the new key already exists in that object the call fails, and a path that ends in an array element or does not resolve is rejected.",
 ["inputs"], "for " + DOC + ", every member, every new key",
 T8 + "one fixed fresh key is used and only the renamed path is read.",
 ["inter_set.go", "inter_core.go"], [("uniqueness probe", "inter_set.go: SetKey()"), CORE], ["SetKey"])

prop("C05", "AddKeyValue appends one member and never duplicates a key",
 "For any well-formed document and any path to an object, AddKeyValue with a key absent from that object adds exactly that member after the existing ones, storing null for a nil value, and changes nothing else in the document. If the key is already a member of that object the call fails with KeyAlreadyExist; if the path leads to anything but an object it fails with ObjectExpected.",
 ["inputs"], "for " + DOC + ", every path to an object (or to something else), every key and well-formed value",
 T8 + "one fresh key is added and read back; duplicate detection, look-alike keys elsewhere and non-object targets are not tried.",
 ["inter_add.go", "inter_core.go"], [("existence probe and splice", "inter_add.go: AddKeyValue()"), CORE], ["AddKeyValue"])

prop("C06", "Add and Insert put one element at the right array position",
 "For any well-formed document and any path to an array, Add appends the given well-formed value as the last element, and Insert at an index of an existing element puts it before that element and shifts the later ones, in both cases changing no other element and nothing outside the array. Insert at an index that is not an existing element fails, and both fail with ArrayExpected when the path leads to anything but an array.",
 ["inputs"], "for " + DOC + ", every path to an array (or to something else), every index and well-formed value",
 T8 + "Insert is only tried at index 0 and Add only on the listed arrays with one value.",
 ["inter_add.go", "inter_core.go"], [("element splice", "inter_add.go: Add(), Insert()"), CORE], ["Add", "Insert"])

prop("C07", "Delete removes exactly the addressed member or element",
 "For any well-formed document and any resolving non-empty path, Delete returns a well-formed document in which exactly that object member or array element (with its separating comma) is gone, and all others keep their order, keys and text. An empty path is rejected as NullPath.",
 ["inputs"], "for " + DOC + ", every resolving path: first, middle, last and only children of objects and arrays",
 T8 + "only a just-appended last child is ever deleted.",
 ["inter_delete.go", "inter_core.go"], [("comma edge detection and splice", "inter_delete.go: Delete()"), CORE], ["Delete"])

prop("C08", "Store overwrites an existing member or adds a missing one, nothing else",
 "For any well-formed document, any path to an object and any key and well-formed value, Store gives the result of replacing that member's value when the object has the key, and of appending the member when it has not; no other part of the document changes. When the path does not resolve, or resolves to a scalar, Store fails and creates nothing.",
 ["inputs"], "for " + DOC + ", every path and key, present or absent, and every well-formed value; free functions and JO methods",
 "No existing test calls Store at all.",
 ["inter_set.go", "jin_object_add.go", "inter_add.go"], [("upsert decision on KeyNotFound", "inter_set.go: Store(); jin_object_add.go: JO.Store()")], ["Store", "JO.Store"])

prop("C09", "Any history of edits leaves the document equal to a model edited the same way",
 "Starting from any well-formed document, after any sequence of Set, SetKey, AddKeyValue, Add, Insert, Delete and Store (with free functions or on a JSON object), each applied to the result of the previous one, the document is well-formed and structurally equal, in order, to a reference tree given the same edits; an edit fails exactly when it is impossible on the reference tree.",
 ["histories", "inputs"], "for every starting document and every finite sequence of edits",
 "Each existing test performs at most two edits on a fresh copy of a fixed document.",
 ["inter_add.go", "inter_set.go", "inter_delete.go", "inter_core.go", "jin_object_add.go", "jin_object_set.go"],
 [CORE, ("edit splices", "inter_add.go, inter_set.go, inter_delete.go")], ["edit functions", "JO.JSON", "JO.String"])

prop("C10", "A failed edit leaves the document as it was",
 "When an edit returns an error, the document survives: free edit functions return the caller's document unchanged alongside the error, and a JSON object or a Parser holds the same text and answers every read as before the call. This includes typed variants, null keys and out-of-range indexes.",
 ["inputs", "histories"], "for every document, every edit function and variant (free, JO, Parser), and every argument combination that makes it fail",
 "No existing test provokes a failing edit.",
 ["inter_add.go", "inter_set.go", "inter_delete.go", "jin_object_add.go", "jin_object_set.go", "jin_object_others.go", "parse_add.go", "parse_set.go", "parse_delete.go"],
 [("error returns carry json", "inter_add.go / inter_set.go / inter_delete.go"), ("validate before mutating", "parse_*.go")], ["edit functions", "JO edit methods", "Parser edit methods"],
 [("JO body", "the current document text", "jin_object.go: JO.body"), ("Parser tree and text", "two views of one document", "parse_utils.go: Parser")])

prop("C11", "No call modifies its caller's buffers or earlier results",
 "No function of the package writes to the document, value, key list or path it is given, including spare capacity behind those slices, and an edit's result does not change when the source document's buffer is reused afterwards. Results handed out earlier keep their contents when later calls are made: documents returned by earlier edits, path slices passed to a Walk callback, and key lists handed to or obtained from a Scheme.",
 ["inputs", "histories"], "for every exported function, every document and every argument slice with or without spare capacity",
 "Existing tests pass fresh slices with no spare capacity and never look at them afterwards.",
 ["utils.go", "inter_get.go", "inter_add.go", "inter_set.go", "walk.go", "make.go", "inter_delete.go", "jin_object_add.go"],
 [("copying splice", "utils.go: replace()"), ("path extension", "append(path, ...) sites in inter_*.go, walk.go, jin_object_add.go")], ["all exported functions"])

prop("C12", "Calls on shared data are independent: reentrant and safe to run concurrently",
 "Any mix of read, edit, build and format calls running at the same time in several goroutines over the same document and path slices, or made from inside an iteration callback, returns exactly what each call returns when run alone. No such run contains a data race.",
 ["schedules", "inputs"], "for every mix of calls over shared read-only arguments and every interleaving of them, including nested calls from callbacks",
 "The existing tests are single-threaded and never nest calls.",
 ["inter_core.go", "inter_get.go", "inter_iter.go", "walk.go", "parse_get.go", "parse_utils.go"],
 [("no package-level mutable state; per-call tables", "inter_core.go: isJSONChar and siblings")], ["all read, edit, build and format functions", "Parser reads"])

prop("C13", "Typed writers store the given value in standard JSON notation",
 "Every typed write variant (string, integer of any width, unsigned, finite float, boolean) of Set, Add, AddKeyValue, Insert and Store, as free function, JO method or Parser method, puts a well-formed JSON value with the same meaning at the same place as its untyped form would: integers in decimal, floats reading back to the same float64, booleans as true/false. For free functions and JO a string argument is stored as the raw text of a JSON string, unless it spells a JSON number, true, false, null, or is already quoted, or is the text of a JSON array or object, in which case it is stored as that value.",
 ["inputs"], "for every typed variant, every value of its argument type (strings: the content of a JSON string, a quoted string, or for free functions and JO any JSON value) and every valid target",
 "The existing tests call the typed variants only with two or three short strings.",
 ["inter_add.go", "inter_set.go", "jin_object_add.go", "jin_object_set.go", "parse_add.go", "parse_set.go", "utils.go"],
 [("number formatting", "strconv.Format* calls in inter_add.go / inter_set.go"), ("string classification", "utils.go: formatType(), isInt(), isFloat()")], ["Set*/Add*/AddKeyValue*/Insert*/Store* typed variants"])

prop("C14", "Typed scalar getters convert faithfully or fail",
 "For any well-formed document and resolving path, GetInt, GetFloat and GetBool (free, JO, Parser) return the number or boolean that the addressed value's text spells, exactly, when it spells one that fits the type, and otherwise fail with the matching parse error; they never return a wrong value.",
 ["inputs"], "for " + DOC + ", every path and every number spelling, including limits of the types",
 "No existing test calls GetInt, GetFloat or GetBool.",
 ["inter_get.go", "parse_get.go", "jin_object_get.go"], [("conversion", "inter_get.go: GetInt/GetFloat/GetBool; parse_get.go likewise")], ["GetInt", "GetFloat", "GetBool"])

prop("C15", "Typed array getters return every element in order or fail",
 "For any well-formed document and any path to an array, GetStringArray and ParseArray return one string per element, in order (string contents without quotes, other elements as their trimmed raw text), and GetIntArray, GetFloatArray and GetBoolArray return the converted elements, in order, or a parse error if some element does not convert. An empty array gives an empty result without an error, and a value whose text is not bracketed as an array fails.",
 ["inputs"], "for " + DOC + ", every array: any element kinds, nesting, commas/brackets/escapes inside elements, whitespace",
 "ParseArray is only applied to flattened fixture arrays; the typed array getters are not called by any existing test.",
 ["others.go", "inter_get.go", "parse_get.go", "utils.go"], [("element splitting", "others.go: ParseArray(); inter_get.go / parse_get.go: Get*Array"), ("trimming", "utils.go: cleanValueString()")], ["GetStringArray", "GetIntArray", "GetFloatArray", "GetBoolArray", "ParseArray"])

prop("C16", "Iteration visits every element or member exactly once, in order",
 "For any well-formed document, IterateArray on an array and IterateKeyValue on an object invoke the callback once per element or member, in document order, with the same value (and key) that path lookup gives, and not at all for an empty container. Iteration stops right after a callback that returns false or an error, and returns that error, at whichever element it happens. A path to any other kind of value is rejected with ArrayExpected or ObjectExpected.",
 ["inputs", "histories"], "for " + DOC + ", every container path and every stopping position and callback outcome",
 T8 + "callbacks never return an error and stop only on failure; empty containers are skipped; values are only compared for compact or uniformly indented text.",
 ["inter_iter.go", "utils.go"], [("element scan", "inter_iter.go: IterateArray()"), ("member scan", "inter_iter.go: IterateKeyValue()"), ("trimming", "utils.go: cleanValue()")], ["IterateArray", "IterateKeyValue"])

prop("C17", "Key, value, map and length views of a container agree with its contents",
 "For any well-formed document and path, GetKeys, GetValues and GetKeysValues on an object list its keys and values in order; GetMap on an object or array maps each key or index to its value; Length is the number of elements or members; IsEmpty on a container is true exactly when that number is zero, and never true for a scalar. GetKeys, GetValues and GetKeysValues may report an empty root object as an error, but never invent entries.",
 ["inputs"], "for " + DOC + ", every container path including the root, with any whitespace",
 T8 + "values are checked after flattening only, Length only on nested arrays, GetMap only in one example, IsEmpty never.",
 ["inter_get.go", "others.go", "inter_type.go", "utils.go"], [("object scans", "inter_get.go: GetKeys/GetValues/GetKeysValues/GetMap"), ("length", "others.go: Length()"), ("span of the addressed value", "utils.go: getStartEnd()"), ("emptiness", "inter_type.go: IsEmpty()")], ["GetKeys", "GetValues", "GetKeysValues", "GetMap", "Length", "IsEmpty"])

prop("C18", "Type queries classify every value correctly",
 "For any well-formed document and resolving path, GetType names the JSON type of the addressed value (array, object, string, boolean, null or number) whatever its text looks like, and exactly one of IsObject, IsArray and IsValue is true, namely the one matching that type.",
 ["inputs"], "for " + DOC + ", every resolving path including the root",
 "No existing test calls the type queries.",
 ["inter_type.go"], [("first byte dispatch", "inter_type.go: GetType(), typeControlCore()")], ["GetType", "IsObject", "IsArray", "IsValue"])

prop("C19", "Walk visits every leaf once, in order, with its path and value",
 "For any well-formed document, Walk calls back exactly once for each scalar in the document, in document order, with its key or index, its value and a path that resolves to it; empty containers contribute no calls and do not end the walk, though an empty root object may be reported as Empty. When the callback returns false or an error no further callbacks are made, and the error is returned.",
 ["inputs", "histories"], "for " + DOC + " and every stopping position and callback outcome; free function and JO method",
 "No existing test calls Walk.",
 ["walk.go", "inter_iter.go", "inter_type.go"], [("recursion over iteration", "walk.go: walk()")], ["Walk", "JO.Walk"])

prop("C20", "A parsed document answers every read like the document itself",
 "For any well-formed document, Parse succeeds, and for every path the Parser's Get and GetString give what the interpreter's Get gives on the same text: the same value when the path resolves and an error when it does not. GetNew rebuilds for every resolving path a text structurally equal to the addressed value, and Parser.JSON returns the document.",
 ["inputs"], "for " + DOC + ", every resolving or non-resolving path",
 T8 + "they contain no array holding a single scalar and few empty containers; missing paths are not tried.",
 ["parse_core.go", "parse_utils.go", "parse_get.go", "sequence.go"], [PARSE, ("brace and index stacks", "sequence.go"), ("tree lookup", "parse_utils.go: walk()"), ("rebuild", "parse_utils.go: dive()")], ["Parse", "Parser.Get", "Parser.GetString", "Parser.GetNew", "Parser.JSON"])

prop("C21", "A Parser stays consistent with its document through any history of edits",
 "After any sequence of Parser edits (Set, SetKey, AddKeyValue, Add, Insert, Delete and their typed variants) the Parser's document text is well-formed and structurally equal to a reference tree given the same edits, and every Parser read at every path agrees with that text. Edits impossible on the reference tree fail and change nothing.",
 ["histories", "inputs"], "for every starting document and every finite sequence of Parser edits",
 "Each existing Parser test performs at most two edits on a fresh Parser and reads one path.",
 ["parse_add.go", "parse_set.go", "parse_delete.go", "parse_utils.go", "parse_get.go"], [("paired update of text and tree", "parse_add.go, parse_set.go, parse_delete.go")], ["Parser edit methods", "Parser.Get", "Parser.GetNew", "Parser.JSON"],
 [("Parser tree and text", "two views that must agree", "parse_utils.go: Parser.core / Parser.json")])

prop("C22", "Tree renderings list every node once, in order, at its depth",
 "For any parsed document, before and after edits, Tree prints one line per object member and array element at any depth, in document order, indented by depth and labelled with its key or index; TreeFull prints the same lines with each node's raw value.",
 ["inputs", "histories"], "for " + DOC + " and every edit history of a Parser",
 "Two examples print one fixed three-key document.",
 ["parse_utils.go", "parse_core.go"], [("preorder printing", "parse_utils.go: createTree()"), PARSE], ["Parser.Tree", "Parser.TreeFull"])

prop("C23", "JSON object methods behave exactly like the free functions on its text",
 "For any sequence of method calls on a JSON object (JO), each read returns what the free function of the same name returns on the object's current text, and each edit leaves the object holding what the free function returns and gives the same error outcome. An object built with New, NewJSON, ReadFile or ReadJSONFile holds the given text, the empty object, or the file's content.",
 ["histories", "inputs"], "for every starting text and every sequence of JO method calls with any arguments",
 "No existing test uses JO.",
 ["jin_object.go", "jin_object_add.go", "jin_object_get.go", "jin_object_set.go", "jin_object_others.go", "walk.go"], [("delegation", "jin_object_*.go")], ["JO methods"],
 [("JO body", "current text", "jin_object.go: JO.body")])

prop("C24", "Flatten removes exactly the insignificant whitespace",
 "For any well-formed document, Flatten returns the document with all whitespace outside strings removed and every other byte kept in order. It is idempotent, and every path reads the same before and after, up to insignificant whitespace inside containers.",
 ["inputs"], "for " + DOC,
 "One example, plus its use as a helper on seven fixed documents.",
 ["others.go"], [("in-string tracking", "others.go: Flatten()")], ["Flatten"])

prop("C25", "Indent changes only insignificant whitespace",
 "For any well-formed document, Indent returns a well-formed document that flattens to the same text as the original, puts each member and element and the closing bracket of each non-empty container on its own line indented by one tab per nesting level, and depends only on the flattened form; indenting twice gives the same as once.",
 ["inputs"], "for " + DOC,
 "One example on a fixed document with no escapes in its strings.",
 ["others.go", "utils.go"], [("in-string tracking and tab emission", "others.go: Indent(); utils.go: createTabs()")], ["Indent"])

prop("C26", "Builders produce well-formed JSON that reads back as the arguments",
 "MakeArray, MakeArrayString, MakeArrayInt, MakeArrayBool, MakeArrayFloat, MakeArrayBytes, MakeJson, MakeJsonString and MakeJsonWithMap return, for any arguments of their documented types including empty lists (strings: valid JSON string contents; finite floats), a well-formed array or object with one entry per argument in the given order (any order for maps), each entry reading back as the argument's value. MakeJson and MakeJsonString give nil when the numbers of keys and values differ.",
 ["inputs"], "for all argument lists of the documented types: any length including zero, any strings, any integers and finite floats",
 "Two examples with short fixed lists.",
 ["make.go", "utils.go"], [("entry formatting", "make.go; utils.go: formatType()"), ("number formatting", "make.go: MakeArrayFloat()")], ["Make* functions"])

prop("C27", "A Scheme's key list follows its Add/Remove/Save/Restore history",
 "For any sequence of Add, Remove, Save and Restore on a Scheme, the current and original keys are those of a reference model: Add appends an absent key and reports whether it did, Remove deletes a present key and reports whether it did, Save makes the current keys the original ones and Restore the reverse. MakeJson and MakeJsonString instantiate exactly the current keys in order, and two Schemes never influence each other.",
 ["histories"], "for every initial key list and every finite operation sequence on one or several Schemes",
 "One example with one fixed sequence.",
 ["make.go"], [("key list updates", "make.go: Scheme.Add/Remove/Save/Restore")], ["Scheme methods"],
 [("keys / originalKeys", "current and saved key lists", "make.go: Scheme")])

prop("C28", "Scheme checks and mutations match the document's keys",
 "For any well-formed object document and Scheme with distinct keys, Check is true exactly when the document has every scheme key and CheckAbs exactly when its keys are the scheme's keys and no others. MutateJson and MutateJsonAbs return a well-formed object with exactly the scheme's keys in scheme order, each reading as in the source document; for a key the document lacks, MutateJson stores an empty string and MutateJsonAbs fails.",
 ["inputs"], "for every object document and every list of distinct non-empty keys",
 "No existing test calls Check, CheckAbs, MutateJson or MutateJsonAbs.",
 ["make.go", "inter_get.go", "inter_add.go"], [("key checks", "make.go: Check/CheckAbs"), ("projection", "make.go: MutateJson/MutateJsonAbs")], ["Scheme.Check", "Scheme.CheckAbs", "Scheme.MutateJson", "Scheme.MutateJsonAbs"])

prop("C29", "No input makes any function panic or hang",
 "Every exported function, given any byte string as document (truncated, corrupted, empty, binary or not JSON at all), any path and any key, value or index, returns normally: with a result or an error, but without panicking and in time and memory bounded by its input. The same holds for Parser and JSON object methods after any earlier calls.",
 ["inputs", "histories"], "for every byte string as document or value and every path, key and index",
 "No existing test passes a malformed document.",
 ["inter_core.go", "inter_get.go", "inter_iter.go", "inter_type.go", "inter_add.go", "inter_set.go", "inter_delete.go", "others.go", "parse_core.go", "parse_utils.go", "parse_set.go", "parse_add.go", "make.go", "walk.go", "utils.go", "sequence.go"],
 [("bad-JSON detection", "errBadJSON returns throughout inter_*.go, utils.go"), ("bounds checks on scans", "space-skipping loops")], ["all exported functions"])

prop("C30", "A malformed document is never silently half-edited outside the target",
 "For any byte string as document and any arguments, an edit that reports success returns the old text changed in one place only: some prefix and some suffix of the original around the new value, key or removed span, with the new value present verbatim. An edit that fails returns the original text.",
 ["inputs"], "for every byte string as document (valid, truncated, corrupted or random), every path, key, index and value, and every edit function",
 "No existing test passes a malformed document or compares the untouched bytes.",
 ["inter_set.go", "inter_add.go", "inter_delete.go", "utils.go"], [("single splice", "utils.go: replace()")], ["Set", "SetKey", "AddKeyValue", "Add", "Insert", "Delete", "Store"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
