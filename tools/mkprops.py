#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one place)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mechanism,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mechanism],observe_at=observe,hook_needed=None)))
DOC="every well-formed JSON document (any nesting, white space, escapes, sizes)"
p("C01","Lookup returns exactly the addressed value",
 "For every well-formed JSON document and every non-empty path, Get and GetString return exactly the bytes of the value the path addresses: strings without their surrounding quotes and with escapes untouched, numbers, literals, arrays and objects verbatim. A path element names an object member by the raw bytes between the key's quotes (the first such member when a key is repeated) or an array element by its zero-based index. If some element of the path addresses nothing, the call returns an error and never a value taken from elsewhere in the document.",
 ["inputs"],DOC+" x every non-empty path",
 "The tests look up only paths that exist in nine fixed files; misses, keys that occur again in deeper or sibling objects, brace and quote bytes inside strings, long backslash runs and odd white space are an unbounded input space.",
 ["inter_core.go","inter_get.go"],[("single left-to-right scan with level, quote and escape tracking","inter_core.go: core"),("span slicing","inter_get.go: Get, GetString")],["jin.Get","jin.GetString"],
 [("offset/level/inQuote","position, nesting level and in-string flag of the scan","inter_core.go: core")])
p("C02","Arbitrary bytes never crash the interpreter",
 "For every byte slice, well formed or not, and every path, each interpreter function that reads or edits a document (Get, Set, Store, SetKey, Add, AddKeyValue, Insert, Delete, the iterators, listings, type tests, array getters, Length, Flatten, Indent, ParseArray) returns normally, with a result or an error. It never panics on an out-of-range index or slice and never loops forever.",
 ["inputs"],"every byte slice x every path x every value/key/index argument",
 "The tests feed only well-formed files; truncated, blank and unbalanced input is unbounded and is exactly where index arithmetic goes wrong.",
 ["inter_core.go","inter_get.go","inter_set.go","inter_add.go","inter_delete.go","inter_iter.go","inter_type.go","others.go","utils.go"],
 [("bounds tests around every scan","all inter_*.go files, utils.go, others.go")],["every exported interpreter function"])
p("C03","Set replaces exactly the addressed value",
 "For every well-formed document and every path that addresses a value, Set returns the document in which exactly that value's text, including the quotes of a string, is replaced by the given bytes. Every byte before and after it is unchanged, so a well-formed new value reads back and every other path keeps its value. If the path is empty or addresses nothing, Set returns an error.",
 ["inputs"],DOC+" x every path x every replacement",
 "The tests check only that the new value reads back; they never compare the rest of the document, and only on nine files.",
 ["inter_set.go","inter_core.go","utils.go"],[("span of the value from the scan, widened to the quotes","inter_set.go: Set"),("prefix+new+suffix splice","utils.go: replace")],["jin.Set","jin.SetString","jin.SetInt","jin.SetBool"])
p("C04","Store overwrites or adds exactly one member",
 "For every well-formed document and every path to an object, Store of a key that the object already has replaces exactly that member's value, and Store of a new key appends exactly one member with that key and value; nothing else changes. Storing again under the same key replaces the value stored before. An array element is overwritten when the last element of the path is a valid index of the addressed array.",
 ["inputs","histories"],DOC+" x every path, key, value; sequences of stores",
 "Store has no test at all.",
 ["inter_set.go","inter_add.go","inter_core.go","utils.go"],[("lookup of path+key, then replace or AddKeyValue","inter_set.go: Store")],["jin.Store","jin.StoreInt","jin.StoreString","jin.StoreBool"])
p("C05","AddKeyValue appends exactly one new member",
 "For every well-formed document and every path to an object that has no member with the given key, AddKeyValue returns the document with exactly one member, of that key and value, added at the end of that object, with a separating comma exactly when the object was not empty and every other byte unchanged. If the object already has the key, or the path addresses nothing or not an object, an error is returned and no member is added; other objects that contain the key do not matter. A nil value is written as null.",
 ["inputs"],DOC+" x every path, key and value",
 "The tests add one fixed key to existing objects of fixed files and read only that key back; empty objects, the same key in sibling or nested objects and white space are never covered.",
 ["inter_add.go","inter_core.go","utils.go"],[("span of the object, emptiness scan, duplicate lookup, splice before the closing brace","inter_add.go: AddKeyValue")],["jin.AddKeyValue"])
p("C06","Add and Insert place exactly one array element",
 "For every well-formed document and every path to an array, Add appends the value as the last element, and Insert with an existing index i makes the value element i and shifts the old elements i and up by one. All other elements and all other bytes of the document are unchanged and the result is well formed whenever the inserted value is. If the path does not address an array, or the index is negative or not an existing index, an error is returned.",
 ["inputs"],DOC+" x every path, index and value",
 "The tests insert only at index 0 and read back one element; other positions, white space around separators, string neighbours and empty arrays are not covered.",
 ["inter_add.go","inter_core.go","utils.go"],[("span of the array / of the element, splice","inter_add.go: Add, Insert")],["jin.Add","jin.Insert"])
p("C07","Delete removes exactly one member or element",
 "For every well-formed document and every path that addresses a member or an element, Delete returns a document without that member or element and without exactly one of the commas that separated it. All other members and elements keep their text and order, so the result is well formed. If the path is empty or addresses nothing, an error is returned.",
 ["inputs"],DOC+" x every path",
 "The tests delete only an element that they have just appended at the end; first, middle and only elements, string values, keys and white space layouts are not covered.",
 ["inter_delete.go","inter_core.go","utils.go"],[("search for the neighbouring structural bytes on both sides","inter_delete.go: Delete")],["jin.Delete"])
p("C08","SetKey renames exactly one key",
 "For every well-formed document, every path that addresses an object member (the first of its name) and every new key, given as raw key text, that the same object does not have, SetKey returns the document with exactly that key's text replaced; the value and every other byte are unchanged. An empty path, an empty new key, a path that addresses nothing or an array element, or a new key that the object already has gives an error.",
 ["inputs"],DOC+" x every path and new key",
 "The tests rename to one fixed key and read back one value; they never compare the rest of the document or try escaped keys, collisions or misses.",
 ["inter_set.go","inter_core.go","utils.go"],[("key position from the scan, search for the closing quote, splice","inter_set.go: SetKey")],["jin.SetKey"])
p("C09","Failed edits change nothing; arguments are never written",
 "When Set, SetKey, Store, Add, AddKeyValue, Insert or Delete, or a typed variant of them, returns an error, the document it returns is the input document, byte for byte. No call of the interpreter ever writes to memory owned by the caller: neither the document slice, nor the value, nor the path slice, not even in spare capacity behind their lengths. A successful edit returns a new slice that shares no memory with the value that was passed in.",
 ["inputs","histories"],"every input, path (including path slices with spare capacity) and value",
 "The tests never look at the returned document on an error and never at the arguments after a call; aliasing through spare capacity shows only for particular slices.",
 ["utils.go","inter_set.go","inter_add.go","inter_delete.go","inter_get.go","walk.go"],[("replace copies into a new slice","utils.go: replace"),("error returns hand back json","inter_set.go, inter_add.go, inter_delete.go")],["jin.Set","jin.SetKey","jin.Store","jin.Add","jin.AddKeyValue","jin.Insert","jin.Delete"])
p("C10","IterateArray visits each element once, in order",
 "For every well-formed document and path to an array, IterateArray calls the callback exactly once per element, in order, with the element's text trimmed of white space and of the quotes of a string, and never for an empty array. If the callback returns false or an error, no further element is visited, and the callback's error is returned. If the path does not address an array an error is returned and the callback is never called.",
 ["inputs","histories"],DOC+" x every path x every callback behaviour",
 "The tests iterate non-empty arrays of nine files with a callback that never stops or fails.",
 ["inter_iter.go","inter_core.go","utils.go"],[("scan with level and quote tracking, element text between separators","inter_iter.go: IterateArray"),("trimming","utils.go: cleanValue")],["jin.IterateArray","jin.JO.IterateArray"])
p("C11","IterateKeyValue visits each member once, in order",
 "For every well-formed document and path to an object, IterateKeyValue calls the callback exactly once per member, in order, with the raw key text and the value's text trimmed of white space and of the quotes of a string, and never for an empty object (for the bare text {} an 'empty' error may be reported instead). If the callback returns false or an error, no further member is visited, and the callback's error is returned, also when it comes from the last member. If the path does not address an object an error is returned and the callback is never called.",
 ["inputs","histories"],DOC+" x every path x every callback behaviour",
 "The tests never stop or fail from the callback and never visit empty objects.",
 ["inter_iter.go","inter_core.go"],[("scan with level, quote and key tracking","inter_iter.go: IterateKeyValue")],["jin.IterateKeyValue","jin.JO.IterateKeyValue"])
p("C12","Key, value and length listings match the document",
 "For every well-formed document and path to an object, GetKeys, GetValues and GetKeysValues list exactly the keys and values of that object, in order and without those of nested objects, keys as raw text and values trimmed of white space and of the quotes of a string (for an object written exactly {} they may instead report that it is empty). Length returns the number of members or elements of the addressed object or array, and IsEmpty is true exactly when that number is zero.",
 ["inputs"],DOC+" x every path",
 "The tests compare listings on flattened files only, and never single-element or blank containers; IsEmpty has no test.",
 ["inter_get.go","others.go","inter_type.go","utils.go"],[("scan with level and quote tracking","inter_get.go: GetKeys, GetValues, GetKeysValues; others.go: Length; inter_type.go: IsEmpty")],["jin.GetKeys","jin.GetValues","jin.GetKeysValues","jin.Length","jin.IsEmpty"])
p("C13","Type tests agree with the addressed value",
 "For every well-formed document and path to a value, IsArray, IsObject and IsValue report whether that value is an array, an object, or neither, and GetType names its JSON type (array, object, string, boolean, null or number). A quoted string is always a string, whatever its content. If the path addresses nothing, an error is returned.",
 ["inputs"],DOC+" x every path",
 "The type functions have no tests at all.",
 ["inter_type.go","inter_core.go"],[("first byte of the addressed value","inter_type.go: typeControlCore, GetType")],["jin.IsArray","jin.IsObject","jin.IsValue","jin.GetType"])
p("C14","Flatten and Indent change white space only",
 "For every input, Flatten removes exactly the space, tab, newline and carriage-return bytes that are outside string literals (a byte right after an active backslash never delimits a string and is kept), and keeps every other byte in order. For every well-formed document, Indent only inserts or removes such white space outside strings, so Flatten(Indent(x)) equals Flatten(x), whatever quotes and backslashes the strings contain; Flatten is idempotent.",
 ["inputs"],"every byte sequence (Flatten) / "+DOC+" (Indent)",
 "One example each; string contents with escapes, quotes and white space are an unbounded space.",
 ["others.go"],[("in-string flag and escape handling while copying","others.go: Flatten, Indent")],["jin.Flatten","jin.Indent"])
p("C15","Typed scalars are written and read exactly",
 "For every int, int32, int64, uint, uint32, uint64 and bool, the typed Set, Store, Add, AddKeyValue and Insert variants write exactly its decimal (or true/false) text, with the effect of the untyped function on that text, and GetInt and GetBool read that value back. Float variants write the shortest plain decimal text that reads back as the same float64. If the addressed text is not of the requested type the typed getter returns an error.",
 ["inputs"],"every value of each type x every document and path",
 "The typed variants have no tests; most integer widths are never called.",
 ["inter_set.go","inter_add.go","inter_get.go","jin_object_add.go","jin_object_set.go"],[("strconv formatting in the wrappers","inter_set.go, inter_add.go: *Int*, *Uint*, *Float, *Bool"),("strconv parsing in the getters","inter_get.go: GetInt, GetFloat, GetBool")],["jin.SetInt","jin.AddInt64","jin.InsertUint32","jin.AddKeyValueInt32","jin.GetInt","jin.GetBool"])
p("C16","Array getters split exactly at element boundaries",
 "For every well-formed JSON array (given to ParseArray without surrounding white space), ParseArray and GetStringArray return exactly one string per element, in order: the element's text without surrounding white space and, for a string, without its quotes. GetIntArray, GetFloatArray and GetBoolArray return the conversion of exactly those texts, or an error if one does not convert. An empty array gives an empty slice.",
 ["inputs"],"every well-formed JSON array (commas, brackets and escapes inside strings, nested containers, white space)",
 "ParseArray is used as a tool by the tests, on generated path lists; the typed array getters have no tests.",
 ["others.go","inter_get.go","utils.go"],[("scan with level and quote tracking, element text between separators","others.go: ParseArray; inter_get.go: GetIntArray, GetFloatArray, GetBoolArray"),("trimming","utils.go: cleanValueString")],["jin.ParseArray","jin.GetStringArray","jin.GetIntArray","jin.GetFloatArray","jin.GetBoolArray"])
p("C17","Builders emit each item exactly once, well formed",
 "For every list of keys and values, MakeJson, MakeJsonString and Scheme.MakeJson emit an object with exactly the given keys, in order, each with the text of its value, and MakeArray, MakeArrayString, MakeArrayInt, MakeArrayBool, MakeArrayFloat and MakeArrayBytes emit an array with exactly the given elements in order. Empty lists give {} and []. A string value is emitted bare exactly if it is true, false, null, a JSON number, or text enclosed in [], {} or quotes, and otherwise in quotes; floats are finite; key and value lists of different length give nil.",
 ["inputs"],"every list of keys and values of any length",
 "One example with one fixed list each; empty lists, single floats and number-like strings are never tried.",
 ["make.go","utils.go"],[("append loop and trailing comma removal","make.go: MakeArray*, MakeJson*"),("formatType","utils.go: formatType")],["jin.MakeArray","jin.MakeArrayInt","jin.MakeArrayFloat","jin.MakeJson","jin.MakeJsonString","jin.Scheme.MakeJson"])
p("C18","A Scheme's key list follows its history",
 "After any sequence of Add, Remove, Save and Restore, a Scheme's current keys are exactly those the history implies: Add appends a key unless it is present and reports which, Remove removes it and reports whether it was present, Save makes the current keys the original ones, Restore brings the original keys back. No operation changes the saved original keys other than Save, and none changes the slice the Scheme was created from.",
 ["histories"],"every sequence of Add, Remove, Save, Restore on every initial key list",
 "One example with a short fixed history; sharing of the backing array between current, saved and caller keys shows only for particular histories.",
 ["make.go"],[("key slices of the Scheme","make.go: Scheme.Add, Remove, Save, Restore")],["jin.Scheme.GetCurrentKeys","jin.Scheme.GetOriginalKeys"],
 [("keys, originalKeys","current and saved key lists","make.go: Scheme")])
p("C19","Errors identify their cause by code",
 "Every error that the package reports carries exactly one of the documented codes: ErrEqual(err, c) is true for exactly that code and false for every other code, for nil and for errors whose text does not end in two decimal digits. Empty paths, empty new keys, missing keys, bad or missing indexes, wrong container types, existing keys and unparsable numbers or booleans are reported with their own code, for every key and value text (index 0 of an empty array counts as missing or as 'empty array').",
 ["inputs"],"every error the package returns x every code",
 "ErrEqual and the codes have no tests.",
 ["errors.go","inter_core.go","inter_set.go","inter_add.go","inter_get.go"],[("code suffix of the message","errors.go: err*, ErrEqual")],["jin.ErrEqual"])
p("C20","A JO behaves as the interpreter on its document",
 "For every document and every argument, each reading method of a JO returns what the interpreter function of the same name returns for the JO's current document. Each editing method leaves the JO with the document that the function returns, and reports the same error; after an error the document is unchanged.",
 ["inputs","histories"],"every document, argument and sequence of method calls",
 "No test calls a JO method.",
 ["jin_object.go","jin_object_add.go","jin_object_get.go","jin_object_others.go","jin_object_set.go","inter_add.go"],[("delegation to the interpreter and assignment of the result","jin_object_*.go")],["jin.JO methods"],
 [("body","the JO's current document","jin_object.go: JO")])
p("C21","A Parser reads what the interpreter reads",
 "For every well-formed document whose top level is an object or array and every path (array indexes in plain decimal, no repeated keys), Parse succeeds and Parser.Get returns the same bytes as the interpreter's Get, or an error exactly when the interpreter does.",
 ["inputs"],DOC+" x every path",
 "The tests look up only paths that exist, in nine files.",
 ["parse_core.go","parse_utils.go","parse_get.go"],[("node tree built in one scan","parse_core.go: pCore"),("walk by label","parse_utils.go: node.walk")],["jin.Parse","jin.Parser.Get"],
 [("node","label, raw value, parent and children","parse_utils.go: node")])
p("C22","Parser edits keep text and tree in step",
 "After any sequence of successful Parser edits (Set, SetKey, Add, AddKeyValue, Insert, Delete) with well-formed values, JSON() is the document that the same sequence of interpreter edits produces, and Get answers every path as a freshly parsed Parser on JSON() would.",
 ["inputs","histories"],DOC+" x every sequence of edits",
 "The tests make a single edit and read back one value.",
 ["parse_set.go","parse_add.go","parse_delete.go","parse_utils.go"],[("node edits next to text edits","parse_set.go, parse_add.go, parse_delete.go")],["jin.Parser.JSON","jin.Parser.Get"],
 [("core, json","node tree and text","parse_utils.go: Parser")])
p("C23","Bulk reads visit every value once with its path",
 "For every well-formed document whose top level is an object or array without repeated keys, Walk calls the callback exactly once for every string, number, boolean and null in document order, with the path that addresses it, its last key and its text, and the paths handed out stay valid after the callback returns true. GetMap, GetAll and GetAllMap return exactly the values that the corresponding single lookups return.",
 ["inputs"],DOC,
 "Walk has no test; GetMap, GetAll and GetAllMap have one example each.",
 ["walk.go","inter_get.go","inter_iter.go"],[("recursion over the iterators","walk.go: walk"),("iteration into a map","inter_get.go: GetMap")],["jin.Walk","jin.GetMap","jin.GetAll","jin.GetAllMap"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
