"""What each property's check verifies: functions under contract (F = base and every behaviour, F/base, F/beh), lemmas, level, notes."""
import os, re
_V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts")
def funcs(f):
    out = []
    for l in open(os.path.join(_V, f)):
        m = re.match(r"func ([A-Za-z0-9_.]+)", l)
        if m: out.append(m.group(1))
    return out
PLAN = {}
T = "contract-based deductive verification (govc: verification conditions from Go SSA, z3/cvc5)"
BOUNDED = "bounded search over random well-formed documents against an independent oracle stands in for the part not under contract"
def c(id, fns=(), lemmas=(), level="exploration", note="", **k):
    PLAN[id] = dict(functions=list(fns), lemmas=list(lemmas), level=level, note=note or BOUNDED, technique=T, **k)
UTIL, ERR, MAKE, SCH = funcs("00_util.spec"), funcs("05_errors.spec"), funcs("20_make.spec"), funcs("30_scheme.spec")
CORE, EDIT, READ, TYPED, JO = funcs("50_core.spec"), funcs("51_edit.spec"), funcs("52_read.spec"), funcs("60_typed.spec"), funcs("61_jo.spec")
base = lambda l: [f + "/base" for f in l]
TSET = [f for f in TYPED if not f.startswith("Get")]
TGET = [f for f in TYPED if f.startswith("Get")]
for i in range(1, 24): c("C%02d" % i)
def lems(*files):
    out = []
    for f in files:
        for l in open(os.path.join(_V, f)):
            m = re.match(r"lemma ([A-Za-z0-9_.]+)", l)
            if m: out.append(m.group(1))
    return out
GRAMMAR = lems("40_json.spec", "41_addr.spec")
ELEMS = lems("51_edit.spec")
BASEJ = UTIL + ["errIndexExpected", "errIndexOutOfRange", "errKeyNotFound", "errBadJSON", "errEmptyArray", "ErrEqual", "core", "isBlank"]
WF = ("the search is proved to return the addressed value of every well-formed document (pushdown automaton st/dp/op, address R), "
      "for every path, with no bound; ")
READBACK = ("the result of an edit of a well-formed document with a well-formed value (key) is proved well formed (behaviour well, over the automaton's run on the "
            "spliced text); that it reads back at its path and that every other path keeps its value is what the exact-splice postcondition says of the bytes, and is searched")
c("C01", BASEJ + ["Get", "GetString"], GRAMMAR, level="proof", note=WF + "Get and GetString return its text without the quotes of a string")
c("C03", BASEJ + ["errNullPath", "Set"], GRAMMAR, level="proof", note=WF + "Set replaces exactly its span; " + READBACK)
c("C04", BASEJ + ["errNullPath", "errObjectExpected", "errKeyAlreadyExist", "AddKeyValue", "Store"], GRAMMAR + ELEMS, level="proof",
  note=WF + "Store replaces exactly the member's span, or adds what AddKeyValue adds; " + READBACK)
c("C05", BASEJ + ["errNullPath", "errObjectExpected", "errKeyAlreadyExist", "AddKeyValue"], GRAMMAR + ELEMS, level="proof",
  note=WF + "AddKeyValue's text goes right before the closing brace of the addressed object, with a comma iff it is not blank; " + READBACK)
c("C06", BASEJ + ["errNullPath", "errArrayExpected", "Add", "Insert"], GRAMMAR + ELEMS, level="proof",
  note=WF + "Add's text goes right before the closing bracket of the addressed array, Insert's right before the addressed element; " + READBACK)
c("C07", BASEJ + ["errNullPath", "Delete"], GRAMMAR + ELEMS, level="proof",
  note=WF + "Delete removes the member or element and exactly one neighbouring comma; " + READBACK)
c("C08", BASEJ + ["errNullPath", "errNullKey", "errKeyAlreadyExist", "SetKey"], GRAMMAR + ELEMS, level="proof",
  note=WF + "SetKey replaces exactly the text of the addressed member's key; " + READBACK)
c("C02", UTIL + base(CORE) + base(EDIT) + base(READ) + ["GetMap/base", "GetAllMap/base", "walk/base", "Flatten", "Indent"] + base(TYPED), level="proof",
  note="index, slice and termination obligations of the search, every editor, reader, iterator and typed variant discharged for arbitrary bytes and paths; "
       "SetKey's precondition (a key was seen) is only searched, not proved, on malformed documents; walk's recursion is proved to end on well-formed documents only",
  bounded=["SetKey precondition 'keyed' on malformed documents", "that Walk ends on malformed documents"])
c("C09", UTIL + base(CORE) + base(EDIT) + base(TSET), level="proof",
  note="'an error returns the input document', 'a success returns a fresh slice' and 'no caller memory is written' are postconditions and frame obligations of every editor and typed variant")
c("C10", BASEJ + ["space", "errArrayExpected", "cleanValue", "IterateArray"], GRAMMAR + ELEMS + lems("42_list.spec"), level="proof",
  note=WF + "IterateArray's k-th call gets the k-th of the addressed array's element texts (sequence valsof), all of them are visited unless the callback stops, "
       "and its error is returned; the callback is assumed not to write the document", trusted=["the callback does not write the document"])
c("C11", BASEJ + ["space", "errEmpty", "errObjectExpected", "IterateKeyValue"], GRAMMAR + ELEMS + lems("42_list.spec"), level="proof",
  note=WF + "IterateKeyValue's k-th call gets the k-th key and value text of the addressed object (sequences keysof/valsof), all of them are visited unless the "
       "callback stops, and its error is returned; the callback is assumed not to write the document", trusted=["the callback does not write the document"])
c("C12", BASEJ + ["errEmpty", "errObjectExpected", "getStartEnd", "cleanValueString", "IsEmpty", "Length", "GetKeys", "GetValues", "GetKeysValues"],
  GRAMMAR + ELEMS + lems("42_list.spec"), level="proof",
  note=WF + "GetKeys, GetValues and GetKeysValues return the key and value sequences keysof/valsof of the addressed object, Length its commas plus one "
       "(0 if blank) and IsEmpty whether it is blank, for every path with no bound")
c("C13", BASEJ + ["errEmpty", "stripQuotes", "isBool", "countDigits", "isNumber", "cleanValueString", "getStartEnd", "typeControlCore", "IsObject", "IsArray", "IsValue", "Get", "GetString", "GetType"],
  GRAMMAR + ELEMS + ["toktrim"], level="proof",
  note=WF + "IsObject, IsArray, IsValue and GetType are postconditions over the byte at that address (and, for literals and numbers, the value's text)")
c("C14", ["space", "createTabs", "Flatten", "Indent"], lems("70_format.spec"), level="proof",
  note="Flatten equals the input without the white space outside strings (quote/backslash automaton md) and Indent equals the input's flattening with "
       "white space inserted outside strings, for arbitrary bytes; idempotence and Flatten(Indent(x)) == Flatten(x) are lemmas over these definitions")
c("C15", ["Set/base", "Store/base", "AddKeyValue/base", "Add/base", "Insert/base", "Get/base", "GetString/base"] + base(TYPED), level="proof",
  note="each typed variant equals the untyped call on the strconv text of its argument, each getter equals the strconv parse of the looked-up text; "
       "that strconv round-trips is assumed (and searched)", trusted=["strconv formatting and parsing"])
c("C16", BASEJ + ["errStringArrayParse", "errIntegerArrayParse", "errFloatArrayParse", "errBoolArrayParse", "errIntegerParse", "errFloatParse", "errBoolParse",
  "cleanValueString", "GetString", "ParseArray", "GetStringArray", "GetIntArray", "GetFloatArray", "GetBoolArray"],
  GRAMMAR + ELEMS + lems("42_list.spec", "43_sub.spec"), level="proof",
  note=WF + "ParseArray and GetStringArray return the sequence valsof of the array's element texts, the typed getters the strconv conversion of each of them, "
       "or that conversion's error code, for every path with no bound; strconv itself is assumed", trusted=["strconv parsing"])
c("C17", MAKE + ["Scheme.MakeJson", "Scheme.MakeJsonString"], level="proof",
  note="builders equal the joined texts of their items; strconv/fmt formatting of numbers is assumed")
c("C18", SCH, ["hasmono"], level="proof", note="every Scheme method's contract over the two key lists, with ownership of the slices")
c("C19", ERR + UTIL + ["core", "isBlank", "Set/base", "SetKey/base", "Store/base", "AddKeyValue/base", "Add/base", "Insert/base", "Delete/base", "GetInt/base", "GetFloat/base", "GetBool/base"], GRAMMAR, level="proof",
  note="the code of every error constructor and ErrEqual are proved for all texts; codes of the editors and typed getters are postconditions; "
       "the code that the search reports is a postcondition on well-formed documents")
c("C20", JO + ["Walk/base"], level="proof", note="every JO method equals (or returns exactly what is returned by the one call of) the interpreter function on the body")
c("C23", BASEJ + ["errEmpty", "errEmptyArray", "getStartEnd", "cleanValue", "Get", "Get/list", "GetString", "GetString/list", "GetType", "IterateArray", "IterateKeyValue", "GetAll", "GetAllMap", "GetMap", "walk", "Walk", "JO.Walk", "JO.GetMap", "JO.GetAll", "JO.GetAllMap"],
  GRAMMAR + ELEMS + lems("42_list.spec", "44_link.spec", "53_map.spec", "54_text.spec") + ["toktrim", "gotmax", "gotstop"], level="proof",
  note=WF + "walk's n-th call gets a path that addresses the n-th leaf (sequence lseq of the document's leaves), the text that Get returns for that path and its last element, and all "
       "leaves are visited unless an error stops it; GetAll and GetAllMap hold the single lookups' results, GetMap the listed keys and values, and GetString/list is the proof that "
       "a listed value's text is what looking it up returns", trusted=["the callback does not write the document or the path"])
PARSER = [f for f in funcs("62_parser.spec") if f not in ("pCore", "node.walk")]
c("C22", PARSER, level="proof",
  note="every edit of a Parser hands its own text to the interpreter's edit of the same name, keeps the result as text and a tree built from exactly that text (relation intree), "
       "or leaves both as they were on an error; JSON is that text; Get answers by that tree alone, so it answers as a Parser freshly built on JSON() would",
  trusted=["pCore builds, and node.walk reads, a tree that is determined by the text (searched)"],
  bounded=["that pCore and node.walk are functions of the text"])
