// ---- parse_*.go: a Parser's edits are the interpreter's edits, its tree is the tree of its text ----
// intree(n, json): n is the root of the tree that pCore builds for json.  pCore and the descent in that tree are assumed to be
// determined by the text (trusted, searched); nothing else writes a node, so the relation holds as long as the Parser keeps both.
logic intree(n: ref, json: seq): bool
logic tfound(json: seq, path: seqs): bool
logic tvalue(json: seq, path: seqs): seq
logic tcode(json: seq, path: seqs): int

func pCore(json, core) (err)
  trusted
  requires core != nil
  modifies core.down
  ensures err == nil && !isnil(core.down) ==> len(core.down) > 0 && core.down[0] != nil && intree(core.down[0], json)

func node.walk(n, path) (r, err)
  trusted
  requires n != nil
  ensures forall json: seq {intree(n, json)} :: intree(n, json) ==> (err == nil) == tfound(json, path) && (err == nil ==> r != nil && r.value == tvalue(json, path) && !isnil(r.value)) && code(err) == tcode(json, path)

def intact(p) = p != nil && p.core != nil && intree(p.core, p.json)

func Parse(json) (p, err)
  ensures err == nil ==> p != nil && isnew(p) && p.json == json && intact(p)
  ensures err != nil ==> p == nil

func Parser.update(p, json) (err)
  requires p != nil
  modifies p.core, p.json
  ensures err == nil ==> p.json == json && intact(p)
  ensures err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.JSON(p) (r)
  requires p != nil
  ensures r == p.json

func Parser.Get(p, path) (r, err)
  requires intact(p)
  ensures root: len(path) == 0 ==> err == nil && r == p.json
  ensures found: len(path) > 0 ==> (err == nil) == tfound(p.json, path) && (err != nil ==> code(err) == tcode(p.json, path))
  ensures value: len(path) > 0 && err == nil ==> r == fn(cleanValue, 0, tvalue(p.json, path))

func Parser.Set(p, value, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(Set, 1, old(p.json), value, path) == nil && p.json == fn(Set, 0, old(p.json), value, path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.SetKey(p, newKey, path) (err)
  requires intact(p)
  modifies p.core, p.json
  requires keyed(p.json, newKey, path)
  ensures text: err == nil ==> fn(SetKey, 1, old(p.json), newKey, path) == nil && p.json == fn(SetKey, 0, old(p.json), newKey, path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.Delete(p, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(Delete, 1, old(p.json), path) == nil && p.json == fn(Delete, 0, old(p.json), path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.AddKeyValue(p, key, value, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(AddKeyValue, 1, old(p.json), key, value, path) == nil && p.json == fn(AddKeyValue, 0, old(p.json), key, value, path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.Add(p, value, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(Add, 1, old(p.json), value, path) == nil && p.json == fn(Add, 0, old(p.json), value, path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.Insert(p, index, value, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(Insert, 1, old(p.json), index, value, path) == nil && p.json == fn(Insert, 0, old(p.json), index, value, path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.SetInt(p, value, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(Set, 1, old(p.json), itoa(value), path) == nil && p.json == fn(Set, 0, old(p.json), itoa(value), path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.SetFloat(p, value, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(Set, 1, old(p.json), fmtflt(value), path) == nil && p.json == fn(Set, 0, old(p.json), fmtflt(value), path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.SetBool(p, value, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(Set, 1, old(p.json), ite(value, "true", "false"), path) == nil && p.json == fn(Set, 0, old(p.json), ite(value, "true", "false"), path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.AddKeyValueString(p, key, value, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(AddKeyValue, 1, old(p.json), key, fmtt(value), path) == nil && p.json == fn(AddKeyValue, 0, old(p.json), key, fmtt(value), path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.AddKeyValueInt(p, key, value, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(AddKeyValue, 1, old(p.json), key, itoa(value), path) == nil && p.json == fn(AddKeyValue, 0, old(p.json), key, itoa(value), path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.AddKeyValueFloat(p, key, value, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(AddKeyValue, 1, old(p.json), key, fmtflt(value), path) == nil && p.json == fn(AddKeyValue, 0, old(p.json), key, fmtflt(value), path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.AddKeyValueBool(p, key, value, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(AddKeyValue, 1, old(p.json), key, ite(value, "true", "false"), path) == nil && p.json == fn(AddKeyValue, 0, old(p.json), key, ite(value, "true", "false"), path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.AddString(p, value, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(Add, 1, old(p.json), fmtt(value), path) == nil && p.json == fn(Add, 0, old(p.json), fmtt(value), path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.AddInt(p, value, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(Add, 1, old(p.json), itoa(value), path) == nil && p.json == fn(Add, 0, old(p.json), itoa(value), path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.AddFloat(p, value, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(Add, 1, old(p.json), fmtflt(value), path) == nil && p.json == fn(Add, 0, old(p.json), fmtflt(value), path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.AddBool(p, value, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(Add, 1, old(p.json), ite(value, "true", "false"), path) == nil && p.json == fn(Add, 0, old(p.json), ite(value, "true", "false"), path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.InsertString(p, index, value, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(Insert, 1, old(p.json), index, fmtt(value), path) == nil && p.json == fn(Insert, 0, old(p.json), index, fmtt(value), path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.InsertInt(p, index, value, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(Insert, 1, old(p.json), index, itoa(value), path) == nil && p.json == fn(Insert, 0, old(p.json), index, itoa(value), path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.InsertFloat(p, index, value, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(Insert, 1, old(p.json), index, fmtflt(value), path) == nil && p.json == fn(Insert, 0, old(p.json), index, fmtflt(value), path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)

func Parser.InsertBool(p, index, value, path) (err)
  requires intact(p)
  modifies p.core, p.json
  ensures text: err == nil ==> fn(Insert, 1, old(p.json), index, ite(value, "true", "false"), path) == nil && p.json == fn(Insert, 0, old(p.json), index, ite(value, "true", "false"), path)
  ensures tree: intact(p)
  ensures failed: err != nil ==> p.json == old(p.json) && p.core == old(p.core)
