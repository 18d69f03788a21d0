// ---- jin_object*.go: JO methods are the interpreter functions on the document (written by tools/gentyped.py) ----

func NewJSON() (j)
  ensures isnew(j) && j.body == "{}" && !isnil(j.body)

func New(buffer) (j)
  ensures isnew(j) && j.body == buffer && (isnil(j.body) <==> isnil(buffer))

func JO.JSON(j) (r)
  requires j != nil
  ensures r == j.body && (isnil(r) <==> isnil(j.body))

func JO.String(j) (r)
  requires j != nil
  ensures r == j.body

func JO.Get(j, path) (r0, r1)
  requires j != nil
  ensures r0 == fn(Get, 0, j.body, path)
  ensures r1 == fn(Get, 1, j.body, path)

func JO.GetString(j, path) (r0, r1)
  requires j != nil
  ensures r0 == fn(GetString, 0, j.body, path)
  ensures r1 == fn(GetString, 1, j.body, path)

func JO.GetStringArray(j, path) (r0, r1)
  requires j != nil
  ensures r0 == fn(GetStringArray, 0, j.body, path)
  ensures r1 == fn(GetStringArray, 1, j.body, path)

func JO.GetType(j, path) (r0, r1)
  requires j != nil
  ensures r0 == fn(GetType, 0, j.body, path)
  ensures r1 == fn(GetType, 1, j.body, path)

func JO.GetBool(j, path) (r0, r1)
  requires j != nil
  ensures r0 == fn(GetBool, 0, j.body, path)
  ensures r1 == fn(GetBool, 1, j.body, path)

func JO.GetBoolArray(j, path) (r0, r1)
  requires j != nil
  ensures r0 == fn(GetBoolArray, 0, j.body, path)
  ensures r1 == fn(GetBoolArray, 1, j.body, path)

func JO.GetFloat(j, path) (r0, r1)
  requires j != nil
  ensures r0 == fn(GetFloat, 0, j.body, path)
  ensures r1 == fn(GetFloat, 1, j.body, path)

func JO.GetFloatArray(j, path) (r0, r1)
  requires j != nil
  ensures r0 == fn(GetFloatArray, 0, j.body, path)
  ensures r1 == fn(GetFloatArray, 1, j.body, path)

func JO.GetInt(j, path) (r0, r1)
  requires j != nil
  ensures r0 == fn(GetInt, 0, j.body, path)
  ensures r1 == fn(GetInt, 1, j.body, path)

func JO.GetIntArray(j, path) (r0, r1)
  requires j != nil
  ensures r0 == fn(GetIntArray, 0, j.body, path)
  ensures r1 == fn(GetIntArray, 1, j.body, path)

func JO.GetKeys(j, path) (r0, r1)
  requires j != nil
  ensures r0 == fn(GetKeys, 0, j.body, path)
  ensures r1 == fn(GetKeys, 1, j.body, path)

func JO.GetValues(j, path) (r0, r1)
  requires j != nil
  ensures r0 == fn(GetValues, 0, j.body, path)
  ensures r1 == fn(GetValues, 1, j.body, path)

func JO.IsObject(j, path) (r0, r1)
  requires j != nil
  ensures r0 == fn(IsObject, 0, j.body, path)
  ensures r1 == fn(IsObject, 1, j.body, path)

func JO.IsArray(j, path) (r0, r1)
  requires j != nil
  ensures r0 == fn(IsArray, 0, j.body, path)
  ensures r1 == fn(IsArray, 1, j.body, path)

func JO.IsValue(j, path) (r0, r1)
  requires j != nil
  ensures r0 == fn(IsValue, 0, j.body, path)
  ensures r1 == fn(IsValue, 1, j.body, path)

func JO.IsEmpty(j, path) (r0, r1)
  requires j != nil
  ensures r0 == fn(IsEmpty, 0, j.body, path)
  ensures r1 == fn(IsEmpty, 1, j.body, path)

func JO.GetAll(j, keys, path) (r0, r1)
  requires j != nil
  ensures r0 == fn(GetAll, 0, j.body, keys, path)
  ensures r1 == fn(GetAll, 1, j.body, keys, path)

func JO.GetKeysValues(j, path) (r0, r1, r2)
  requires j != nil
  ensures r0 == fn(GetKeysValues, 0, j.body, path)
  ensures r1 == fn(GetKeysValues, 1, j.body, path)
  ensures r2 == fn(GetKeysValues, 2, j.body, path)

func JO.Set(j, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(Set, 1, old(j.body), value, path) && j.body == fn(Set, 0, old(j.body), value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.Add(j, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(Add, 1, old(j.body), value, path) && j.body == fn(Add, 0, old(j.body), value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.AddKeyValue(j, key, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(AddKeyValue, 1, old(j.body), key, value, path) && j.body == fn(AddKeyValue, 0, old(j.body), key, value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.Insert(j, index, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(Insert, 1, old(j.body), index, value, path) && j.body == fn(Insert, 0, old(j.body), index, value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.SetKey(j, newKey, path) (err)
  requires j != nil
  modifies j.body
  requires wf(j.body) || keyed(j.body, newKey, path)
  ensures err == fn(SetKey, 1, old(j.body), newKey, path) && j.body == fn(SetKey, 0, old(j.body), newKey, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.Delete(j, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(Delete, 1, old(j.body), path) && j.body == fn(Delete, 0, old(j.body), path)
  ensures err != nil ==> j.body == old(j.body)

func JO.Store(j, key, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(Store, 1, old(j.body), key, value, path) && j.body == fn(Store, 0, old(j.body), key, value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.SetString(j, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(SetString, 1, old(j.body), value, path) && j.body == fn(SetString, 0, old(j.body), value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.StoreString(j, key, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(StoreString, 1, old(j.body), key, value, path) && j.body == fn(StoreString, 0, old(j.body), key, value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.AddKeyValueString(j, key, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(AddKeyValueString, 1, old(j.body), key, value, path) && j.body == fn(AddKeyValueString, 0, old(j.body), key, value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.AddString(j, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(AddString, 1, old(j.body), value, path) && j.body == fn(AddString, 0, old(j.body), value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.InsertString(j, index, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(InsertString, 1, old(j.body), index, value, path) && j.body == fn(InsertString, 0, old(j.body), index, value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.SetInt(j, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(SetInt, 1, old(j.body), value, path) && j.body == fn(SetInt, 0, old(j.body), value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.StoreInt(j, key, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(Store, 1, old(j.body), key, itoa(value), path) && j.body == fn(Store, 0, old(j.body), key, itoa(value), path)
  ensures err != nil ==> j.body == old(j.body)

func JO.AddKeyValueInt(j, key, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(AddKeyValueInt, 1, old(j.body), key, value, path) && j.body == fn(AddKeyValueInt, 0, old(j.body), key, value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.AddInt(j, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(AddInt, 1, old(j.body), value, path) && j.body == fn(AddInt, 0, old(j.body), value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.InsertInt(j, index, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(InsertInt, 1, old(j.body), index, value, path) && j.body == fn(InsertInt, 0, old(j.body), index, value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.SetFloat(j, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(SetFloat, 1, old(j.body), value, path) && j.body == fn(SetFloat, 0, old(j.body), value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.StoreFloat(j, key, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(Store, 1, old(j.body), key, fmtflt(value), path) && j.body == fn(Store, 0, old(j.body), key, fmtflt(value), path)
  ensures err != nil ==> j.body == old(j.body)

func JO.AddKeyValueFloat(j, key, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(AddKeyValueFloat, 1, old(j.body), key, value, path) && j.body == fn(AddKeyValueFloat, 0, old(j.body), key, value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.AddFloat(j, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(AddFloat, 1, old(j.body), value, path) && j.body == fn(AddFloat, 0, old(j.body), value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.InsertFloat(j, index, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(InsertFloat, 1, old(j.body), index, value, path) && j.body == fn(InsertFloat, 0, old(j.body), index, value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.SetBool(j, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(SetBool, 1, old(j.body), value, path) && j.body == fn(SetBool, 0, old(j.body), value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.StoreBool(j, key, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(Store, 1, old(j.body), key, ite(value, "true", "false"), path) && j.body == fn(Store, 0, old(j.body), key, ite(value, "true", "false"), path)
  ensures err != nil ==> j.body == old(j.body)

func JO.AddKeyValueBool(j, key, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(AddKeyValueBool, 1, old(j.body), key, value, path) && j.body == fn(AddKeyValueBool, 0, old(j.body), key, value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.AddBool(j, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(AddBool, 1, old(j.body), value, path) && j.body == fn(AddBool, 0, old(j.body), value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.InsertBool(j, index, value, path) (err)
  requires j != nil
  modifies j.body
  ensures err == fn(InsertBool, 1, old(j.body), index, value, path) && j.body == fn(InsertBool, 0, old(j.body), index, value, path)
  ensures err != nil ==> j.body == old(j.body)

func JO.IterateArray(j, callback, path) (err)
  requires j != nil
  delegates IterateArray(j.body, callback, path)

func JO.IterateKeyValue(j, callback, path) (err)
  requires j != nil
  delegates IterateKeyValue(j.body, callback, path)

func JO.GetMap(j, path) (r, err)
  requires j != nil
  delegates GetMap(j.body, path)

func JO.GetAllMap(j, keys, path) (r, err)
  requires j != nil
  delegates GetAllMap(j.body, keys, path)

func Walk(json, callback) (err)
  goeson
  delegates walk(json, nopath(), callback)

func JO.Walk(j, callback) (err)
  requires j != nil
  goeson
  delegates walk(j.body, nopath(), callback)

