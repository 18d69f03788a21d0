// ---- typed variants: the untyped function on the text of the value (written by tools/gentyped.py) ----

func SetString(json, value, path) (r, err)
  pure
  ensures same: r == fn(Set, 0, json, fmtt(value), path) && err == fn(Set, 1, json, fmtt(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func SetInt(json, value, path) (r, err)
  pure
  ensures same: r == fn(Set, 0, json, itoa(value), path) && err == fn(Set, 1, json, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func SetFloat(json, value, path) (r, err)
  pure
  ensures same: r == fn(Set, 0, json, fmtflt(value), path) && err == fn(Set, 1, json, fmtflt(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func SetBool(json, value, path) (r, err)
  pure
  ensures same: r == fn(Set, 0, json, ite(value, "true", "false"), path) && err == fn(Set, 1, json, ite(value, "true", "false"), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func StoreString(json, key, value, path) (r, err)
  pure
  ensures same: r == fn(Store, 0, json, key, fmtt(value), path) && err == fn(Store, 1, json, key, fmtt(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func StoreInt(json, key, value, path) (r, err)
  pure
  ensures same: r == fn(Store, 0, json, key, itoa(value), path) && err == fn(Store, 1, json, key, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func StoreFloat(json, key, value, path) (r, err)
  pure
  ensures same: r == fn(Store, 0, json, key, fmtflt(value), path) && err == fn(Store, 1, json, key, fmtflt(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func StoreBool(json, key, value, path) (r, err)
  pure
  ensures same: r == fn(Store, 0, json, key, ite(value, "true", "false"), path) && err == fn(Store, 1, json, key, ite(value, "true", "false"), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func AddKeyValueString(json, key, value, path) (r, err)
  pure
  ensures rejected: len(key) == 0 ==> code(err) == 19 && r == json
  ensures same: !(len(key) == 0) ==> r == fn(AddKeyValue, 0, json, key, fmtt(value), path) && err == fn(AddKeyValue, 1, json, key, fmtt(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func AddKeyValueInt(json, key, value, path) (r, err)
  pure
  ensures rejected: len(key) == 0 ==> code(err) == 19 && r == json
  ensures same: !(len(key) == 0) ==> r == fn(AddKeyValue, 0, json, key, itoa(value), path) && err == fn(AddKeyValue, 1, json, key, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func AddKeyValueInt32(json, key, value, path) (r, err)
  pure
  ensures rejected: len(key) == 0 ==> code(err) == 19 && r == json
  ensures same: !(len(key) == 0) ==> r == fn(AddKeyValue, 0, json, key, itoa(value), path) && err == fn(AddKeyValue, 1, json, key, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func AddKeyValueInt64(json, key, value, path) (r, err)
  pure
  ensures rejected: len(key) == 0 ==> code(err) == 19 && r == json
  ensures same: !(len(key) == 0) ==> r == fn(AddKeyValue, 0, json, key, itoa(value), path) && err == fn(AddKeyValue, 1, json, key, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func AddKeyValueUint(json, key, value, path) (r, err)
  pure
  ensures rejected: len(key) == 0 ==> code(err) == 19 && r == json
  ensures same: !(len(key) == 0) ==> r == fn(AddKeyValue, 0, json, key, itoa(value), path) && err == fn(AddKeyValue, 1, json, key, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func AddKeyValueUint32(json, key, value, path) (r, err)
  pure
  ensures rejected: len(key) == 0 ==> code(err) == 19 && r == json
  ensures same: !(len(key) == 0) ==> r == fn(AddKeyValue, 0, json, key, itoa(value), path) && err == fn(AddKeyValue, 1, json, key, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func AddKeyValueUint64(json, key, value, path) (r, err)
  pure
  ensures rejected: len(key) == 0 ==> code(err) == 19 && r == json
  ensures same: !(len(key) == 0) ==> r == fn(AddKeyValue, 0, json, key, itoa(value), path) && err == fn(AddKeyValue, 1, json, key, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func AddKeyValueFloat(json, key, value, path) (r, err)
  pure
  ensures rejected: len(key) == 0 ==> code(err) == 19 && r == json
  ensures same: !(len(key) == 0) ==> r == fn(AddKeyValue, 0, json, key, fmtflt(value), path) && err == fn(AddKeyValue, 1, json, key, fmtflt(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func AddKeyValueBool(json, key, value, path) (r, err)
  pure
  ensures rejected: len(key) == 0 ==> code(err) == 19 && r == json
  ensures same: !(len(key) == 0) ==> r == fn(AddKeyValue, 0, json, key, ite(value, "true", "false"), path) && err == fn(AddKeyValue, 1, json, key, ite(value, "true", "false"), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func AddString(json, value, path) (r, err)
  pure
  ensures same: r == fn(Add, 0, json, fmtt(value), path) && err == fn(Add, 1, json, fmtt(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func AddInt(json, value, path) (r, err)
  pure
  ensures same: r == fn(Add, 0, json, itoa(value), path) && err == fn(Add, 1, json, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func AddInt32(json, value, path) (r, err)
  pure
  ensures same: r == fn(Add, 0, json, itoa(value), path) && err == fn(Add, 1, json, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func AddInt64(json, value, path) (r, err)
  pure
  ensures same: r == fn(Add, 0, json, itoa(value), path) && err == fn(Add, 1, json, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func AddUint(json, value, path) (r, err)
  pure
  ensures same: r == fn(Add, 0, json, itoa(value), path) && err == fn(Add, 1, json, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func AddUint32(json, value, path) (r, err)
  pure
  ensures same: r == fn(Add, 0, json, itoa(value), path) && err == fn(Add, 1, json, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func AddUint64(json, value, path) (r, err)
  pure
  ensures same: r == fn(Add, 0, json, itoa(value), path) && err == fn(Add, 1, json, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func AddFloat(json, value, path) (r, err)
  pure
  ensures same: r == fn(Add, 0, json, fmtflt(value), path) && err == fn(Add, 1, json, fmtflt(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func AddBool(json, value, path) (r, err)
  pure
  ensures same: r == fn(Add, 0, json, ite(value, "true", "false"), path) && err == fn(Add, 1, json, ite(value, "true", "false"), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func InsertString(json, index, value, path) (r, err)
  pure
  ensures rejected: index < 0 ==> code(err) == 7 && r == json
  ensures same: !(index < 0) ==> r == fn(Insert, 0, json, index, fmtt(value), path) && err == fn(Insert, 1, json, index, fmtt(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func InsertInt(json, index, value, path) (r, err)
  pure
  ensures rejected: index < 0 ==> code(err) == 7 && r == json
  ensures same: !(index < 0) ==> r == fn(Insert, 0, json, index, itoa(value), path) && err == fn(Insert, 1, json, index, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func InsertInt32(json, index, value, path) (r, err)
  pure
  ensures rejected: index < 0 ==> code(err) == 7 && r == json
  ensures same: !(index < 0) ==> r == fn(Insert, 0, json, index, itoa(value), path) && err == fn(Insert, 1, json, index, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func InsertInt64(json, index, value, path) (r, err)
  pure
  ensures rejected: index < 0 ==> code(err) == 7 && r == json
  ensures same: !(index < 0) ==> r == fn(Insert, 0, json, index, itoa(value), path) && err == fn(Insert, 1, json, index, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func InsertUint(json, index, value, path) (r, err)
  pure
  ensures rejected: index < 0 ==> code(err) == 7 && r == json
  ensures same: !(index < 0) ==> r == fn(Insert, 0, json, index, itoa(value), path) && err == fn(Insert, 1, json, index, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func InsertUint32(json, index, value, path) (r, err)
  pure
  ensures rejected: index < 0 ==> code(err) == 7 && r == json
  ensures same: !(index < 0) ==> r == fn(Insert, 0, json, index, itoa(value), path) && err == fn(Insert, 1, json, index, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func InsertUint64(json, index, value, path) (r, err)
  pure
  ensures rejected: index < 0 ==> code(err) == 7 && r == json
  ensures same: !(index < 0) ==> r == fn(Insert, 0, json, index, itoa(value), path) && err == fn(Insert, 1, json, index, itoa(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func InsertFloat(json, index, value, path) (r, err)
  pure
  ensures rejected: index < 0 ==> code(err) == 7 && r == json
  ensures same: !(index < 0) ==> r == fn(Insert, 0, json, index, fmtflt(value), path) && err == fn(Insert, 1, json, index, fmtflt(value), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func InsertBool(json, index, value, path) (r, err)
  pure
  ensures rejected: index < 0 ==> code(err) == 7 && r == json
  ensures same: !(index < 0) ==> r == fn(Insert, 0, json, index, ite(value, "true", "false"), path) && err == fn(Insert, 1, json, index, ite(value, "true", "false"), path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)

func GetInt(json, path) (r, err)
  pure
  ensures missing: fn(GetString, 1, json, path) != nil ==> err == fn(GetString, 1, json, path)
  ensures bad: fn(GetString, 1, json, path) == nil && !atoiok(fn(GetString, 0, json, path)) ==> code(err) == 12
  ensures value: fn(GetString, 1, json, path) == nil && atoiok(fn(GetString, 0, json, path)) ==> err == nil && r == atoi(fn(GetString, 0, json, path))

func GetFloat(json, path) (r, err)
  pure
  ensures missing: fn(GetString, 1, json, path) != nil ==> err == fn(GetString, 1, json, path)
  ensures bad: fn(GetString, 1, json, path) == nil && !pfltok(fn(GetString, 0, json, path)) ==> code(err) == 13
  ensures value: fn(GetString, 1, json, path) == nil && pfltok(fn(GetString, 0, json, path)) ==> err == nil && r == pflt(fn(GetString, 0, json, path))

func GetBool(json, path) (r, err)
  pure
  ensures missing: fn(GetString, 1, json, path) != nil ==> err == fn(GetString, 1, json, path)
  ensures bad: fn(GetString, 1, json, path) == nil && fn(GetString, 0, json, path) != "true" && fn(GetString, 0, json, path) != "false" ==> code(err) == 14
  ensures yes: fn(GetString, 1, json, path) == nil && fn(GetString, 0, json, path) == "true" ==> err == nil && r
  ensures no: fn(GetString, 1, json, path) == nil && fn(GetString, 0, json, path) == "false" ==> err == nil && !r
