// The table of edit functions (regular, so kept apart from the logic).

package props

import "github.com/ecoshub/jin"

// edits lists every edit function in its free, JO and Parser forms.
var edits = []*Edit{
	{Name: "Set", Kind: kSet, Val: vRaw,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.Set(d, a.Raw, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.Set(a.Raw, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.Set(a.Raw, a.Path...) },
	},
	{Name: "SetString", Kind: kSet, Val: vStr,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.SetString(d, a.Str, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.SetString(a.Str, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.SetString(a.Str, a.Path...) },
	},
	{Name: "SetInt", Kind: kSet, Val: vInt,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.SetInt(d, a.I, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.SetInt(a.I, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.SetInt(a.I, a.Path...) },
	},
	{Name: "SetFloat", Kind: kSet, Val: vFloat,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.SetFloat(d, a.F, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.SetFloat(a.F, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.SetFloat(a.F, a.Path...) },
	},
	{Name: "SetBool", Kind: kSet, Val: vBool,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.SetBool(d, a.B, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.SetBool(a.B, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.SetBool(a.B, a.Path...) },
	},
	{Name: "AddKeyValue", Kind: kAddKeyValue, Val: vRaw,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.AddKeyValue(d, a.Key, a.Raw, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.AddKeyValue(a.Key, a.Raw, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.AddKeyValue(a.Key, a.Raw, a.Path...) },
	},
	{Name: "AddKeyValueString", Kind: kAddKeyValue, Val: vStr,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.AddKeyValueString(d, a.Key, a.Str, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.AddKeyValueString(a.Key, a.Str, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.AddKeyValueString(a.Key, a.Str, a.Path...) },
	},
	{Name: "AddKeyValueInt", Kind: kAddKeyValue, Val: vInt,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.AddKeyValueInt(d, a.Key, a.I, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.AddKeyValueInt(a.Key, a.I, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.AddKeyValueInt(a.Key, a.I, a.Path...) },
	},
	{Name: "AddKeyValueInt32", Kind: kAddKeyValue, Val: vI32,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.AddKeyValueInt32(d, a.Key, a.I32, a.Path...) },
	},
	{Name: "AddKeyValueInt64", Kind: kAddKeyValue, Val: vI64,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.AddKeyValueInt64(d, a.Key, a.I64, a.Path...) },
	},
	{Name: "AddKeyValueUint", Kind: kAddKeyValue, Val: vU,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.AddKeyValueUint(d, a.Key, a.U, a.Path...) },
	},
	{Name: "AddKeyValueUint32", Kind: kAddKeyValue, Val: vU32,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.AddKeyValueUint32(d, a.Key, a.U32, a.Path...) },
	},
	{Name: "AddKeyValueUint64", Kind: kAddKeyValue, Val: vU64,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.AddKeyValueUint64(d, a.Key, a.U64, a.Path...) },
	},
	{Name: "AddKeyValueFloat", Kind: kAddKeyValue, Val: vFloat,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.AddKeyValueFloat(d, a.Key, a.F, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.AddKeyValueFloat(a.Key, a.F, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.AddKeyValueFloat(a.Key, a.F, a.Path...) },
	},
	{Name: "AddKeyValueBool", Kind: kAddKeyValue, Val: vBool,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.AddKeyValueBool(d, a.Key, a.B, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.AddKeyValueBool(a.Key, a.B, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.AddKeyValueBool(a.Key, a.B, a.Path...) },
	},
	{Name: "Add", Kind: kAdd, Val: vRaw,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.Add(d, a.Raw, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.Add(a.Raw, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.Add(a.Raw, a.Path...) },
	},
	{Name: "AddString", Kind: kAdd, Val: vStr,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.AddString(d, a.Str, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.AddString(a.Str, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.AddString(a.Str, a.Path...) },
	},
	{Name: "AddInt", Kind: kAdd, Val: vInt,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.AddInt(d, a.I, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.AddInt(a.I, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.AddInt(a.I, a.Path...) },
	},
	{Name: "AddInt32", Kind: kAdd, Val: vI32,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.AddInt32(d, a.I32, a.Path...) },
	},
	{Name: "AddInt64", Kind: kAdd, Val: vI64,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.AddInt64(d, a.I64, a.Path...) },
	},
	{Name: "AddUint", Kind: kAdd, Val: vU,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.AddUint(d, a.U, a.Path...) },
	},
	{Name: "AddUint32", Kind: kAdd, Val: vU32,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.AddUint32(d, a.U32, a.Path...) },
	},
	{Name: "AddUint64", Kind: kAdd, Val: vU64,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.AddUint64(d, a.U64, a.Path...) },
	},
	{Name: "AddFloat", Kind: kAdd, Val: vFloat,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.AddFloat(d, a.F, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.AddFloat(a.F, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.AddFloat(a.F, a.Path...) },
	},
	{Name: "AddBool", Kind: kAdd, Val: vBool,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.AddBool(d, a.B, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.AddBool(a.B, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.AddBool(a.B, a.Path...) },
	},
	{Name: "Insert", Kind: kInsert, Val: vRaw,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.Insert(d, a.Index, a.Raw, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.Insert(a.Index, a.Raw, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.Insert(a.Index, a.Raw, a.Path...) },
	},
	{Name: "InsertString", Kind: kInsert, Val: vStr,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.InsertString(d, a.Index, a.Str, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.InsertString(a.Index, a.Str, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.InsertString(a.Index, a.Str, a.Path...) },
	},
	{Name: "InsertInt", Kind: kInsert, Val: vInt,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.InsertInt(d, a.Index, a.I, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.InsertInt(a.Index, a.I, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.InsertInt(a.Index, a.I, a.Path...) },
	},
	{Name: "InsertInt32", Kind: kInsert, Val: vI32,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.InsertInt32(d, a.Index, a.I32, a.Path...) },
	},
	{Name: "InsertInt64", Kind: kInsert, Val: vI64,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.InsertInt64(d, a.Index, a.I64, a.Path...) },
	},
	{Name: "InsertUint", Kind: kInsert, Val: vU,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.InsertUint(d, a.Index, a.U, a.Path...) },
	},
	{Name: "InsertUint32", Kind: kInsert, Val: vU32,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.InsertUint32(d, a.Index, a.U32, a.Path...) },
	},
	{Name: "InsertUint64", Kind: kInsert, Val: vU64,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.InsertUint64(d, a.Index, a.U64, a.Path...) },
	},
	{Name: "InsertFloat", Kind: kInsert, Val: vFloat,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.InsertFloat(d, a.Index, a.F, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.InsertFloat(a.Index, a.F, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.InsertFloat(a.Index, a.F, a.Path...) },
	},
	{Name: "InsertBool", Kind: kInsert, Val: vBool,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.InsertBool(d, a.Index, a.B, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.InsertBool(a.Index, a.B, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.InsertBool(a.Index, a.B, a.Path...) },
	},
	{Name: "Store", Kind: kStore, Val: vRaw,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.Store(d, a.Key, a.Raw, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.Store(a.Key, a.Raw, a.Path...) },
	},
	{Name: "StoreString", Kind: kStore, Val: vStr,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.StoreString(d, a.Key, a.Str, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.StoreString(a.Key, a.Str, a.Path...) },
	},
	{Name: "StoreInt", Kind: kStore, Val: vInt,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.StoreInt(d, a.Key, a.I, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.StoreInt(a.Key, a.I, a.Path...) },
	},
	{Name: "StoreFloat", Kind: kStore, Val: vFloat,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.StoreFloat(d, a.Key, a.F, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.StoreFloat(a.Key, a.F, a.Path...) },
	},
	{Name: "StoreBool", Kind: kStore, Val: vBool,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.StoreBool(d, a.Key, a.B, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.StoreBool(a.Key, a.B, a.Path...) },
	},
	{Name: "SetKey", Kind: kSetKey, Val: vNone,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.SetKey(d, a.Key, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.SetKey(a.Key, a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.SetKey(a.Key, a.Path...) },
	},
	{Name: "Delete", Kind: kDelete, Val: vNone,
		Free: func(d []byte, a *Args) ([]byte, error) { return jin.Delete(d, a.Path...) },
		JO:   func(j *jin.JO, a *Args) error { return j.Delete(a.Path...) },
		P:    func(p *jin.Parser, a *Args) error { return p.Delete(a.Path...) },
	},
}
