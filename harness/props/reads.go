package props

import (
	"sort"
	"strings"

	"github.com/ecoshub/jin"
)

// Read is a path-taking read function; results are rendered with show.
type Read struct {
	Name string
	Free func([]byte, []string) (string, bool, error) // result, whether it carries no value, error
	JO   func(*jin.JO, []string) (string, error)
	P    func(*jin.Parser, []string) (string, error)
}

func collectArray(it func(func([]byte) (bool, error), ...string) error, p []string) ([]string, error) {
	out := []string{}
	err := it(func(v []byte) (bool, error) {
		out = append(out, string(v))
		return true, nil
	}, p...)
	return out, err
}

func collectKV(it func(func([]byte, []byte) (bool, error), ...string) error, p []string) ([]string, error) {
	out := []string{}
	err := it(func(k, v []byte) (bool, error) {
		out = append(out, string(k), string(v))
		return true, nil
	}, p...)
	return out, err
}

var getKeysArg = []string{"a", "b"}

func mapShow(m map[string]string) string {
	if m == nil {
		return "nil"
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(show(k) + ":" + show(m[k]) + ",")
	}
	return sb.String()
}

var reads = []*Read{
	{"Get",
		func(d []byte, p []string) (string, bool, error) {
			r, e := jin.Get(d, p...)
			return show(r), r == nil, e
		},
		func(j *jin.JO, p []string) (string, error) { r, e := j.Get(p...); return show(r), e },
		func(j *jin.Parser, p []string) (string, error) { r, e := j.Get(p...); return show(r), e }},
	{"GetString",
		func(d []byte, p []string) (string, bool, error) {
			r, e := jin.GetString(d, p...)
			return show(r), r == "", e
		},
		func(j *jin.JO, p []string) (string, error) { r, e := j.GetString(p...); return show(r), e },
		func(j *jin.Parser, p []string) (string, error) { r, e := j.GetString(p...); return show(r), e }},
	{"GetInt",
		func(d []byte, p []string) (string, bool, error) { r, e := jin.GetInt(d, p...); return show(r), true, e },
		func(j *jin.JO, p []string) (string, error) { r, e := j.GetInt(p...); return show(r), e },
		func(j *jin.Parser, p []string) (string, error) { r, e := j.GetInt(p...); return show(r), e }},
	{"GetFloat",
		func(d []byte, p []string) (string, bool, error) {
			r, e := jin.GetFloat(d, p...)
			return show(r), true, e
		},
		func(j *jin.JO, p []string) (string, error) { r, e := j.GetFloat(p...); return show(r), e },
		func(j *jin.Parser, p []string) (string, error) { r, e := j.GetFloat(p...); return show(r), e }},
	{"GetBool",
		func(d []byte, p []string) (string, bool, error) { r, e := jin.GetBool(d, p...); return show(r), !r, e },
		func(j *jin.JO, p []string) (string, error) { r, e := j.GetBool(p...); return show(r), e },
		func(j *jin.Parser, p []string) (string, error) { r, e := j.GetBool(p...); return show(r), e }},
	{"GetStringArray",
		func(d []byte, p []string) (string, bool, error) {
			r, e := jin.GetStringArray(d, p...)
			return own(r), len(r) == 0, e
		},
		func(j *jin.JO, p []string) (string, error) { r, e := j.GetStringArray(p...); return own(r), e },
		func(j *jin.Parser, p []string) (string, error) { r, e := j.GetStringArray(p...); return own(r), e }},
	{"GetIntArray",
		func(d []byte, p []string) (string, bool, error) {
			r, e := jin.GetIntArray(d, p...)
			return own(r), len(r) == 0, e
		},
		func(j *jin.JO, p []string) (string, error) { r, e := j.GetIntArray(p...); return own(r), e },
		func(j *jin.Parser, p []string) (string, error) { r, e := j.GetIntArray(p...); return own(r), e }},
	{"GetFloatArray",
		func(d []byte, p []string) (string, bool, error) {
			r, e := jin.GetFloatArray(d, p...)
			return own(r), len(r) == 0, e
		},
		func(j *jin.JO, p []string) (string, error) { r, e := j.GetFloatArray(p...); return own(r), e },
		func(j *jin.Parser, p []string) (string, error) { r, e := j.GetFloatArray(p...); return own(r), e }},
	{"GetBoolArray",
		func(d []byte, p []string) (string, bool, error) {
			r, e := jin.GetBoolArray(d, p...)
			return own(r), len(r) == 0, e
		},
		func(j *jin.JO, p []string) (string, error) { r, e := j.GetBoolArray(p...); return own(r), e },
		func(j *jin.Parser, p []string) (string, error) { r, e := j.GetBoolArray(p...); return own(r), e }},
	{"GetKeys",
		func(d []byte, p []string) (string, bool, error) {
			r, e := jin.GetKeys(d, p...)
			return own(r), len(r) == 0, e
		},
		func(j *jin.JO, p []string) (string, error) { r, e := j.GetKeys(p...); return own(r), e }, nil},
	{"GetValues",
		func(d []byte, p []string) (string, bool, error) {
			r, e := jin.GetValues(d, p...)
			return own(r), len(r) == 0, e
		},
		func(j *jin.JO, p []string) (string, error) { r, e := j.GetValues(p...); return own(r), e }, nil},
	{"GetKeysValues",
		func(d []byte, p []string) (string, bool, error) {
			k, v, e := jin.GetKeysValues(d, p...)
			return own(k, v), len(k) == 0 && len(v) == 0, e
		},
		func(j *jin.JO, p []string) (string, error) {
			k, v, e := j.GetKeysValues(p...)
			return own(k, v), e
		}, nil},
	{"GetMap",
		func(d []byte, p []string) (string, bool, error) {
			r, e := jin.GetMap(d, p...)
			return mapOwn(r), len(r) == 0, e
		},
		func(j *jin.JO, p []string) (string, error) { r, e := j.GetMap(p...); return mapOwn(r), e }, nil},
	{"GetAll",
		func(d []byte, p []string) (string, bool, error) {
			r, e := jin.GetAll(d, getKeysArg, p...)
			return own(r), len(r) == 0, e
		},
		func(j *jin.JO, p []string) (string, error) { r, e := j.GetAll(getKeysArg, p...); return own(r), e }, nil},
	{"GetAllMap",
		func(d []byte, p []string) (string, bool, error) {
			r, e := jin.GetAllMap(d, getKeysArg, p...)
			return mapOwn(r), len(r) == 0, e
		},
		func(j *jin.JO, p []string) (string, error) {
			r, e := j.GetAllMap(getKeysArg, p...)
			return mapOwn(r), e
		}, nil},
	{"GetType",
		func(d []byte, p []string) (string, bool, error) {
			r, e := jin.GetType(d, p...)
			return show(r), r == "", e
		},
		func(j *jin.JO, p []string) (string, error) { r, e := j.GetType(p...); return show(r), e }, nil},
	{"IsObject",
		func(d []byte, p []string) (string, bool, error) { r, e := jin.IsObject(d, p...); return show(r), !r, e },
		func(j *jin.JO, p []string) (string, error) { r, e := j.IsObject(p...); return show(r), e }, nil},
	{"IsArray",
		func(d []byte, p []string) (string, bool, error) { r, e := jin.IsArray(d, p...); return show(r), !r, e },
		func(j *jin.JO, p []string) (string, error) { r, e := j.IsArray(p...); return show(r), e }, nil},
	{"IsValue",
		func(d []byte, p []string) (string, bool, error) { r, e := jin.IsValue(d, p...); return show(r), !r, e },
		func(j *jin.JO, p []string) (string, error) { r, e := j.IsValue(p...); return show(r), e }, nil},
	{"IsEmpty",
		func(d []byte, p []string) (string, bool, error) { r, e := jin.IsEmpty(d, p...); return show(r), !r, e },
		func(j *jin.JO, p []string) (string, error) { r, e := j.IsEmpty(p...); return show(r), e }, nil},
	{"Length",
		func(d []byte, p []string) (string, bool, error) {
			r, e := jin.Length(d, p...)
			return show(r), r <= 0, e
		}, nil, nil},
	{"IterateArray",
		func(d []byte, p []string) (string, bool, error) {
			r, e := collectArray(func(f func([]byte) (bool, error), p ...string) error { return jin.IterateArray(d, f, p...) }, p)
			return show(r), len(r) == 0, e
		},
		func(j *jin.JO, p []string) (string, error) {
			r, e := collectArray(j.IterateArray, p)
			return show(r), e
		}, nil},
	{"IterateKeyValue",
		func(d []byte, p []string) (string, bool, error) {
			r, e := collectKV(func(f func([]byte, []byte) (bool, error), p ...string) error { return jin.IterateKeyValue(d, f, p...) }, p)
			return show(r), len(r) == 0, e
		},
		func(j *jin.JO, p []string) (string, error) {
			r, e := collectKV(j.IterateKeyValue, p)
			return show(r), e
		}, nil},
}

func readNamed(n string) *Read {
	for _, r := range reads {
		if r.Name == n {
			return r
		}
	}
	panic("harness error: no read " + n)
}
