package main

// exercise calls everything a user can call on a document; a panic is the finding.

import (
	"encoding/json"
	"time"

	"yunion.io/x/jsonutils"
)

type someStruct struct {
	A    string
	B    int   `json:"b"`
	Key  *bool `json:"key"`
	Name []string
	M    map[string]float64
	D    *jsonutils.JSONDict
	I    interface{}
}

func exercise(o jsonutils.JSONObject) {
	if o == nil {
		return
	}
	_ = o.String()
	_ = o.PrettyString()
	_ = o.YAMLString()
	_ = o.QueryString()
	_ = o.IsZero()
	_ = o.Interface()
	cp := jsonutils.DeepCopy(o)
	_ = cp.String()
	_ = o.Equals(cp)
	_ = cp.Equals(o)
	_ = o.Equals(jsonutils.JSONNull)
	for _, keys := range [][]string{{}, {"a"}, {"a", "b"}, {""}, {"A"}, {"0"}} {
		_ = o.Contains(keys...)
		_ = o.ContainsIgnoreCases(keys...)
		_, _ = o.Get(keys...)
		_, _ = o.GetIgnoreCases(keys...)
		_, _ = o.GetAt(0, keys...)
		_, _ = o.GetAt(-1, keys...)
		_, _ = o.Int(keys...)
		_, _ = o.Float(keys...)
		_, _ = o.Bool(keys...)
		_, _ = o.GetMap(keys...)
		_, _ = o.GetArray(keys...)
		_, _ = o.GetTime(keys...)
		_, _ = o.GetString(keys...)
	}
	var (
		s  string
		i  int
		f  float64
		b  bool
		t  time.Time
		m  map[string]interface{}
		ms map[string]string
		l  []interface{}
		ls []string
		st someStruct
		x  interface{}
		d  *jsonutils.JSONDict
		a  *jsonutils.JSONArray
		jo jsonutils.JSONObject
		p  *int
	)
	for _, dst := range []interface{}{&s, &i, &f, &b, &t, &m, &ms, &l, &ls, &st, &x, &d, &a, &jo, &p} {
		_ = o.Unmarshal(dst)
		_ = o.Unmarshal(dst, "a")
	}
	_ = jsonutils.Marshal(o).String()
	_, _ = json.Marshal(o)
	_, _ = jsonutils.GetStringArray(o)
	_ = jsonutils.GetAnyString(o, []string{"a", "b"})
	_ = jsonutils.GetArrayOfPrefix(o, "a")
	_ = jsonutils.GetQueryStringArray(o, "a")
	_ = jsonutils.QueryBoolean(o, "a", true)
	_ = jsonutils.CheckRequiredFields(o, []string{"a"})
	switch v := o.(type) {
	case *jsonutils.JSONDict:
		for _, k := range v.SortedKeys() {
			x, _ := v.Get(k)
			_ = x
			_, _ = v.GetString(k)
			_ = v.Contains(k)
		}
		_ = v.Size()
		_ = v.Length()
		_ = v.Copy("a").String()
		_ = v.CopyExcludes("a").String()
		_ = v.CopyIncludes("a", "b").String()
		c1 := v.Copy()
		c1.Update(v)
		c1.UpdateDefault(v)
		_ = c1.String()
		_, _, _, _ = jsonutils.Diff(v, c1)
		_ = c1.RemoveIgnoreCase("A")
		_ = c1.Remove("a")
		_ = v.Value()
	case *jsonutils.JSONArray:
		_ = v.Size()
		_ = v.Length()
		_ = v.Copy().String()
		_ = v.GetStringArray()
		_ = v.Value()
	case *jsonutils.JSONString:
		_ = v.Length()
		_ = v.Value()
	}
}
