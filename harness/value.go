package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Documents are exchanged with TLC in a tagged form, so that values of
// different kinds can be compared: {"o":{..}} object ({"e":"o"} if empty), {"a":[..]} list and
// {"s":".."} scalar, its string starting with t: (string), n: (number),
// b: (boolean) or being z (null).

func dec(v interface{}) interface{} {
	m, ok := v.(M)
	if !ok {
		panic(fmt.Sprintf("bad value %v", v))
	}
	if _, ok := m["e"]; ok {
		return M{}
	}
	if o, ok := m["o"]; ok {
		r := M{}
		for k, x := range o.(M) {
			r[k] = dec(x)
		}
		return r
	}
	if a, ok := m["a"]; ok {
		r := []interface{}{}
		for _, x := range a.([]interface{}) {
			r = append(r, dec(x))
		}
		return r
	}
	s := m["s"].(string)
	switch {
	case s == "z":
		return nil
	case strings.HasPrefix(s, "t:"):
		return s[2:]
	case s == "b:true":
		return true
	case s == "b:false":
		return false
	case strings.HasPrefix(s, "n:"):
		f, err := strconv.ParseFloat(s[2:], 64)
		must(err)
		if num(f) != s[2:] { // not without loss
			if i, err := strconv.ParseInt(s[2:], 10, 64); err == nil {
				return i
			}
			if u, err := strconv.ParseUint(s[2:], 10, 64); err == nil {
				return u
			}
		}
		return f
	}
	panic("bad scalar " + s)
}

func enc(v interface{}) interface{} { return within(v, map[at]bool{}) }

// at is a container which holds the value that is being encoded.
type at struct {
	p uintptr
	n int
}

func within(v interface{}, up map[at]bool) interface{} {
	switch v.(type) {
	case M, []interface{}, map[interface{}]interface{}:
		if r := reflect.ValueOf(v); r.Len() > 0 {
			k := at{r.Pointer(), r.Len()}
			if up[k] {
				return M{"s": "c:"} // a container which holds itself
			}
			up[k] = true
			defer delete(up, k)
		}
	}
	switch x := v.(type) {
	case nil:
		return M{"s": "z"}
	case string:
		return M{"s": "t:" + x}
	case bool:
		return M{"s": "b:" + strconv.FormatBool(x)}
	case float64:
		return M{"s": "n:" + num(x)}
	case int:
		return M{"s": "n:" + strconv.Itoa(x)}
	case int64:
		return M{"s": "n:" + strconv.FormatInt(x, 10)}
	case uint64:
		return M{"s": "n:" + strconv.FormatUint(x, 10)}
	case json.Number:
		if i, err := strconv.ParseInt(x.String(), 10, 64); err == nil {
			return within(i, up)
		}
		if u, err := strconv.ParseUint(x.String(), 10, 64); err == nil {
			return within(u, up)
		}
		f, err := x.Float64()
		must(err)
		return M{"s": "n:" + num(f)}
	case []interface{}:
		r := []interface{}{}
		for _, e := range x {
			r = append(r, within(e, up))
		}
		return M{"a": r}
	case M:
		r := M{}
		for k, e := range x {
			r[k] = within(e, up)
		}
		if len(r) == 0 {
			return M{"e": "o"}
		}
		return M{"o": r}
	case map[interface{}]interface{}:
		r := M{}
		for k, e := range x {
			r[fmt.Sprint(k)] = within(e, up)
		}
		if len(r) == 0 {
			return M{"e": "o"}
		}
		return M{"o": r}
	default:
		b, err := json.Marshal(v)
		if err != nil {
			panic(fmt.Sprintf("cannot encode %T", v))
		}
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		var y interface{}
		must(d.Decode(&y))
		return within(y, up)
	}
}

func num(f float64) string {
	if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
		return strconv.FormatInt(int64(f), 10)
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func strs(v interface{}) (r []string) {
	if v == nil {
		return nil
	}
	for _, x := range v.([]interface{}) {
		r = append(r, x.(string))
	}
	return
}

func str(v interface{}) string {
	s, _ := v.(string)
	return s
}

func list(v interface{}) []interface{} {
	l, _ := v.([]interface{})
	return l
}

func obj(v interface{}) M {
	m, ok := v.(M)
	if !ok {
		return M{}
	}
	return m
}

func keys(m M) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func fail(err error) M { return M{"err": err.Error()} }

// canon makes outcomes comparable.
func canon(v interface{}) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

// distinct runs fn n times and returns the different outcomes; the iteration
// order of Go maps differs from run to run.
func distinct(n int, fn func() M) []interface{} {
	var r []interface{}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		o := fn()
		k := canon(scrub(o))
		if !seen[k] {
			seen[k] = true
			r = append(r, o)
		}
	}
	return r
}

// scrub removes texts of errors, which may depend on the order of iteration.
func scrub(o M) M {
	if _, ok := o["err"]; ok {
		r := M{}
		for k, v := range o {
			r[k] = v
		}
		r["err"] = ""
		return r
	}
	return o
}

func intOf(v interface{}, def int) int {
	if f, ok := v.(float64); ok {
		return int(f)
	}
	return def
}
