package main

import (
	"encoding/json"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/internal/pointer"
)

func toks(f pointer.Fragment) []string { return append([]string{}, f...) }

func ptrOut(p pointer.Pointer) M {
	return M{"scheme": p.Scheme, "pkg": p.PkgPath(), "toks": toks(p.Fragment)}
}

func mkptr(c M) pointer.Pointer {
	if str(c["scheme"]) == "" {
		p := pointer.NewPointer()
		p.Fragment = strs(c["toks"])
		return p
	}
	p, err := pointer.NewGoPointer(str(c["pkg"]), "")
	must(err)
	p.Fragment = strs(c["toks"])
	return p
}

func parsed(s string) M {
	p, err := pointer.Parse(s)
	if err != nil {
		return fail(err)
	}
	r := ptrOut(p)
	r["text"] = p.String()
	return r
}

func init() {
	// a pointer made of tokens, printed and read back in several ways
	handlers["ptr"] = func(c M) M {
		p := mkptr(c)
		t := p.String()
		r := M{"text": t, "back": parsed(t), "clone": ptrOut(p.Clone()), "clonetext": p.Clone().String()}
		if f, err := pointer.NewFragment(p.Fragment.String()); err != nil {
			r["frag"] = []string{"error", err.Error()}
		} else {
			r["frag"] = toks(f)
		}
		b, err := json.Marshal(&p)
		var s string
		if err == nil {
			err = json.Unmarshal(b, &s)
		}
		if err != nil {
			r["json"] = "error " + err.Error()
			return r
		}
		r["json"] = s
		var q pointer.Pointer
		if err := json.Unmarshal(b, &q); err != nil {
			r["unjson"] = fail(err)
		} else {
			r["unjson"] = ptrOut(q)
		}
		sch := spec.Schema{}
		sch.Ref = &p
		x, err := container.Make(sch)
		if err != nil {
			r["schema"] = "error " + err.Error()
			return r
		}
		r["schema"] = str(x.Path("$ref").Data())
		return r
	}
	handlers["ptrparse"] = func(c M) M { return parsed(str(c["text"])) }
	handlers["ptrtexts"] = func(c M) M {
		r := []string{}
		for _, x := range list(c["all"]) {
			r = append(r, mkptr(x.(M)).String())
		}
		return M{"ok": r}
	}
	// history of derivations; all pointers are recorded after each one
	handlers["ptrhist"] = func(c M) M {
		hs := map[string]pointer.Pointer{}
		for _, h := range strs(c["handles"]) {
			hs[h] = pointer.Pointer{}
		}
		r := []interface{}{}
		for _, o := range list(c["ops"]) {
			op := o.(M)
			h, f := str(op["h"]), hs[str(op["from"])]
			var err error
			switch str(op["op"]) {
			case "new":
				p := pointer.NewPointer()
				p.Fragment = append(p.Fragment, strs(op["toks"])...)
				f = p
			case "go":
				p, e := pointer.NewGoPointer(str(op["pkg"]), "")
				must(e)
				p.Fragment = strs(op["toks"])
				f = p
			case "desc":
				f.Fragment, err = f.Fragment.Descendant(str(op["path"]))
			case "raw":
				f.Fragment = f.Fragment.RawDescendant(strs(op["toks"])...)
			case "replace":
				f.Fragment, err = f.Fragment.Replace(intOf(op["n"], 0), str(op["tok"]))
			case "clone":
				f = f.Clone()
			case "fragclone":
				f.Fragment = f.Fragment.Clone()
			case "reparse":
				f, err = pointer.Parse(f.String())
			default:
				panic("op")
			}
			if err == nil {
				hs[h] = f
			}
			st := M{}
			for k, x := range hs {
				e := ptrOut(x)
				e["text"] = x.String()
				st[k] = e
			}
			r = append(r, M{"st": st, "err": err != nil})
		}
		return M{"ok": r}
	}
}
