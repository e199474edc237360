package main

import (
	"github.com/buypal/oapi-go/internal/container"
)

func mk(v interface{}) container.Container {
	c, err := container.Make(dec(v))
	must(err)
	return c
}

func policy(p string) container.Merger {
	switch p {
	case "strict":
		return container.MergeStrict
	case "default":
		return container.MergeDefault
	case "override":
		return container.MergeOverride
	}
	panic("policy " + p)
}

func init() {
	// one merge: destination d, source s
	handlers["merge"] = func(c M) M {
		return M{"outs": distinct(intOf(c["n"], 3), func() M {
			d, s := mk(c["d"]), mk(c["s"])
			err := d.Merge(s, policy(str(c["pol"])))
			r := M{"src": enc(s.Data())}
			if err != nil {
				r["err"] = err.Error()
				return r
			}
			r["ok"] = enc(d.Data())
			return r
		})}
	}

	// extraction of a key: each occurrence is reported by what reading its
	// path gives and by the document in which a mark was set at it
	handlers["extract"] = func(c M) M {
		x, err := container.ExtractKey(mk(c["d"]), str(c["key"]))
		if err != nil {
			return fail(err)
		}
		r := []interface{}{}
		for _, it := range x {
			d := mk(c["d"])
			got := enc(d.Path(it.Key).Data())
			ex := d.ExistsP(it.Key)
			if err := d.SetP(it.Key, dec(c["mark"])); err != nil {
				return M{"seterr": err.Error()}
			}
			r = append(r, M{"val": enc(it.Val), "got": got, "exists": ex, "doc": enc(d.Data())})
		}
		return M{"ok": r}
	}

	// dot path of a sequence of keys: reading, existence and setting
	handlers["dotpath"] = func(c M) M {
		ks := strs(c["keys"])
		p := container.SliceToDotPath(ks)
		d := mk(c["d"])
		ex := d.ExistsP(p)
		r := M{"path": p, "exists": ex, "ks": ks}
		if ex {
			r["got"] = enc(d.Path(p).Data())
		} else {
			r["got"] = enc(nil)
		}
		if err := d.SetP(p, dec(c["mark"])); err != nil {
			r["err"] = err.Error()
		} else {
			r["ok"] = enc(d.Data())
			r["back"] = enc(d.Path(p).Data())
		}
		return r
	}

	// dot paths of many key sequences, to be told apart
	handlers["dotpaths"] = func(c M) M {
		r := []interface{}{}
		for _, ks := range list(c["all"]) {
			r = append(r, container.SliceToDotPath(strs(ks)))
		}
		return M{"ok": r}
	}

	// history of operations on several containers; all of them are recorded
	// after each operation
	handlers["hist"] = func(c M) M {
		hs := map[string]container.Container{}
		for _, h := range strs(c["handles"]) {
			hs[h] = container.New()
		}
		r := []interface{}{}
		for _, o := range list(c["ops"]) {
			op := o.(M)
			h := str(op["h"])
			var err error
			var val interface{} = M{"s": "z"}
			switch str(op["op"]) {
			case "make":
				var x container.Container
				x, err = container.Make(dec(op["v"]))
				hs[h] = x
			case "makefrom":
				var x container.Container
				x, err = container.Make(hs[str(op["from"])])
				hs[h] = x
			case "makedata":
				var x container.Container
				x, err = container.Make(hs[str(op["from"])].Data())
				hs[h] = x
			case "clone":
				hs[h] = hs[str(op["from"])].Clone()
			case "replace":
				err = hs[h].Replace(hs[str(op["from"])])
			case "set":
				err = hs[h].SetP(container.SliceToDotPath(strs(op["p"])), dec(op["v"]))
			case "setfrom":
				err = hs[h].SetP(container.SliceToDotPath(strs(op["p"])), hs[str(op["from"])])
			case "setdata":
				err = hs[h].SetP(container.SliceToDotPath(strs(op["p"])), hs[str(op["from"])].Data())
			case "merge":
				err = hs[h].Merge(hs[str(op["from"])], policy(str(op["pol"])))
			case "mergeall":
				var cc container.Containers
				for _, f := range strs(op["all"]) {
					cc = append(cc, hs[f])
				}
				var x container.Container
				x, err = cc.Merge(policy(str(op["pol"])))
				if err == nil {
					hs[h] = x
				}
			case "get":
				p := container.SliceToDotPath(strs(op["p"]))
				if hs[h].ExistsP(p) {
					val = enc(hs[h].Path(p).Data())
				} else {
					val = M{"s": "missing"}
				}
			default:
				panic("op")
			}
			st := M{}
			for k, x := range hs {
				st[k] = enc(x.Data())
			}
			e := M{"st": st, "val": val, "err": err != nil}
			r = append(r, e)
		}
		return M{"ok": r}
	}
}

// makeDoc is a value as the tool itself turns it into a document.
func makeDoc(v interface{}) (interface{}, error) {
	c, err := container.Make(v)
	if err != nil {
		return nil, err
	}
	return enc(c.Data()), nil
}
