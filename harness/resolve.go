package main

import (
	"errors"

	"github.com/buypal/oapi-go/internal/oapi/resolver"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/internal/pointer"
)

// raw is an entity made of any document.
type raw struct{ v interface{} }

func (r raw) Entity() spec.Entity          { return spec.SchemaKind }
func (r raw) MarshalJSON() ([]byte, error) { return []byte(canon(r.v)), nil }

func init() {
	// references of a document
	handlers["resolve"] = func(c M) M {
		env := map[string]interface{}{}
		for _, x := range list(c["env"]) {
			e := x.(M)
			if v, ok := e["v"]; ok {
				env[str(e["ptr"])] = v
			}
		}
		var exp resolver.Exports
		for _, x := range list(c["exports"]) {
			e := x.(M)
			p, err := pointer.Parse(str(e["ptr"]))
			must(err)
			exp = append(exp, resolver.Pointer{Entity: resolver.Entity{Entity: spec.SchemaKind, Name: str(e["name"])}, Pointer: p})
		}
		return M{"outs": distinct(intOf(c["n"], 1), func() M {
			d := mk(c["doc"])
			r, err := resolver.Resolve(d, exp, func(p pointer.Pointer) (spec.Entiter, error) {
				v, ok := env[p.String()]
				if !ok {
					return nil, errors.New("unknown")
				}
				return raw{dec(v)}, nil
			})
			if err != nil {
				return M{"err": err.Error(), "input": enc(d.Data())}
			}
			return M{"ok": enc(r.Data()), "input": enc(d.Data())}
		})}
	}
}
