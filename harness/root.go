package main

import (
	"encoding/json"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi"
	"github.com/buypal/oapi-go/internal/oapi/spec"
)

func init() {
	// document doc, root document cfg
	handlers["root"] = func(c M) M {
		return M{"outs": distinct(intOf(c["n"], 1), func() M {
			var r spec.OpenAPI
			must(json.Unmarshal([]byte(canon(dec(c["cfg"]))), &r))
			d := mk(c["doc"])
			if err := oapi.MergeWithRoot(r, d); err != nil {
				return fail(err)
			}
			return M{"ok": enc(d.Data())}
		})}
	}
	// document doc, default operations ops
	handlers["defops"] = func(c M) M {
		return M{"outs": distinct(intOf(c["n"], 1), func() M {
			ops := map[string]spec.Operation{}
			for _, x := range list(c["ops"]) {
				var o spec.Operation
				must(json.Unmarshal([]byte(canon(dec(x.(M)["op"]))), &o))
				ops[str(x.(M)["pat"])] = o
			}
			var d container.Container = mk(c["doc"])
			if err := oapi.SetPathsDefaults(d, ops); err != nil {
				return fail(err)
			}
			return M{"ok": enc(d.Data())}
		})}
	}
}
