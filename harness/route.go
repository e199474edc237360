package main

import (
	"sync"

	"github.com/buypal/oapi-go/internal/route"
)

func pat(s string) string {
	if s == "BAD" {
		return "/\xff"
	}
	return s
}

func match(p, m, x string) string {
	ok, err := route.Match(pat(p), m, x)
	if err != nil {
		return "err"
	}
	if ok {
		return "yes"
	}
	return "no"
}

func init() {
	// one pattern, many paths
	handlers["route"] = func(c M) M {
		r := []string{}
		for _, p := range strs(c["paths"]) {
			r = append(r, match(str(c["pat"]), str(c["method"]), p))
		}
		return M{"ok": r}
	}
	// calls one after another, or those of each thread at the same time
	handlers["routes"] = func(c M) M {
		th := list(c["threads"])
		res := make([][]string, len(th))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range th {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for _, x := range list(th[i]) {
					k := x.(M)
					res[i] = append(res[i], match(str(k["pat"]), str(k["method"]), str(k["path"])))
				}
			}(i)
		}
		close(start)
		wg.Wait()
		return M{"ok": res}
	}
}
