package main

import (
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/logging"
	"github.com/buypal/oapi-go/internal/oapi/config"
	"github.com/buypal/oapi-go/internal/oapi/spec"
)

// Histories of calls of the library, each in a process of its own: this
// program, called again in the working directory of the case.

const inside = "VERIF_LIB_CHILD"

func init() {
	handlers["lib"] = func(c M) M {
		root := filepath.Join(*scratch, fmt.Sprintf("l%d", atomic.AddInt64(&nth, 1)))
		defer os.RemoveAll(root)
		cwd := real_(root, str(c["cwd"]))
		must(os.MkdirAll(cwd, 0755))
		exe, err := os.Executable()
		must(err)
		ctx, cancel := context.WithTimeout(context.Background(), *deadline-2*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, exe)
		cmd.Dir = cwd
		cmd.Env = append(os.Environ(), "PWD="+cwd, inside+"="+root)
		b, err := json.Marshal(c)
		must(err)
		cmd.Stdin = bytes.NewReader(b)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		err = cmd.Run()
		if ctx.Err() != nil {
			return M{"hang": "the calls do not return"}
		}
		if err != nil {
			var ee *exec.ExitError
			if errors.As(err, &ee) && ee.ExitCode() == 3 {
				must(errors.New(se.String()))
			}
			m := se.String()
			if len(m) > 1500 {
				m = m[:1500]
			}
			return M{"crash": m}
		}
		var r M
		must(json.Unmarshal(so.Bytes(), &r))
		return r
	}
	if root := os.Getenv(inside); root != "" {
		var c M
		must(json.NewDecoder(os.Stdin).Decode(&c))
		b, err := json.Marshal(libCalls(c, root))
		must(err)
		os.Stdout.Write(b)
		os.Exit(0)
	}
}

// put replaces the files of a place; directories stay, one of them may be the working directory.
func put(c M, root string, place, version int) {
	dir := real_(root, fmt.Sprintf("/W/p%d", place))
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			must(os.Remove(p))
		}
		return nil
	})
	v := list(list(c["places"])[place-1])[version-1].(M)
	for _, x := range list(v["files"]) {
		f := x.(M)
		p := real_(root, str(f["path"]))
		if f["dir"] == true {
			must(os.MkdirAll(p, 0755))
			continue
		}
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(os.WriteFile(p, []byte(strings.Replace(str(f["text"]), "@ROOT@", dir, -1)), 0644))
	}
}

type prim struct {
	opt  oapi.Option
	val  interface{} // what it was given
	text string      // and what that was
}

func libOption(x M, root string, i int) prim {
	read := func() config.Config {
		f := filepath.Join(root, fmt.Sprintf("option%d.json", i))
		must(os.WriteFile(f, []byte(str(x["text"])), 0644))
		defer os.Remove(f)
		cfg, err := config.ReadFile(f)
		must(err)
		return cfg
	}
	var p prim
	switch str(x["k"]) {
	case "dir":
		d := str(x["path"])
		if strings.HasPrefix(d, "/") {
			d = real_(root, d)
		}
		p = prim{opt: oapi.WithDir(d)}
	case "root":
		cfg := read()
		o := spec.OpenAPI{Info: cfg.Info, Servers: cfg.Servers, Components: cfg.Components, Security: cfg.Security,
			Tags: cfg.Tags, ExternalDocs: cfg.ExternalDocs}
		p = prim{opt: oapi.WithRootSchema(o), val: o}
	case "operations":
		m := read().Operations
		p = prim{opt: oapi.WithDefOps(m), val: m}
	case "overrides":
		m := read().Overrides
		p = prim{opt: oapi.WithOverride(m), val: m}
	case "log":
		p = prim{opt: oapi.WithLog(logging.Void())}
	case "nolog":
		p = prim{opt: oapi.WithLog(nil)}
	case "error":
		p = prim{opt: func(*oapi.Options) error { return errors.New("option") }}
	default:
		must(errors.New("unknown option"))
	}
	b, err := json.Marshal(p.val)
	must(err)
	p.text = string(b)
	return p
}

type libCall struct {
	done   chan M
	cancel func()
	ok     bool
	doc    oapi.OAPI
	data   []byte // what Format gave
	res    M
}

func digest(b []byte) string { return fmt.Sprintf("%x", sha1.Sum(b)) }

func libCalls(c M, root string) M {
	var prims []prim
	for i, x := range list(c["prims"]) {
		prims = append(prims, libOption(x.(M), root, i))
	}
	calls := map[int]*libCall{}
	var panicked atomic.Value
	start := func(k *libCall, f func() M) {
		go func() {
			defer func() {
				if r := recover(); r != nil {
					panicked.Store(fmt.Sprint(r))
					k.done <- M{"err": "panic"}
				}
			}()
			k.done <- f()
		}()
	}
	before := snapshot(root)
	for _, x := range list(c["steps"]) {
		s := x.(M)
		n := intOf(s["n"], 0)
		switch str(s["do"]) {
		case "put":
			put(c, root, intOf(s["place"], 0), n)
			before = snapshot(root)
		case "begin":
			k := &libCall{done: make(chan M, 1)}
			calls[n] = k
			if str(s["kind"]) == "scan" {
				ctx, cancel := context.WithCancel(context.Background())
				k.cancel = cancel
				if s["early"] == "yes" {
					cancel()
				}
				var opts []oapi.Option
				for _, i := range list(s["opts"]) {
					opts = append(opts, prims[intOf(i, 0)-1].opt)
				}
				start(k, func() M {
					o, err := oapi.Scan(ctx, opts...)
					if err != nil {
						return M{"err": short(err.Error())}
					}
					k.doc, k.ok = o, true
					b, err := oapi.Format("json", o)
					if err != nil {
						return M{"err": "of format: " + short(err.Error())}
					}
					k.data = b
					return M{"ok": true, "text": readText(b), "sum": digest(b)}
				})
				break
			}
			of := calls[intOf(s["of"], 0)]
			if !of.ok {
				k.done <- M{"skip": true}
				break
			}
			f := str(s["fmt"])
			start(k, func() M {
				b, err := oapi.Format(f, of.doc)
				if err != nil {
					return M{"err": short(err.Error())}
				}
				k.data = b
				return M{"ok": true, "text": readText(b), "sum": digest(b)}
			})
		case "cancel":
			if ms := intOf(s["ms"], 0); ms > 0 {
				time.Sleep(time.Duration(ms) * time.Millisecond)
			}
			calls[n].cancel()
		case "end":
			calls[n].res = <-calls[n].done
		}
	}
	if p := panicked.Load(); p != nil {
		return M{"panic": p}
	}
	results := make([]interface{}, len(calls))
	for _, k := range calls {
		if k.data != nil { // the text given then, which is the caller's
			k.res["kept"] = digest(k.data)
		}
	}
	for n, k := range calls {
		if k.ok && k.res["ok"] == true { // what it states now
			b, err := oapi.Format("json", k.doc)
			k.res["later"] = "error"
			if err == nil {
				k.res["later"] = digest(b)
			}
		}
		if k.cancel != nil {
			k.cancel()
		}
		results[n-1] = k.res
	}
	options := "same"
	for _, p := range prims {
		b, err := json.Marshal(p.val)
		if err != nil || string(b) != p.text {
			options = "changed"
		}
	}
	files := "same"
	after := snapshot(root)
	for p := range after {
		if !same(before, after, p) {
			files = "changed"
		}
	}
	for p := range before {
		if !same(before, after, p) {
			files = "changed"
		}
	}
	return M{"results": results, "options": options, "files": files}
}

func short(s string) string {
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}
