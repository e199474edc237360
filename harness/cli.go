package main

import (
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"gopkg.in/yaml.v2"
)

// Paths of a case are below /W, which stands for a scratch directory; texts of
// files and arguments call it @ROOT@.

var nth int64

func init() {
	handlers["cli"] = func(c M) M {
		root := filepath.Join(*scratch, fmt.Sprintf("c%d", atomic.AddInt64(&nth, 1)))
		defer os.RemoveAll(root)
		n := intOf(c["n"], 1)
		if l := list(c["kill"]); l != nil {
			n = len(l)
		}
		runs := []interface{}{}
		var took time.Duration // of the first run, which is not stopped
		for i := 0; i < n; i++ {
			must(os.RemoveAll(root))
			start := time.Now()
			runs = append(runs, runCli(c, root, i, took))
			if i == 0 {
				took = time.Since(start)
			}
		}
		return M{"runs": runs}
	}
	// runs one after another in the same place
	handlers["clihist"] = func(c M) M {
		root := filepath.Join(*scratch, fmt.Sprintf("c%d", atomic.AddInt64(&nth, 1)))
		defer os.RemoveAll(root)
		runs := []interface{}{}
		for i, x := range list(c["steps"]) {
			runs = append(runs, runCli(x.(M), root, i, 0))
		}
		return M{"runs": runs}
	}
	// whether faults can be injected here
	handlers["strace"] = func(c M) M {
		p := filepath.Join(*scratch, "probe")
		must(os.WriteFile(p, nil, 0644))
		err := exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=openat", "-e", "inject=openat:error=EIO:when=1",
			"-P", p, "/bin/cat", p).Run()
		var ee *exec.ExitError
		return M{"ok": errors.As(err, &ee) && ee.ExitCode() == 1}
	}
	// a document in a format
	handlers["text"] = func(c M) M { return M{"text": readText([]byte(str(c["text"])))} }
}

func real_(root, p string) string {
	if p != "/W" && !strings.HasPrefix(p, "/W/") {
		must(errors.New("path outside of scratch: " + p))
	}
	return filepath.Join(root, strings.TrimPrefix(p, "/W"))
}

type entry struct {
	dir  bool
	data []byte
}

func snapshot(root string) map[string]entry {
	r := map[string]entry{}
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel := "/W" + strings.TrimPrefix(p, root)
		if b := filepath.Base(p); b == "go.mod" || b == "go.sum" {
			return nil
		}
		if i.IsDir() {
			r[rel] = entry{dir: true}
			return nil
		}
		data, err := os.ReadFile(p)
		must(err)
		r[rel] = entry{data: data}
		return nil
	})
	return r
}

func runCli(c M, root string, i int, took time.Duration) M {
	for _, x := range list(c["files"]) {
		f := x.(M)
		p := real_(root, str(f["path"]))
		if f["gone"] == true {
			must(os.RemoveAll(p))
			continue
		}
		if f["dir"] == true {
			must(os.MkdirAll(p, 0755))
			continue
		}
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(os.WriteFile(p, []byte(strings.Replace(str(f["text"]), "@ROOT@", root, -1)), 0644))
	}
	before := snapshot(root)
	var args []string
	for _, a := range strs(c["argv"]) {
		args = append(args, strings.Replace(a, "@ROOT@", root, -1))
	}
	ctx, cancel := context.WithTimeout(context.Background(), *deadline-2*time.Second)
	defer cancel()
	exe := *cli
	if n := intOf(c["fsize"], 0); n > 0 { // no file may grow beyond that many blocks
		args = append([]string{"-c", fmt.Sprintf("ulimit -f %d; exec \"$0\" \"$@\"", n), exe}, args...)
		exe = "/bin/sh"
	}
	if j, ok := c["inject"].(M); ok { // a fault in, or a kill before, a system call on a path
		what := str(j["sys"]) + ":" + str(j["what"]) + ":when=" + str(j["when"])
		args = append([]string{"-f", "-qq", "-o", "/dev/null", "-e", "trace=" + str(j["sys"]), "-e", "signal=none",
			"-e", "inject=" + what, "-P", real_(root, str(j["path"])), exe}, args...)
		exe = "strace"
	}
	cmd := exec.CommandContext(ctx, exe, args...)
	cmd.Dir = real_(root, str(c["cwd"]))
	cmd.Env = append(os.Environ(), "PWD="+cmd.Dir)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if f := str(c["full"]); f != "" { // a device which is full
		dev, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
		defer dev.Close()
		if f == "stdout" {
			cmd.Stdout = dev
		} else {
			cmd.Stderr = dev
		}
	}
	must(cmd.Start())
	if l := list(c["kill"]); l != nil {
		if part := intOf(l[i], -1); part >= 0 { // after so many thousandths of a run
			go func() {
				time.Sleep(took / 1000 * time.Duration(part))
				cmd.Process.Signal([]os.Signal{syscall.SIGTERM, os.Interrupt}[i%2])
			}()
		}
	}
	err := cmd.Wait()
	if ctx.Err() != nil {
		panic("the command does not end")
	}
	exit := 0
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		if exit = ee.ExitCode(); exit == 0 {
			exit = -1
		}
	} else {
		must(err)
	}
	after := snapshot(root)
	names := map[string]bool{}
	for _, x := range list(c["before"]) {
		names[str(x.(M)["path"])] = true
	}
	for p := range before {
		names[p] = names[p] || !same(before, after, p)
	}
	for p := range after {
		names[p] = names[p] || !same(before, after, p)
	}
	var paths []string
	for p, ok := range names {
		if ok {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	files := []interface{}{}
	sum := sha1.New()
	sum.Write(so.Bytes())
	for _, p := range paths {
		f := M{"path": p, "now": "changed"}
		if same(before, after, p) {
			f["now"] = "same"
		} else if _, ok := before[p]; !ok {
			f["now"] = "new"
		}
		if e, ok := after[p]; ok && !e.dir {
			f["text"] = readText(e.data)
			sum.Write(e.data)
		}
		files = append(files, f)
	}
	if exit == 0 {
		sum.Write(se.Bytes())
	}
	r := M{"exit": exit, "stdout": readText(so.Bytes()), "stderr": readText(se.Bytes()), "files": files,
		"bytes": fmt.Sprintf("%x", sum.Sum(nil))}
	if exit != 0 {
		m := se.String()
		if len(m) > 400 {
			m = m[:400]
		}
		r["message"] = m
	}
	return r
}

func same(a, b map[string]entry, p string) bool {
	x, ok := a[p]
	y, ok2 := b[p]
	return ok == ok2 && x.dir == y.dir && bytes.Equal(x.data, y.data)
}

// readText finds documents in a text.
func readText(b []byte) M {
	as := M{}
	if doc, top, err := readJSON(b); err == nil {
		x := M{"doc": doc, "top": top}
		lines := bytes.Count(bytes.TrimSpace(b), []byte("\n"))
		if lines == 0 {
			as["json"] = x
		}
		if lines > 0 || len(top) == 0 {
			as["json:pretty"] = x
		}
	}
	if len(b) > 0 {
		var ms yaml.MapSlice
		if err := yaml.Unmarshal(b, &ms); err == nil && ms != nil || string(bytes.TrimSpace(b)) == "{}" {
			doc, top := yamlDoc(ms)
			if doc != nil {
				as["yaml"] = M{"doc": doc, "top": top}
			}
		}
		if text, err := goConst(b); err == nil {
			if doc, top, err := readJSON([]byte(text)); err == nil {
				as["go"] = M{"doc": doc, "top": top}
			}
		}
	}
	r := M{"as": as, "size": len(b)}
	if len(b) == 0 {
		r["empty"] = true
	}
	return r
}

// readJSON reads an object, its keys being unique, and nothing else.
func readJSON(b []byte) (interface{}, []string, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	v, top, err := jsonValue(d)
	if err != nil {
		return nil, nil, err
	}
	if top == nil {
		return nil, nil, errors.New("no object")
	}
	if _, err := d.Token(); err == nil {
		return nil, nil, errors.New("more than a document")
	}
	return enc(v), top, nil
}

func jsonValue(d *json.Decoder) (interface{}, []string, error) {
	t, err := d.Token()
	if err != nil {
		return nil, nil, err
	}
	switch t {
	case json.Delim('{'):
		m, top := M{}, []string{}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, nil, err
			}
			if _, ok := m[k.(string)]; ok {
				return nil, nil, errors.New("duplicate key")
			}
			x, _, err := jsonValue(d)
			if err != nil {
				return nil, nil, err
			}
			m[k.(string)] = x
			top = append(top, k.(string))
		}
		_, err := d.Token()
		return m, top, err
	case json.Delim('['):
		a := []interface{}{}
		for d.More() {
			x, _, err := jsonValue(d)
			if err != nil {
				return nil, nil, err
			}
			a = append(a, x)
		}
		_, err := d.Token()
		return a, nil, err
	}
	return t, nil, nil
}

func yamlDoc(ms yaml.MapSlice) (doc interface{}, top []string) {
	defer func() {
		if recover() != nil {
			doc = nil
		}
	}()
	m := M{}
	top = []string{}
	for _, i := range ms {
		k := fmt.Sprint(i.Key)
		if _, ok := m[k]; ok {
			panic("duplicate key")
		}
		m[k] = plain(i.Value)
		top = append(top, k)
	}
	return enc(m), top
}

func plain(v interface{}) interface{} {
	switch x := v.(type) {
	case yaml.MapSlice:
		m := M{}
		for _, i := range x {
			k := fmt.Sprint(i.Key)
			if _, ok := m[k]; ok {
				panic("duplicate key")
			}
			m[k] = plain(i.Value)
		}
		return m
	case []interface{}:
		r := []interface{}{}
		for _, e := range x {
			r = append(r, plain(e))
		}
		return r
	}
	return v
}

// goConst gives the text of constant OpenAPIJsonSpec of a go file.
func goConst(b []byte) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", b, 0)
	if err != nil {
		return "", err
	}
	p, err := (&types.Config{Importer: importer.Default()}).Check(f.Name.Name, fset, []*ast.File{f}, nil)
	if err != nil {
		return "", err
	}
	c, ok := p.Scope().Lookup("OpenAPIJsonSpec").(*types.Const)
	if !ok || c.Val().Kind() != constant.String {
		return "", errors.New("no such constant")
	}
	return constant.StringVal(c.Val()), nil
}
