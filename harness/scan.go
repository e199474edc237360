package main

import (
	"errors"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"strings"

	"github.com/buypal/oapi-go/internal/oapi/scan/cmds"
	scantypes "github.com/buypal/oapi-go/internal/oapi/scan/types"
	"github.com/buypal/oapi-go/internal/pkgutil"
	"github.com/buypal/oapi-go/internal/pointer"
	"github.com/buypal/oapi-go/tag"
	"golang.org/x/tools/go/packages"
)

type scanFn func(*packages.Package) error

func (f scanFn) Scan(p *packages.Package) error { return f(p) }

type imports map[string]*types.Package

func (m imports) Import(path string) (*types.Package, error) {
	if p, ok := m[path]; ok {
		return p, nil
	}
	return importer.Default().Import(path)
}

// load type checks source packages, given in order of their imports.
func load(c M) (r []*packages.Package) {
	fset := token.NewFileSet()
	imp := imports{}
	byPath := map[string]*packages.Package{}
	for _, x := range list(c["pkgs"]) {
		p := x.(M)
		path := str(p["path"])
		pkg := &packages.Package{PkgPath: path, Fset: fset, Imports: map[string]*packages.Package{}}
		for i, src := range strs(p["src"]) {
			f, err := parser.ParseFile(fset, fmt.Sprintf("%s/f%d.go", path, i), src, parser.ParseComments)
			must(err)
			pkg.Syntax = append(pkg.Syntax, f)
			for _, im := range f.Imports {
				ip := strings.Trim(im.Path.Value, `"`)
				if byPath[ip] != nil {
					pkg.Imports[ip] = byPath[ip]
				}
			}
		}
		conf := types.Config{Importer: imp}
		t, err := conf.Check(path, fset, append([]*ast.File{}, pkg.Syntax...), nil)
		if err != nil {
			must(fmt.Errorf("%v in %s", err, strs(p["src"])))
		}
		pkg.Types, pkg.Name = t, t.Name()
		imp[path], byPath[path] = t, pkg
		r = append(r, pkg)
	}
	return
}

func init() {
	// a graph of packages
	handlers["pkgscan"] = func(c M) M {
		ns := map[string]*packages.Package{}
		for _, x := range list(c["nodes"]) {
			n := x.(M)
			p := &packages.Package{PkgPath: str(n["path"]), ID: str(n["id"]), Imports: map[string]*packages.Package{}}
			for _, e := range strs(n["errs"]) {
				p.Errors = append(p.Errors, packages.Error{Pos: "f.go:1:1", Msg: e})
			}
			ns[p.ID] = p
		}
		fails := map[string]string{}
		for _, x := range list(c["nodes"]) {
			n := x.(M)
			for _, i := range strs(n["imports"]) {
				q := ns[i]
				ns[str(n["id"])].Imports[q.PkgPath] = q
			}
			if s := str(n["fail"]); s != "" {
				fails[str(n["id"])] = s
			}
		}
		var roots []*packages.Package
		for _, x := range strs(c["roots"]) {
			roots = append(roots, ns[x])
		}
		visits := []string{}
		err := pkgutil.Scan(roots, scanFn(func(p *packages.Package) error {
			visits = append(visits, p.ID)
			if s, ok := fails[p.ID]; ok {
				return errors.New(s)
			}
			return nil
		}))
		named := []string{}
		if err != nil {
			for _, x := range list(c["nodes"]) {
				n := x.(M)
				for _, s := range append(strs(n["errs"]), str(n["fail"])) {
					if s != "" && strings.Contains(err.Error(), s) {
						named = append(named, s)
					}
				}
			}
		}
		return M{"visits": visits, "err": err != nil, "named": named}
	}

	// export comments of packages of source
	handlers["cmds"] = func(c M) M {
		s := cmds.NewScanner()
		if err := pkgutil.Scan(load(c), s); err != nil {
			return M{"err": err.Error(), "at": "scan"}
		}
		exp, err := s.ExportedComponents()
		if err != nil {
			return M{"err": err.Error(), "at": "export"}
		}
		r := []interface{}{}
		for _, e := range exp {
			r = append(r, M{"name": e.Name, "ptr": e.Pointer.String(), "at": e.Entity.Fragment().String()})
		}
		pp := []string{}
		for k := range s.Commands.Pointers() {
			pp = append(pp, k)
		}
		return M{"ok": r, "ptrs": pp}
	}

	// a struct tag
	handlers["tag"] = func(c M) M {
		t, err := tag.Parse(str(c["raw"]))
		if err != nil {
			return fail(err)
		}
		r := M{}
		fl := func(k string, b bool) {
			if b {
				r[k] = M{"s": "b:true"}
			}
		}
		bp := func(k string, b *bool) {
			if b != nil {
				r[k] = enc(*b)
			}
		}
		st := func(k string, s string) {
			if s != "" {
				r[k] = enc(s)
			}
		}
		ff := func(k string, f *float64) {
			if f != nil {
				r[k] = enc(*f)
			}
		}
		ii := func(k string, i *int64) {
			if i != nil {
				r[k] = enc(*i)
			}
		}
		fl("ignore", t.Ignore)
		if t.Ignore {
			return M{"ok": M{"o": M{"ignore": M{"s": "b:true"}}}}
		}
		bp("inline", t.Inline)
		fl("omitempty", t.OmitEmpty)
		bp("nullable", t.Nullable)
		fl("readonly", t.ReadOnly)
		fl("writeonly", t.WriteOnly)
		fl("deprecated", t.Deprecated)
		fl("required", t.Required)
		fl("unique", t.UniqItems)
		st("name", t.Name)
		st("pattern", t.Pattern)
		st("format", t.Format)
		st("type", t.Type)
		ff("min", t.Min)
		ff("max", t.Max)
		ff("emin", t.EMin)
		ff("emax", t.EMax)
		ff("mulof", t.MulOf)
		ii("minlen", t.MinLen)
		ii("maxlen", t.MaxLen)
		ii("minitems", t.MinItems)
		ii("maxitems", t.MaxItems)
		ii("minprops", t.MinProps)
		ii("maxprops", t.MaxProps)
		if len(r) == 0 {
			return M{"ok": M{"e": "o"}}
		}
		return M{"ok": M{"o": r}}
	}

	// schemas of go types
	handlers["types"] = func(c M) M {
		pkgs := load(c)
		pp := pointer.Pointers{}
		for _, s := range strs(c["reg"]) {
			p, err := pointer.Parse(s)
			must(err)
			pp[p.String()] = p
		}
		sc := scantypes.NewScanner(pp)
		if ord := list(c["order"]); ord != nil {
			for _, i := range ord {
				if err := sc.Scan(pkgs[int(i.(float64))]); err != nil {
					return fail(err)
				}
			}
		} else if err := pkgutil.Scan(pkgs, sc); err != nil {
			return fail(err)
		}
		r := []interface{}{}
		for _, s := range strs(c["ptrs"]) {
			p, err := pointer.Parse(s)
			must(err)
			x, err := sc.Resolve(p)
			if err != nil {
				r = append(r, fail(err))
				continue
			}
			d, err := makeDoc(x)
			if err != nil {
				r = append(r, fail(err))
				continue
			}
			r = append(r, M{"ok": d})
		}
		// what the schemas refer to must be found, too
		more := []interface{}{}
		seen := map[string]bool{}
		for _, s := range strs(c["ptrs"]) {
			seen[s] = true
		}
		todo := r
		for len(todo) > 0 && len(more) < 100 {
			var refs []string
			for _, x := range todo {
				refs = append(refs, refsIn(x.(M)["ok"])...)
			}
			todo = nil
			for _, s := range refs {
				if seen[s] {
					continue
				}
				seen[s] = true
				e := M{"ref": s}
				p, err := pointer.Parse(s)
				if err == nil {
					var x interface{}
					if x, err = sc.Resolve(p); err == nil {
						x, err = makeDoc(x)
						e["ok"] = x
					}
				}
				if err != nil {
					e = M{"ref": s, "err": err.Error()}
				}
				more = append(more, e)
				todo = append(todo, e)
			}
		}
		return M{"res": r, "more": more}
	}
}

// refsIn gives the references in an encoded document.
func refsIn(v interface{}) (r []string) {
	m, ok := v.(M)
	if !ok {
		return nil
	}
	o := obj(m["o"])
	for _, k := range keys(o) {
		if x, ok := o[k].(M); ok && k == "$ref" && strings.HasPrefix(str(x["s"]), "t:") {
			r = append(r, str(x["s"])[2:])
		}
		r = append(r, refsIn(o[k])...)
	}
	for _, x := range list(m["a"]) {
		r = append(r, refsIn(x)...)
	}
	return r
}
