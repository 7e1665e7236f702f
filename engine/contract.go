package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Contracts are written in comments of the form //@ in the verif_contracts.go
// files of the packages they speak about. Each one is translated into an
// ordinary Go function (a verification condition) placed in the package by way
// of an overlay, which the verifier executes symbolically and the replay binary
// executes natively.

type Clause struct {
	kind string // requires, ensures, returns, do
	text string
	line int
}

type Contract struct {
	ID        string // "calendar.DaysInMonth" or "C02.full-date"
	Func      string // function under contract ("" for a behaviour)
	Pkg       string // directory of the package, relative to the repository
	PkgName   string
	Props     []string
	Clauses   []Clause
	Params    string // Go parameter list
	Results   string
	Bounded   string // the bound, when the clause is a bounded one
	Note      string
	Thorough  bool
	Opaque    bool     // used at call sites only where a behaviour abstracts it
	Readonly  bool     // says nothing about sharing within the result
	Abstracts []string // opaque contracts used here
	File      string
	Line      int

	VC, REQ, RET string // names of the generated functions
	names        []string
	resNames     []string
	resTypes     []string
	hasReturns   bool
	cases        []string    // conditions the proof is split by
	Subs         []*Contract // one for every case, and one for the rest
	Base         *Contract
}

var kwRe = regexp.MustCompile(`^(contract|behavior|property|forall|requires|do|ensures|returns|import|bounded|note|thorough|opaque|readonly|abstracts|case)\b[ \t]*(.*)$`)

// readContracts parses the annotations of one file.
func readContracts(repo, dir string) ([]*Contract, []string, string, error) {
	file := filepath.Join(repo, dir, "verif_contracts.go")
	src, err := os.ReadFile(file)
	if os.IsNotExist(err) {
		return nil, nil, "", nil
	}
	if err != nil {
		return nil, nil, "", err
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
	if err != nil {
		return nil, nil, "", err
	}
	var out []*Contract
	var imports []string
	var cur *Contract
	var last *string
	bad := func(line int, msg string) error {
		return fmt.Errorf("%s:%d: %s", file, line, msg)
	}
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			line := fs.Position(c.Pos()).Line
			if !strings.HasPrefix(c.Text, "//@") {
				continue
			}
			t := strings.TrimSpace(c.Text[3:])
			if t == "" || strings.HasPrefix(t, "//") {
				continue
			}
			m := kwRe.FindStringSubmatch(t)
			if m == nil {
				if last == nil {
					return nil, nil, "", bad(line, "text outside of a clause")
				}
				*last += "\n" + t
				continue
			}
			kw, arg := m[1], strings.TrimSpace(m[2])
			last = nil
			switch kw {
			case "import":
				imports = append(imports, arg)
				continue
			case "contract":
				cur = &Contract{Pkg: dir, PkgName: f.Name.Name, File: file, Line: line}
				cur.Params = arg // parsed below
				out = append(out, cur)
				last = &cur.Params
				continue
			case "behavior":
				cur = &Contract{ID: arg, Pkg: dir, PkgName: f.Name.Name, File: file, Line: line}
				if i := strings.IndexByte(arg, '.'); i > 0 {
					cur.Props = []string{arg[:i]}
				} else {
					return nil, nil, "", bad(line, "behavior without a property")
				}
				out = append(out, cur)
				continue
			}
			if cur == nil {
				return nil, nil, "", bad(line, "clause outside of a contract")
			}
			switch kw {
			case "property":
				cur.Props = append(cur.Props, strings.Fields(arg)...)
			case "forall":
				if cur.Params != "" {
					cur.Params += ", "
				}
				cur.Params += arg
				last = &cur.Params
			case "bounded":
				cur.Bounded = arg
				last = &cur.Bounded
			case "note":
				cur.Note = arg
				last = &cur.Note
			case "thorough":
				cur.Thorough = true
			case "opaque":
				cur.Opaque = true
			case "readonly":
				cur.Readonly = true
			case "case":
				cur.cases = append(cur.cases, arg)
				last = &cur.cases[len(cur.cases)-1]
			case "abstracts":
				cur.Abstracts = append(cur.Abstracts, strings.Fields(arg)...)
			default:
				cur.Clauses = append(cur.Clauses, Clause{kw, arg, line})
				last = &cur.Clauses[len(cur.Clauses)-1].text
			}
		}
	}
	for _, c := range out {
		if c.ID == "" {
			// contract F(params) (results)
			fd, err := parseSig(c.Params)
			if err != nil {
				return nil, nil, "", bad(c.Line, err.Error())
			}
			c.Func = fd.Name.Name
			c.ID = c.PkgName + "." + c.Func
			c.Params = fieldList(fd.Type.Params)
			c.Results = fieldList(fd.Type.Results)
			c.names = fieldNames(fd.Type.Params)
			c.resNames = fieldNames(fd.Type.Results)
			c.resTypes = fieldTypes(fd.Type.Results)
		} else {
			fd, err := parseSig("F(" + c.Params + ")")
			if err != nil {
				return nil, nil, "", bad(c.Line, err.Error())
			}
			c.Params = fieldList(fd.Type.Params)
			c.names = fieldNames(fd.Type.Params)
		}
		for _, cl := range c.Clauses {
			if cl.kind == "returns" {
				c.hasReturns = true
			}
		}
		id := regexp.MustCompile(`[^A-Za-z0-9]+`).ReplaceAllString(c.ID, "_")
		if c.Func != "" {
			id = c.Func
		}
		c.VC = "ZZVC_" + id
		c.REQ = "ZZREQ_" + id
		c.RET = "ZZRET_" + id
		if len(c.cases) > 0 {
			plain := map[int]bool{}
			for i, e := range c.cases {
				if strings.HasPrefix(e, "plain ") {
					plain[i] = true // without abstractions
					c.cases[i] = strings.TrimPrefix(e, "plain ")
				}
			}
			for i := 0; i <= len(c.cases); i++ {
				sub := *c
				sub.Base = c
				sub.ID = fmt.Sprintf("%s@%d", c.ID, i)
				sub.VC = fmt.Sprintf("%s_%d", c.VC, i)
				sub.cases = nil
				if plain[i] {
					sub.Abstracts = nil
				}
				sub.Clauses = nil
				k := 0
				for j, cl := range c.Clauses {
					if cl.kind == "requires" && k == j {
						k = j + 1
					}
				}
				if c.Func != "" {
					k = len(c.Clauses)
				}
				sub.Clauses = append(sub.Clauses, c.Clauses[:k]...)
				for j := 0; j < i; j++ {
					sub.Clauses = append(sub.Clauses, Clause{"requires", "!(" + c.cases[j] + ")", c.Line})
				}
				if i < len(c.cases) {
					sub.Clauses = append(sub.Clauses, Clause{"requires", c.cases[i], c.Line})
				}
				sub.Clauses = append(sub.Clauses, c.Clauses[k:]...)
				c.Subs = append(c.Subs, &sub)
			}
		}
	}
	return out, imports, f.Name.Name, nil
}

func parseSig(s string) (*ast.FuncDecl, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "sig.go", "package p\nfunc "+s, 0)
	if err != nil {
		return nil, fmt.Errorf("signature %q: %v", s, err)
	}
	return f.Decls[0].(*ast.FuncDecl), nil
}

func fieldNames(l *ast.FieldList) []string {
	var out []string
	if l == nil {
		return nil
	}
	for _, f := range l.List {
		for _, n := range f.Names {
			out = append(out, n.Name)
		}
	}
	return out
}

func fieldTypes(l *ast.FieldList) []string {
	var out []string
	if l == nil {
		return nil
	}
	for _, f := range l.List {
		var b bytes.Buffer
		format.Node(&b, token.NewFileSet(), f.Type)
		for range f.Names {
			out = append(out, b.String())
		}
	}
	return out
}

// retArgs are the arguments of RET in the condition of the function itself.
func (c *Contract) retArgs() []string {
	if c.Opaque {
		return append(append([]string{}, c.names...), c.resNames...)
	}
	return c.names
}

func fieldList(l *ast.FieldList) string {
	if l == nil {
		return ""
	}
	var parts []string
	for _, f := range l.List {
		var b bytes.Buffer
		format.Node(&b, token.NewFileSet(), f.Type)
		for _, n := range f.Names {
			parts = append(parts, n.Name+" "+b.String())
		}
	}
	return strings.Join(parts, ", ")
}

const specPath = modPath + "/zz_verifspec"

// generate writes the verification conditions of one package.
func generate(dir, pkgName string, cs []*Contract, imports []string) (path string, src []byte, err error) {
	var b bytes.Buffer
	root := dir == "."
	fmt.Fprintf(&b, "//go:build go1.16\n\n// Code generated from verif_contracts.go; DO NOT EDIT.\n\n")
	if root {
		fmt.Fprintf(&b, "package zz_verifroot\n\nimport (\n\t. %q\n", modPath)
		path = filepath.Join("zz_verifroot", "zz_verif_vc.go")
	} else {
		fmt.Fprintf(&b, "package %s\n\nimport (\n", pkgName)
		path = filepath.Join(dir, "zz_verif_vc.go")
	}
	fmt.Fprintf(&b, "\tspec %q\n", specPath)
	for _, i := range imports {
		fmt.Fprintf(&b, "\t%s\n", i)
	}
	fmt.Fprintf(&b, ")\n\nvar _ = spec.Assume\n\n")
	if root {
		fmt.Fprintf(&b, "var _ EDTFDate\n\n")
	}
	var gen []*Contract
	for _, c := range cs {
		gen = append(gen, c)
		gen = append(gen, c.Subs...)
	}
	for _, c := range gen {
		where := func(cl Clause) string { return fmt.Sprintf("//line %s:%d\n", filepath.Base(c.File), cl.line) }
		_ = where
		fmt.Fprintf(&b, "// %s\nfunc %s(%s) {\n", c.ID, c.VC, c.Params)
		for _, cl := range c.Clauses {
			if cl.kind == "requires" && (c.Func != "" || true) {
				if c.Func == "" {
					continue
				}
				fmt.Fprintf(&b, "\tspec.Assume(%s)\n", cl.text)
			}
		}
		n := 0
		if c.Func != "" {
			if len(c.resNames) > 0 {
				fmt.Fprintf(&b, "\t%s := %s(%s)\n", strings.Join(c.resNames, ", "), c.Func, strings.Join(c.names, ", "))
			} else {
				fmt.Fprintf(&b, "\t%s(%s)\n", c.Func, strings.Join(c.names, ", "))
			}
			for _, r := range c.resNames {
				fmt.Fprintf(&b, "\t_ = %s\n", r)
			}
		}
		for _, cl := range c.Clauses {
			switch cl.kind {
			case "requires":
				if c.Func == "" {
					fmt.Fprintf(&b, "\tspec.Assume(%s)\n", cl.text)
				}
			case "do":
				fmt.Fprintf(&b, "\t%s\n", cl.text)
			case "ensures":
				n++
				fmt.Fprintf(&b, "\tspec.Check(%q, %s)\n", fmt.Sprintf("%s/ensures#%d", c.ID, n), cl.text)
			case "returns":
				fmt.Fprintf(&b, "\tspec.CheckSame(%q, spec.T(%s), spec.T(%s(%s)))\n", c.ID+"/returns", strings.Join(c.resNames, ", "), c.RET, strings.Join(c.retArgs(), ", "))
			}
		}
		fmt.Fprintf(&b, "}\n\n")
		if c.hasReturns && c.Base == nil {
			fmt.Fprintf(&b, "func %s(%s) bool {\n\treturn true", c.REQ, c.Params)
			for _, cl := range c.Clauses {
				if cl.kind == "requires" {
					fmt.Fprintf(&b, " && (%s)", cl.text)
				}
			}
			fmt.Fprintf(&b, "\n}\n\n")
			if c.Opaque {
				fmt.Fprintf(&b, "func %s(%s) (%s) {\n", c.RET, strings.Trim(c.Params+", "+c.Results, ", "), strings.Join(c.resTypes, ", "))
			} else {
				fmt.Fprintf(&b, "func %s(%s) (%s) {\n", c.RET, c.Params, c.Results)
			}
			for _, cl := range c.Clauses {
				if cl.kind == "returns" {
					fmt.Fprintf(&b, "\treturn %s\n", cl.text)
				}
			}
			fmt.Fprintf(&b, "}\n\n")
		}
	}
	src, err = format.Source(b.Bytes())
	if err != nil {
		return path, b.Bytes(), fmt.Errorf("contracts of package %s: %v", pkgName, err)
	}
	return path, src, nil
}

// vcPkgPath is the import path of the package that holds the conditions of dir.
func vcPkgPath(dir string) string {
	if dir == "." {
		return modPath + "/zz_verifroot"
	}
	return modPath + "/" + filepath.ToSlash(dir)
}

// buildOverlay reads all contracts and produces the generated files.
func buildOverlay(repo, verif string) (map[string][]byte, []*Contract, error) {
	dirs, err := libDirs(repo)
	if err != nil {
		return nil, nil, err
	}
	ov := map[string][]byte{}
	var all []*Contract
	var pk []string
	for _, d := range dirs {
		cs, imps, name, err := readContracts(repo, d)
		if err != nil {
			return nil, nil, err
		}
		if len(cs) == 0 {
			continue
		}
		// contracts of functions that are gone, or have another signature, detach
		cs = attached(repo, d, cs)
		p, src, err := generate(d, name, cs, imps)
		if err != nil {
			return nil, nil, err
		}
		ov[filepath.Join(repo, p)] = src
		all = append(all, cs...)
		pk = append(pk, d)
	}
	specs, err := filepath.Glob(filepath.Join(verif, "spec", "*.go"))
	if err != nil {
		return nil, nil, err
	}
	for _, f := range specs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, err
		}
		ov[filepath.Join(repo, "zz_verifspec", filepath.Base(f))] = b
	}
	ov[filepath.Join(repo, "zz_verifrun", "main.go")] = runnerSrc(pk, all)
	sort.Slice(all, func(i, j int) bool { return all[i].ID < all[j].ID })
	return ov, all, nil
}

// detached lists the contracts whose function is not there any more.
var detached []string

func attached(repo, dir string, cs []*Contract) []*Contract {
	sigs := map[string]string{}
	fs := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		af, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
				sigs[fd.Name.Name] = sigTypes(fd.Type)
			}
		}
	}
	var out []*Contract
	for _, c := range cs {
		if c.Func != "" {
			fd, err := parseSig(c.Func + "(" + c.Params + ") (" + c.Results + ")")
			if err != nil || sigs[c.Func] != sigTypes(fd.Type) {
				detached = append(detached, c.ID)
				continue
			}
		}
		out = append(out, c)
	}
	return out
}

func sigTypes(t *ast.FuncType) string {
	var b bytes.Buffer
	w := func(l *ast.FieldList) {
		if l == nil {
			return
		}
		for _, f := range l.List {
			n := len(f.Names)
			if n == 0 {
				n = 1
			}
			for i := 0; i < n; i++ {
				var tb bytes.Buffer
				format.Node(&tb, token.NewFileSet(), f.Type)
				b.WriteString(strings.TrimPrefix(strings.ReplaceAll(tb.String(), "edtf.", ""), "") + ",")
			}
		}
	}
	w(t.Params)
	b.WriteString("->")
	w(t.Results)
	return b.String()
}

// runnerSrc is the program that runs verification conditions natively.
func runnerSrc(dirs []string, cs []*Contract) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package main\n\nimport (\n\t\"reflect\"\n\tspec %q\n", specPath)
	alias := map[string]string{}
	for i, d := range dirs {
		alias[d] = fmt.Sprintf("p%d", i)
		fmt.Fprintf(&b, "\tp%d %q\n", i, vcPkgPath(d))
	}
	fmt.Fprintf(&b, ")\n\nfunc main() {\n\tspec.RunMain(map[string]reflect.Value{\n")
	var gen []*Contract
	for _, c := range cs {
		gen = append(gen, c)
		gen = append(gen, c.Subs...)
	}
	for _, c := range gen {
		fmt.Fprintf(&b, "\t\t%q: reflect.ValueOf(%s.%s),\n", c.ID, alias[c.Pkg], c.VC)
	}
	fmt.Fprintf(&b, "\t})\n}\n")
	src, err := format.Source(b.Bytes())
	if err != nil {
		return b.Bytes()
	}
	return src
}
