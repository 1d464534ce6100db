// Command instr instruments go-air/dupi for model checking. It copies nothing
// back into the repository: for each instrumented file it writes a changed copy
// to the output directory and a go overlay that puts it in place, together with
// the runtime packages.
//
//	instr -repo /repo -rt /verif/rt -out DIR [-plain]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/go-air/dupi"

var replaced = map[string]string{
	"os":                    "vos",
	"sync":                  "vsync",
	"sync/atomic":           "vatomic",
	"path/filepath":         "vfilepath",
	"io/ioutil":             "vioutil",
	"golang.org/x/sys/unix": "vunix",
	"syscall":               "vunix",
}

var defName = map[string]string{
	"os": "os", "sync": "sync", "sync/atomic": "atomic", "path/filepath": "filepath",
	"io/ioutil": "ioutil", "golang.org/x/sys/unix": "unix", "syscall": "syscall",
}

type pkg struct {
	Dir        string
	ImportPath string
	Name       string
	GoFiles    []string
	Imports    []string
	Export     string
	Standard   bool
	DepOnly    bool
}

var sites int

// scale replaces the length of arrays of 1<<16 elements in internal/shard.
var scale int

// only: nothing but the tables is changed.
var only bool

const scaled = mod + "/internal/shard"

func main() {
	log.SetFlags(0)
	repo := flag.String("repo", "/repo", "")
	rt := flag.String("rt", "/verif/rt", "")
	out := flag.String("out", "", "")
	plain := flag.Bool("plain", false, "only add the runtime, instrument nothing")
	flag.IntVar(&scale, "scale", 0, "length of the tables of a shard (0: as they are)")
	extra := flag.String("extra", "", "comma separated target=file pairs added to the overlay")
	flag.Parse()
	overlay := map[string]string{}
	// runtime and harness packages
	filepath.Walk(*rt, func(p string, fi os.FileInfo, e error) error {
		if e != nil {
			log.Fatal(e)
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(*rt, p)
		overlay[filepath.Join(*repo, "zz_verif", rel)] = p
		return nil
	})
	for _, x := range strings.Split(*extra, ",") {
		if k, v, ok := strings.Cut(x, "="); ok {
			overlay[filepath.Join(*repo, k)] = v
		}
	}
	only = *plain
	if !*plain || scale != 0 {
		instrument(*repo, *out, overlay)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if e := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644); e != nil {
		log.Fatal(e)
	}
	fmt.Printf("instr: %d files in overlay, %d sites\n", len(overlay), sites)
}

func instrument(repo, out string, overlay map[string]string) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=Dir,ImportPath,Name,GoFiles,Imports,Export,Standard,DepOnly", ".", "./blotter", "./token", "./post", "./dmd", "./lock", "./internal/...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	b, e := cmd.Output()
	if e != nil {
		log.Fatal("go list: ", e)
	}
	exports := map[string]string{}
	var todo []pkg
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkg
		if e := d.Decode(&p); e == io.EOF {
			break
		} else if e != nil {
			log.Fatal(e)
		}
		exports[p.ImportPath] = p.Export
		// every package of the module that the library is made of
		if !p.Standard && (p.ImportPath == mod || strings.HasPrefix(p.ImportPath, mod+"/")) {
			if only && p.ImportPath != scaled {
				continue
			}
			todo = append(todo, p)
		}
	}
	sort.Slice(todo, func(i, j int) bool { return todo[i].ImportPath < todo[j].ImportPath })
	for _, p := range todo {
		doPkg(p, exports, out, overlay)
	}
}

type edit struct {
	from, to int
	text     string
	seq      int
}

type file struct {
	name  string
	src   []byte
	f     *ast.File
	base  int
	edits []edit
	info  *types.Info
	fset  *token.FileSet
	sel   int
	used  map[string]bool
	pkg   string
}

func doPkg(p pkg, exports map[string]string, out string, overlay map[string]string) {
	fset := token.NewFileSet()
	var files []*file
	var asts []*ast.File
	for _, g := range p.GoFiles {
		path := filepath.Join(p.Dir, g)
		src, e := os.ReadFile(path)
		if e != nil {
			log.Fatal(e)
		}
		f, e := parser.ParseFile(fset, path, src, parser.ParseComments)
		if e != nil {
			log.Fatal(e)
		}
		files = append(files, &file{name: path, src: src, f: f, base: fset.File(f.Pos()).Base(), fset: fset, pkg: p.ImportPath, used: map[string]bool{}})
		asts = append(asts, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			x := exports[path]
			if x == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(x)
		}),
		Error: func(e error) { log.Print("types: ", e) },
	}
	if _, e := conf.Check(p.ImportPath, fset, asts, info); e != nil {
		log.Fatal("type check: ", e)
	}
	for _, f := range files {
		f.info = info
		if only {
			ast.Inspect(f.f, func(n ast.Node) bool {
				if x, ok := n.(*ast.ArrayType); ok {
					f.table(x)
				}
				return true
			})
			if len(f.edits) == 0 {
				continue
			}
			dst := filepath.Join(out, "src", "small__"+filepath.Base(f.name))
			os.MkdirAll(filepath.Dir(dst), 0755)
			if e := os.WriteFile(dst, []byte(f.render(0, len(f.src))), 0644); e != nil {
				log.Fatal(e)
			}
			overlay[f.name] = dst
			continue
		}
		f.rewrite()
		body := f.render(0, len(f.src))
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, mod), "/")
		dst := filepath.Join(out, "src", strings.ReplaceAll(rel, "/", "_")+"__"+filepath.Base(f.name))
		os.MkdirAll(filepath.Dir(dst), 0755)
		text := "//go:build go1.21\n\n//line " + f.name + ":1\n" + body + "\nvar _ = zzvrt.Loop\n"
		for _, u := range sortedKeys(f.used) {
			text += "var _ = " + u + "\n"
		}
		if e := os.WriteFile(dst, []byte(text), 0644); e != nil {
			log.Fatal(e)
		}
		overlay[f.name] = dst
	}
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (f *file) off(p token.Pos) int { return int(p) - f.base }

func (f *file) edit(from, to int, text string) {
	f.edits = append(f.edits, edit{from, to, text, len(f.edits)})
}
func (f *file) insert(p token.Pos, text string) { f.edit(f.off(p), f.off(p), text) }

// render returns the source of [from,to) with the edits inside it applied; an
// edit that replaces a range supersedes the earlier edits strictly inside it.
func (f *file) render(from, to int) string {
	var es []edit
	for _, e := range f.edits {
		if e.from >= from && e.to <= to {
			// replaced as a whole by a later, wider edit?
			super := false
			for _, o := range f.edits {
				if o.seq > e.seq && o.from <= e.from && e.to <= o.to && o.to-o.from > e.to-e.from && o.from >= from && o.to <= to {
					super = true
				}
			}
			if !super {
				es = append(es, e)
			}
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].from != es[j].from {
			return es[i].from < es[j].from
		}
		return es[i].to < es[j].to
	})
	var b strings.Builder
	at := from
	for _, e := range es {
		if e.from < at {
			log.Fatalf("%s: overlapping edits at %d", f.name, e.from)
		}
		b.Write(f.src[at:e.from])
		b.WriteString(e.text)
		at = e.to
	}
	b.Write(f.src[at:to])
	return b.String()
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (f *file) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = f.info.Uses[id].(*types.Builtin)
	return ok
}

func (f *file) pkgSel(e ast.Expr) (string, string) {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return "", ""
	}
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return "", ""
	}
	pn, ok := f.info.Uses[id].(*types.PkgName)
	if !ok {
		return "", ""
	}
	return pn.Imported().Path(), s.Sel.Name
}

// table replaces the length of a table of a shard.
func (f *file) table(x *ast.ArrayType) {
	if scale == 0 || f.pkg != scaled || x.Len == nil {
		return
	}
	if v := f.info.Types[x.Len].Value; v != nil {
		if n, ok := constant.Int64Val(constant.ToInt(v)); ok && n == 1<<16 {
			f.edit(f.off(x.Len.Pos()), f.off(x.Len.End()), fmt.Sprint(scale))
		}
	}
}

func (f *file) rewrite() {
	// blank everything before the package clause (build constraints, docs)
	pre := f.off(f.f.Package)
	blank := strings.Map(func(r rune) rune {
		if r == '\n' {
			return r
		}
		return ' '
	}, string(f.src[:pre]))
	f.edit(0, pre, blank)
	f.insert(f.f.Name.End(), "; import zzvrt \""+mod+"/zz_verif/vrt\"")
	for _, im := range f.f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		to, ok := replaced[path]
		if !ok {
			continue
		}
		text := strconv.Quote(mod + "/zz_verif/" + to)
		if im.Name == nil {
			text = defName[path] + " " + text
		}
		f.edit(f.off(im.Path.Pos()), f.off(im.Path.End()), text)
	}
	// directives that no longer apply are plain comments; go:embed etc. stay
	two := map[ast.Expr]bool{} // receives in "v, ok :=" context
	skip := map[ast.Node]bool{}
	var post func(n ast.Node)
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		if n == nil {
			return
		}
		switch x := n.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				two[ast.Unparen(x.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				two[ast.Unparen(x.Values[0])] = true
			}
		case *ast.CommClause:
			switch c := x.Comm.(type) {
			case *ast.SendStmt:
				skip[c] = true
			case *ast.ExprStmt:
				skip[ast.Unparen(c.X)] = true
			case *ast.AssignStmt:
				skip[ast.Unparen(c.Rhs[0])] = true
			}
		}
		ast.Inspect(n, func(c ast.Node) bool {
			if c == nil || c == n {
				return true
			}
			walk(c)
			return false
		})
		post(n)
	}
	n := 0
	post = func(nd ast.Node) {
		if skip[nd] {
			return
		}
		switch x := nd.(type) {
		case *ast.ArrayType:
			f.table(x)
		case *ast.SendStmt:
			sites++
			f.insert(x.Chan.Pos(), "zzvrt.Send(")
			f.edit(f.off(x.Chan.End()), f.off(x.Value.Pos()), ")(")
			f.insert(x.Value.End(), ")")
		case *ast.UnaryExpr:
			if x.Op != token.ARROW {
				return
			}
			sites++
			fn := "zzvrt.Recv("
			if two[x] {
				fn = "zzvrt.Recv2("
			}
			f.edit(f.off(x.Pos()), f.off(x.X.Pos()), fn)
			f.insert(x.X.End(), ")")
		case *ast.CallExpr:
			switch {
			case f.isBuiltin(x.Fun, "close"):
				sites++
				f.edit(f.off(x.Fun.Pos()), f.off(x.Fun.End()), "zzvrt.Close")
			case f.isBuiltin(x.Fun, "len") && isChan(f.info.Types[x.Args[0]].Type):
				sites++
				f.edit(f.off(x.Fun.Pos()), f.off(x.Fun.End()), "zzvrt.Len")
			default:
				switch p, s := f.pkgSel(x.Fun); p + "." + s {
				case "time.Sleep":
					f.used[string(f.src[f.off(x.Fun.Pos()):f.off(x.Fun.End())])] = true
					f.edit(f.off(x.Fun.Pos()), f.off(x.Fun.End()), "zzvrt.Sleep")
				case "runtime.Gosched":
					f.used[string(f.src[f.off(x.Fun.Pos()):f.off(x.Fun.End())])] = true
					f.edit(f.off(x.Fun.Pos()), f.off(x.Fun.End()), "zzvrt.Gosched")
				}
			}
		case *ast.GoStmt:
			sites++
			c := x.Call
			if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
				if _, ok := f.info.Uses[id].(*types.Builtin); ok {
					f.edit(f.off(x.Pos()), f.off(c.Pos()), "zzvrt.Go(func() { ")
					f.insert(c.End(), " })")
					return
				}
			}
			fn := "zzvrt.GoCall("
			if c.Ellipsis.IsValid() {
				fn = "zzvrt.GoCallV("
				f.edit(f.off(c.Ellipsis), f.off(c.Ellipsis)+3, "")
			}
			f.edit(f.off(x.Pos()), f.off(c.Fun.Pos()), fn)
			sep := ""
			if len(c.Args) > 0 {
				sep = ", "
			}
			f.edit(f.off(c.Lparen), f.off(c.Lparen)+1, sep)
		case *ast.ForStmt:
			f.insert(x.Body.Lbrace+1, " zzvrt.Loop(); ")
		case *ast.RangeStmt:
			if !isChan(f.info.Types[x.X].Type) {
				f.insert(x.Body.Lbrace+1, " zzvrt.Loop(); ")
				return
			}
			sites++
			n++
			v := fmt.Sprintf("zzr%d", n)
			text := fmt.Sprintf("for %s := zzvrt.RangeCh(%s); %s.Next(); ", v, f.render(f.off(x.X.Pos()), f.off(x.X.End())), v)
			asg := ""
			if x.Key != nil {
				asg = f.render(f.off(x.Key.Pos()), f.off(x.Key.End())) + " " + x.Tok.String() + " " + v + ".V; "
			}
			f.edit(f.off(x.For), f.off(x.Body.Lbrace), text)
			f.insert(x.Body.Lbrace+1, asg+" zzvrt.Loop(); ")
		case *ast.SelectStmt:
			sites++
			n++
			v := fmt.Sprintf("zzs%d", n)
			def := false
			i := 0
			var args []string
			for _, s := range x.Body.List {
				cc := s.(*ast.CommClause)
				if cc.Comm == nil {
					def = true
					f.edit(f.off(cc.Case), f.off(cc.Colon), "case -1")
					continue
				}
				r := func(e ast.Node) string { return f.render(f.off(e.Pos()), f.off(e.End())) }
				body := ""
				switch c := cc.Comm.(type) {
				case *ast.SendStmt:
					args = append(args, "zzvrt.CaseSend("+r(c.Chan)+")("+r(c.Value)+")")
				case *ast.ExprStmt:
					ch := ast.Unparen(c.X).(*ast.UnaryExpr).X
					args = append(args, "zzvrt.CaseRecv("+r(ch)+")")
				case *ast.AssignStmt:
					ch := ast.Unparen(c.Rhs[0]).(*ast.UnaryExpr).X
					args = append(args, "zzvrt.CaseRecv("+r(ch)+")")
					if len(c.Lhs) == 2 {
						body = r(c.Lhs[0]) + ", " + r(c.Lhs[1]) + " " + c.Tok.String() + " zzvrt.SelVal2(" + r(ch) + ", " + v + "); "
					} else {
						body = r(c.Lhs[0]) + " " + c.Tok.String() + " zzvrt.SelVal(" + r(ch) + ", " + v + "); "
					}
				}
				f.edit(f.off(cc.Case), f.off(cc.Colon)+1, fmt.Sprintf("case %d: %s", i, body))
				i++
			}
			a := fmt.Sprint(def)
			for _, s := range args {
				a += ", " + s
			}
			f.edit(f.off(x.Select), f.off(x.Body.Lbrace), fmt.Sprintf("switch %s := zzvrt.Select(%s); %s.I ", v, a, v))
		}
	}
	for _, d := range f.f.Decls {
		walk(d)
	}
}
