// Command instr copies the working tree of /repo (and two of its dependencies)
// into a scratch directory and instruments the copy for the simulator:
//
//   - a yield point before every statement;
//   - package sync replaced by simsync, time.Now and friends by the simulated
//     clock, os/log/ioutil/fmt.Print by the simulated file system and streams;
//   - every iteration over a map (range, reflect MapKeys/MapRange, package
//     maps) made to take its order from the simulator;
//   - go statements and channel operations handed to the simulator;
//   - package-level state resettable, so that every run starts cold;
//   - the main packages made importable.
//
// All edits keep line numbers. Nothing in /repo is touched.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
)

const modPath = "github.com/lestrrat-go/jsval"

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	Standard   bool
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	ImportMap  map[string]string
	Module     *struct {
		Path string
		Dir  string
	}
	Error *struct{ Err string }
}

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

var (
	fset  = token.NewFileSet()
	sites []site
)

func fail(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "source tree")
	out := flag.String("out", "", "scratch directory")
	mods := flag.String("mods", "", "directories holding a fallback go.mod/go.sum, comma separated")
	level := flag.Int("level", 3, "3 all, 2 without channels/atomics/reflect iteration, 1 yields+sync+os, 0 sync+os")
	flag.Parse()
	if *out == "" {
		fail("-out missing")
	}
	dst := filepath.Join(*out, "jsval")
	if err := copyTree(*repo, dst); err != nil {
		fail("copy: %v", err)
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		if _, err := os.Stat(filepath.Join(dst, f)); err == nil {
			continue
		}
		ok := false
		for _, d := range strings.Split(*mods, ",") {
			if d == "" {
				continue
			}
			if b, err := os.ReadFile(filepath.Join(d, f)); err == nil {
				if err := os.WriteFile(filepath.Join(dst, f), b, 0644); err != nil {
					fail("%v", err)
				}
				ok = true
				break
			}
		}
		if !ok {
			fail("no %s", f)
		}
	}

	pkgs := goList(dst)
	targets, checked := typeCheck(pkgs)

	// dependencies: map order and file access only
	deps := map[string]bool{"github.com/lestrrat-go/jsschema": true, "github.com/lestrrat-go/jsref": true}
	var done []string
	for _, p := range pkgs {
		t := checked[p.ImportPath]
		switch {
		case targets[p.ImportPath]:
			rel, _ := filepath.Rel(dst, p.Dir)
			in := &instr{pkg: p, files: t.files, info: t.info, tpkg: t.pkg, level: *level, yields: *level >= 1, reset: true, rel: rel}
			in.run(p.Dir)
			t.files = in.files
			done = append(done, p.ImportPath)
			if p.Name == "main" {
				relocate(dst, p, t)
			}
		case deps[p.ImportPath] && p.Module != nil:
			name := filepath.Base(p.ImportPath)
			d := filepath.Join(*out, name)
			os.MkdirAll(d, 0755)
			for _, f := range p.GoFiles {
				b, err := os.ReadFile(filepath.Join(p.Dir, f))
				if err != nil {
					fail("%v", err)
				}
				os.WriteFile(filepath.Join(d, f), b, 0644)
			}
			copySub(p.Dir, d)
			if _, err := os.Stat(filepath.Join(d, "go.mod")); err != nil {
				os.WriteFile(filepath.Join(d, "go.mod"), []byte("module "+p.ImportPath+"\n\ngo 1.20\n"), 0644)
			}
			in := &instr{pkg: p, files: t.files, info: t.info, tpkg: t.pkg, level: *level, rel: "../" + name}
			in.run(d)
		}
	}
	b, _ := json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), b, 0644); err != nil {
		fail("%v", err)
	}
	fmt.Printf("instr: %d packages, %d yield points, level %d\n", len(done), len(sites), *level)
}

// copySub copies the importable subpackages of a dependency unchanged.
func copySub(src, dst string) {
	filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if rel != "." && (fi.Name() == "cmd" || strings.HasPrefix(fi.Name(), ".")) {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0755)
		}
		if !strings.Contains(rel, "/") || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err == nil {
			os.WriteFile(filepath.Join(dst, rel), b, 0644)
		}
		return nil
	})
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if fi.Name() == ".git" || fi.Name() == "zsim" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0755)
		}
		if !fi.Mode().IsRegular() || strings.HasSuffix(p, "_test.go") || fi.Size() > 4<<20 {
			return nil
		}
		in, err := os.Open(p)
		if err != nil {
			return err
		}
		defer in.Close()
		o, err := os.Create(filepath.Join(dst, rel))
		if err != nil {
			return err
		}
		if _, err := io.Copy(o, in); err != nil {
			o.Close()
			return err
		}
		return o.Close()
	})
}

func goList(dir string) []*pkgInfo {
	cmd := exec.Command("go", "list", "-deps", "-json=ImportPath,Dir,Name,Standard,GoFiles,CgoFiles,Imports,ImportMap,Module,Error", "./...")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fail("go list: %v", err)
	}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	var l []*pkgInfo
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fail("go list output: %v", err)
		}
		if p.Error != nil {
			fail("%s: %s", p.ImportPath, p.Error.Err)
		}
		l = append(l, p)
	}
	return l
}

type checkedPkg struct {
	pkg   *types.Package
	files []*ast.File
	info  *types.Info
	err   error
}

type mapImporter struct {
	m    map[string]*checkedPkg
	imap map[string]string
}

func (mi mapImporter) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p, ok := mi.imap[path]; ok {
		path = p
	}
	if c, ok := mi.m[path]; ok && c.pkg != nil {
		return c.pkg, nil
	}
	return nil, fmt.Errorf("package %s not loaded", path)
}

func typeCheck(pkgs []*pkgInfo) (map[string]bool, map[string]*checkedPkg) {
	targets := map[string]bool{}
	res := map[string]*checkedPkg{}
	full := map[string]bool{}
	for _, p := range pkgs {
		if p.ImportPath == modPath || strings.HasPrefix(p.ImportPath, modPath+"/") {
			targets[p.ImportPath] = true
		}
		if p.Module != nil {
			full[p.ImportPath] = true
		}
		res[p.ImportPath] = &checkedPkg{}
	}
	// parse everything in parallel
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	for _, p := range pkgs {
		if p.ImportPath == "unsafe" {
			continue
		}
		wg.Add(1)
		go func(p *pkgInfo) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			c := res[p.ImportPath]
			mode := parser.ParseComments
			if !full[p.ImportPath] {
				mode = parser.SkipObjectResolution
			}
			for _, f := range p.GoFiles {
				af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, mode)
				if err != nil && c.err == nil {
					c.err = err
				}
				if af != nil {
					c.files = append(c.files, af)
				}
			}
		}(p)
	}
	wg.Wait()
	// go list -deps prints dependencies first; check in waves
	doneCh := map[string]chan struct{}{}
	for _, p := range pkgs {
		doneCh[p.ImportPath] = make(chan struct{})
	}
	var mu sync.RWMutex
	for _, p := range pkgs {
		wg.Add(1)
		go func(p *pkgInfo) {
			defer wg.Done()
			defer close(doneCh[p.ImportPath])
			if p.ImportPath == "unsafe" {
				return
			}
			for _, i := range p.Imports {
				if m, ok := p.ImportMap[i]; ok {
					i = m
				}
				if ch, ok := doneCh[i]; ok {
					<-ch
				}
			}
			sem <- struct{}{}
			defer func() { <-sem }()
			mu.RLock()
			c := res[p.ImportPath]
			mu.RUnlock()
			conf := types.Config{
				Importer:         mapImporter{res, p.ImportMap},
				IgnoreFuncBodies: !full[p.ImportPath],
				FakeImportC:      true,
				Error:            func(err error) {},
			}
			if full[p.ImportPath] {
				c.info = &types.Info{
					Types:      map[ast.Expr]types.TypeAndValue{},
					Uses:       map[*ast.Ident]types.Object{},
					Defs:       map[*ast.Ident]types.Object{},
					Selections: map[*ast.SelectorExpr]*types.Selection{},
				}
			}
			pkg, err := conf.Check(p.ImportPath, fset, c.files, c.info)
			c.pkg = pkg
			if err != nil && c.err == nil {
				c.err = err
			}
		}(p)
	}
	wg.Wait()
	for t := range targets {
		if err := res[t].err; err != nil {
			fail("%s does not type-check: %v", t, err)
		}
	}
	return targets, res
}

// relocate makes a main package importable as <module>/zsim/<name>.
func relocate(root string, p *pkgInfo, t *checkedPkg) {
	name := filepath.Base(p.ImportPath)
	d := filepath.Join(root, "zsim", name)
	if err := os.MkdirAll(d, 0755); err != nil {
		fail("%v", err)
	}
	for i, f := range p.GoFiles {
		b, err := os.ReadFile(filepath.Join(p.Dir, f))
		if err != nil {
			fail("%v", err)
		}
		off := fset.Position(t.files[i].Name.Pos()).Offset
		s := string(b[:off]) + "zsim_" + strings.Map(func(r rune) rune {
			if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' {
				return r
			}
			return '_'
		}, name) + string(b[off+len("main"):])
		if i == 0 {
			s += "\n\n// SimMain runs main in the simulator.\nfunc SimMain() { main() }\n"
		}
		if err := os.WriteFile(filepath.Join(d, f), []byte(s), 0644); err != nil {
			fail("%v", err)
		}
	}
}

// --- edits -------------------------------------------------------------------

type edit struct {
	off, end int
	text     string
	seq      int
	closing  bool
}

type fileEdits struct {
	src   []byte
	edits []edit
}

func (fe *fileEdits) add(off, end int, text string) {
	fe.edits = append(fe.edits, edit{off, end, text, len(fe.edits), false})
}

// close adds text that ends something begun earlier.
func (fe *fileEdits) close(off int, text string) {
	fe.edits = append(fe.edits, edit{off, off, text, len(fe.edits), true})
}

// apply renders src[a:b] with the edits inside it.
func (fe *fileEdits) apply(a, b int) string {
	l := make([]edit, 0, len(fe.edits))
	for _, e := range fe.edits {
		if e.off >= a && e.end <= b {
			l = append(l, e)
		}
	}
	sort.SliceStable(l, func(i, j int) bool {
		if l[i].off != l[j].off {
			return l[i].off < l[j].off
		}
		// closing insertions first, inner before outer
		if l[i].closing != l[j].closing {
			return l[i].closing
		}
		if l[i].closing {
			return l[i].seq > l[j].seq
		}
		return l[i].seq < l[j].seq
	})
	var sb strings.Builder
	pos := a
	for _, e := range l {
		if e.off < pos {
			continue // overlapping edit, dropped
		}
		sb.Write(fe.src[pos:e.off])
		sb.WriteString(e.text)
		pos = e.end
	}
	sb.Write(fe.src[pos:b])
	return sb.String()
}

type instr struct {
	pkg    *pkgInfo
	files  []*ast.File
	info   *types.Info
	tpkg   *types.Package
	level  int
	yields bool
	reset  bool
	rel    string
	inits  []string          // init functions
	zeros  []string          // variables without initialiser
	vars   map[string]string // variable to the function that initialises it
	varN   int
}

var simosNames = set("File", "Open", "Create", "OpenFile", "ReadFile", "WriteFile", "Remove", "RemoveAll", "Rename", "Stat", "Lstat", "Mkdir", "MkdirAll", "CreateTemp", "MkdirTemp", "TempDir", "Chmod", "Truncate", "ReadDir", "Exit", "Args", "Stdin", "Stdout", "Stderr", "Getwd", "Symlink", "Link", "Readlink", "SameFile")
var simlogNames = set("Print", "Printf", "Println", "Fatal", "Fatalf", "Fatalln", "Panic", "Panicf", "Panicln", "SetFlags", "SetPrefix", "SetOutput", "Logger", "New", "Default", "Writer", "Flags", "Prefix", "Output")
var simioNames = set("Pipe", "PipeReader", "PipeWriter")
var simioutilNames = set("ReadFile", "WriteFile", "TempFile", "TempDir", "ReadDir")
var timeNames = set("Now", "Since", "Until", "Sleep")
var envNames = set("Getpid", "Getppid", "Getuid", "Geteuid", "Getgid", "Hostname", "Executable", "UserHomeDir", "LookupEnv", "Getenv", "Environ")
var runtimeNames = set("NumCPU", "GOMAXPROCS", "NumGoroutine")
var randNames = set("Int", "Intn", "Int31", "Int31n", "Int63", "Int63n", "Uint32", "Uint64", "Float32", "Float64", "NormFloat64", "ExpFloat64", "Perm", "Shuffle", "Read", "Seed")
var randv2Names = set("Int", "IntN", "Int32", "Int32N", "Int64", "Int64N", "Uint", "UintN", "Uint32", "Uint32N", "Uint64", "Uint64N", "Float32", "Float64", "Perm", "Shuffle")
var crandNames = set("Read", "Reader", "Int", "Text")
var fmtNames = set("Print", "Printf", "Println")
var mapsNames = set("Keys", "Values", "All")

func set(l ...string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

func (in *instr) run(dir string) {
	for i, f := range in.files {
		path := filepath.Join(dir, in.pkg.GoFiles[i])
		src, err := os.ReadFile(path)
		if err != nil {
			fail("%v", err)
		}
		text := in.file(f, in.pkg.GoFiles[i], src)
		if err := os.WriteFile(path, []byte(text), 0644); err != nil {
			fail("%v", err)
		}
	}
	if in.reset {
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nimport zsimrt \"verif.local/simkit/simrt\"\n\n", in.pkg.Name)
		sb.WriteString("func zsimReset() {\n")
		emit := func(l []string) {
			for _, s := range l {
				sb.WriteString("\t" + s + "\n")
			}
		}
		emit(in.zeros)
		for _, ini := range in.info.InitOrder {
			for _, v := range ini.Lhs {
				if fn := in.vars[v.Name()]; fn != "" {
					sb.WriteString("\t" + fn + "()\n")
					break
				}
			}
		}
		emit(in.inits)
		sb.WriteString("}\n\n")
		fmt.Fprintf(&sb, "func init() { zsimrt.RegisterReset(%q, zsimReset) }\n", in.pkg.ImportPath)
		if err := os.WriteFile(filepath.Join(dir, "zsim_reset.go"), []byte(sb.String()), 0644); err != nil {
			fail("%v", err)
		}
		in.pkg.GoFiles = append(in.pkg.GoFiles, "zsim_reset.go")
		// keep files parallel for relocate
		af, err := parser.ParseFile(fset, filepath.Join(dir, "zsim_reset.go"), nil, 0)
		if err != nil {
			fail("%v", err)
		}
		in.files = append(in.files, af)
	}
}

func (in *instr) pkgName(id *ast.Ident) string {
	if in.info == nil {
		return ""
	}
	if pn, ok := in.info.Uses[id].(*types.PkgName); ok {
		return pn.Imported().Path()
	}
	return ""
}

func (in *instr) file(f *ast.File, name string, src []byte) string {
	fe := &fileEdits{src: src}
	tf := fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	need := map[string]bool{} // imports used by edits
	keep := map[string]bool{} // original imports that may become unused: use expression

	newSite := func(pos token.Pos, fn string) int {
		id := len(sites) + 1
		sites = append(sites, site{id, filepath.Join(in.rel, name), tf.Line(pos), fn})
		return id
	}

	// imports
	localName := map[string]string{}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		n := ""
		if im.Name != nil {
			n = im.Name.Name
		}
		switch path {
		case "sync":
			if in.yields || in.reset {
				if n == "" {
					n = "sync"
				}
				fe.add(off(im.Pos()), off(im.End()), n+` "verif.local/simkit/simsync"`)
			}
		default:
			if n == "" {
				n = filepath.Base(path)
			}
			localName[path] = n
		}
	}
	use := func(path, expr string) {
		if n := localName[path]; n != "" && n != "." && n != "_" {
			keep[fmt.Sprintf(expr, n)] = true
		}
	}

	fname := ""
	var visitBlock func(list []ast.Stmt, fn string)
	visitBlock = func(list []ast.Stmt, fn string) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			need["simrt"] = true
			fe.add(off(s.Pos()), off(s.Pos()), fmt.Sprintf("zsimrt.Y(%d); ", newSite(s.Pos(), fn)))
		}
	}

	isMap := func(e ast.Expr) bool {
		tv, ok := in.info.Types[e]
		if !ok || tv.Type == nil {
			return false
		}
		_, ok = tv.Type.Underlying().(*types.Map)
		return ok
	}
	isChan := func(e ast.Expr) bool {
		tv, ok := in.info.Types[e]
		if !ok || tv.Type == nil {
			return false
		}
		_, ok = tv.Type.Underlying().(*types.Chan)
		return ok
	}
	isBlank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || ok && id.Name == "_"
	}

	itN := 0
	rangeStmt := func(s *ast.RangeStmt) {
		switch {
		case isMap(s.X):
			need["simrt"] = true
			itN++
			it := fmt.Sprintf("zit%d", itN)
			var head, nxt string
			k, v := !isBlank(s.Key), !isBlank(s.Value)
			switch {
			case s.Tok == token.ASSIGN && (k || v):
				id := func(e ast.Expr) bool { _, ok := e.(*ast.Ident); return ok }
				if k && !id(s.Key) || v && !id(s.Value) {
					return
				}
				head = it + ", _, _ := zsimrt.RangeMap2("
				switch {
				case k && v:
					nxt = fmt.Sprintf("%s.Next2(&%s, &%s)", it, txt(s.Key), txt(s.Value))
				case k:
					nxt = fmt.Sprintf("%s.NextK(&%s)", it, txt(s.Key))
				default:
					nxt = fmt.Sprintf("%s.NextV(&%s)", it, txt(s.Value))
				}
			case k && v:
				head = fmt.Sprintf("%s, %s, %s := zsimrt.RangeMap2(", it, txt(s.Key), txt(s.Value))
				nxt = fmt.Sprintf("%s.Next2(&%s, &%s)", it, txt(s.Key), txt(s.Value))
			case k:
				head = fmt.Sprintf("%s, %s := zsimrt.RangeMapK(", it, txt(s.Key))
				nxt = fmt.Sprintf("%s.NextK(&%s)", it, txt(s.Key))
			case v:
				head = fmt.Sprintf("%s, %s := zsimrt.RangeMapV(", it, txt(s.Value))
				nxt = fmt.Sprintf("%s.NextV(&%s)", it, txt(s.Value))
			default:
				head = fmt.Sprintf("%s := zsimrt.RangeMap0(", it)
				nxt = it + ".Next()"
			}
			start := off(s.For) + len("for")
			fe.add(start, off(s.X.Pos()), " "+head)
			fe.close(off(s.X.End()), "); "+nxt+"; ")
		case isChan(s.X) && in.yields && in.level >= 3:
			need["simrt"] = true
			itN++
			it := fmt.Sprintf("zit%d", itN)
			v := "zch"
			tok := ":="
			if !isBlank(s.Key) {
				v = txt(s.Key)
				if s.Tok == token.ASSIGN {
					return
				}
			}
			start := off(s.For) + len("for")
			if v == "zch" {
				fe.add(start, off(s.X.Pos()), fmt.Sprintf(" %s, zch %s zsimrt.RangeChan(", it, tok))
			} else {
				fe.add(start, off(s.X.Pos()), fmt.Sprintf(" %s, %s %s zsimrt.RangeChan(", it, v, tok))
			}
			fe.close(off(s.X.End()), fmt.Sprintf("); %s.Next(&%s); ", it, v))
		}
	}

	recv2 := map[ast.Expr]bool{}
	later := map[*ast.CallExpr]bool{} // called by a defer or go statement: must not become an argument
	inComm := map[ast.Node]bool{}
	selN := 0

	var inspect func(n ast.Node) bool
	inspect = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			fname = x.Name.Name
			if x.Recv != nil && len(x.Recv.List) > 0 {
				fname = strings.TrimPrefix(txt(x.Recv.List[0].Type), "*") + "." + fname
			}
		case *ast.BlockStmt:
			if in.yields {
				visitBlock(x.List, fname)
			}
		case *ast.CaseClause:
			if in.yields {
				visitBlock(x.Body, fname)
			}
		case *ast.CommClause:
			if in.yields {
				visitBlock(x.Body, fname)
			}
		case *ast.ForStmt:
			if in.yields && len(x.Body.List) == 0 {
				need["simrt"] = true
				fe.add(off(x.Body.Rbrace), off(x.Body.Rbrace), fmt.Sprintf("zsimrt.Y(%d);", newSite(x.Body.Rbrace, fname)))
			}
		case *ast.RangeStmt:
			rangeStmt(x)
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok {
				break
			}
			redirect := func(to string) {
				fe.add(off(id.Pos()), off(id.End()), to)
			}
			switch in.pkgName(id) {
			case "os":
				if in.reset && envNames[x.Sel.Name] {
					need["simenv"] = true
					use("os", "%s.DevNull")
					redirect("zsimenv")
				} else if simosNames[x.Sel.Name] {
					need["simos"] = true
					use("os", "%s.DevNull")
					redirect("zsimos")
				}
			case "io":
				if simioNames[x.Sel.Name] {
					need["simio"] = true
					use("io", "%s.EOF")
					redirect("zsimio")
				}
			case "log":
				if simlogNames[x.Sel.Name] {
					need["simlog"] = true
					use("log", "%s.LstdFlags")
					redirect("zsimlog")
				}
			case "io/ioutil":
				if simioutilNames[x.Sel.Name] {
					need["simioutil"] = true
					use("io/ioutil", "%s.Discard")
					redirect("zsimioutil")
				}
			case "time":
				if in.reset && timeNames[x.Sel.Name] {
					need["simrt"] = true
					use("time", "%s.Second")
					redirect("zsimrt")
				}
			case "runtime":
				if in.reset && runtimeNames[x.Sel.Name] {
					need["simenv"] = true
					use("runtime", "%s.GC")
					redirect("zsimenv")
				}
			case "math/rand":
				if in.reset && randNames[x.Sel.Name] {
					need["simenv"] = true
					use("math/rand", "%s.NewSource")
					fe.add(off(x.Pos()), off(x.End()), "zsimenv.R"+x.Sel.Name)
				}
			case "math/rand/v2":
				if in.reset && randv2Names[x.Sel.Name] {
					need["simenv"] = true
					use("math/rand/v2", "%s.NewPCG")
					fe.add(off(x.Pos()), off(x.End()), "zsimenv.W"+x.Sel.Name)
				}
			case "crypto/rand":
				if in.reset && crandNames[x.Sel.Name] {
					need["simenv"] = true
					use("crypto/rand", "%s.Reader")
					fe.add(off(x.Pos()), off(x.End()), "zsimenv.C"+x.Sel.Name)
				}
			case "fmt":
				if in.reset && fmtNames[x.Sel.Name] {
					need["simos"] = true
					use("fmt", "%s.Sprint")
					redirect("zsimos")
				}
			case "maps":
				if mapsNames[x.Sel.Name] {
					need["simrt"] = true
					use("maps", "%s.Clone[map[int]int]")
					fe.add(off(x.Pos()), off(x.End()), "zsimrt.Maps"+x.Sel.Name)
				}
			}
		case *ast.DeferStmt:
			later[x.Call] = true
		case *ast.CallExpr:
			sel, ok := x.Fun.(*ast.SelectorExpr)
			if !ok || later[x] {
				break
			}
			if s := in.info.Selections[sel]; s != nil && s.Kind() == types.MethodVal {
				if fn, ok := s.Obj().(*types.Func); ok {
					switch fn.FullName() {
					case "(reflect.Value).MapKeys":
						need["simrt"] = true
						fe.add(off(x.Pos()), off(x.Pos()), "zsimrt.ReflectKeys(")
						fe.close(off(x.End()), ")")
					case "(reflect.Value).MapRange":
						if in.level >= 3 {
							need["simrt"] = true
							fe.add(off(x.Pos()), off(x.Pos()), "zsimrt.ReflectRange(")
							fe.add(off(sel.X.End()), off(x.End()), ")")
						}
					}
				}
			}
			// yield after an atomic operation inside an expression
			if in.yields && in.level >= 3 {
				if obj, ok := in.info.Uses[sel.Sel].(*types.Func); ok && obj.Pkg() != nil && obj.Pkg().Path() == "sync/atomic" {
					if tv, ok := in.info.Types[x]; ok && tv.IsValue() {
						need["simrt"] = true
						fe.add(off(x.Pos()), off(x.Pos()), "zsimrt.YV(")
						fe.close(off(x.End()), ")")
					}
				}
			}
		case *ast.GoStmt:
			later[x.Call] = true
			if !in.yields {
				break
			}
			need["simrt"] = true
			if len(x.Call.Args) == 0 {
				if _, ok := x.Call.Fun.(*ast.FuncLit); ok {
					fe.add(off(x.Go), off(x.Call.Fun.Pos()), "zsimrt.Go(")
					fe.add(off(x.Call.Fun.End()), off(x.Call.End()), ")")
					break
				}
			}
			el := x.Call.Ellipsis != token.NoPos
			fe.add(off(x.Go), off(x.Call.Fun.Pos()), fmt.Sprintf("zsimrt.GoCall(%t, ", el))
			fe.add(off(x.Call.Fun.End()), off(x.Call.Lparen)+1, ", ")
			if el {
				fe.add(off(x.Call.Ellipsis), off(x.Call.Ellipsis)+3, "")
			}
		case *ast.SelectStmt:
			if !in.yields || in.level < 3 {
				break
			}
			def := false
			for _, c := range x.Body.List {
				if c.(*ast.CommClause).Comm == nil {
					def = true
				}
			}
			for _, c := range x.Body.List {
				if cc := c.(*ast.CommClause); cc.Comm != nil {
					ast.Inspect(cc.Comm, func(n ast.Node) bool {
						if n != nil {
							inComm[n] = true
						}
						return true
					})
				}
			}
			if !def {
				need["simrt"] = true
				selN++
				v := fmt.Sprintf("zsel%d", selN)
				fe.add(off(x.Pos()), off(x.Pos()), fmt.Sprintf("%s := zsimrt.SelectEnter(); ", v))
				for _, c := range x.Body.List {
					cc := c.(*ast.CommClause)
					fe.add(off(cc.Colon)+1, off(cc.Colon)+1, fmt.Sprintf(" zsimrt.SelectExit(%s); ", v))
				}
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					recv2[u] = true
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && in.yields && in.level >= 3 && !inComm[x] {
				need["simrt"] = true
				fn := "Recv"
				if recv2[x] {
					fn = "Recv2"
				}
				fe.add(off(x.OpPos), off(x.X.Pos()), "zsimrt."+fn+"(")
				fe.close(off(x.End()), ")")
			}
		case *ast.SendStmt:
			if in.yields && in.level >= 3 && !inComm[x] {
				need["simrt"] = true
				fe.add(off(x.Pos()), off(x.Pos()), "zsimrt.Send(")
				fe.add(off(x.Arrow), off(x.Arrow)+2, ", ")
				fe.close(off(x.End()), ")")
			}
		}
		return true
	}
	for _, d := range f.Decls {
		fname = "init"
		ast.Inspect(d, inspect)
	}

	var tail []string
	if in.reset {
		embed := false
		for _, im := range f.Imports {
			if im.Path.Value == `"embed"` {
				embed = true
			}
		}
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.Name == "init" && x.Body != nil {
					in.varN++
					nn := fmt.Sprintf("zsimInit%d", in.varN)
					fe.add(off(x.Name.Pos()), off(x.Name.End()), nn)
					tail = append(tail, fmt.Sprintf("func init() { %s() }", nn))
					in.inits = append(in.inits, nn+"()")
				}
			case *ast.GenDecl:
				if x.Tok != token.VAR || embed {
					continue
				}
				for _, sp := range x.Specs {
					vs := sp.(*ast.ValueSpec)
					in.varSpec(fe, vs, off, &tail, need)
				}
			}
		}
	}

	// imports on the package clause line, uses at the end
	head := ""
	var imps []string
	for k := range need {
		imps = append(imps, k)
	}
	sort.Strings(imps)
	for _, k := range imps {
		head += fmt.Sprintf("; import z%s %q", k, "verif.local/simkit/"+k)
	}
	fe.add(off(f.Name.End()), off(f.Name.End()), head)
	var uses []string
	for k := range keep {
		uses = append(uses, k)
	}
	sort.Strings(uses)
	res := fe.apply(0, len(src))
	res += "\n"
	for _, u := range uses {
		res += "\nvar _ = " + u + "\n"
	}
	for _, t := range tail {
		res += "\n" + t + "\n"
	}
	return res
}

// varSpec adds functions that give package variables their initial value.
func (in *instr) varSpec(fe *fileEdits, vs *ast.ValueSpec, off func(token.Pos) int, tail *[]string, need map[string]bool) {
	if in.vars == nil {
		in.vars = map[string]string{}
	}
	fn := func(body string, names ...string) string {
		in.varN++
		n := fmt.Sprintf("zsimVar%d", in.varN)
		*tail = append(*tail, fmt.Sprintf("func %s() { %s }", n, body))
		for _, v := range names {
			if v != "_" {
				in.vars[v] = n
			}
		}
		return n
	}
	switch {
	case len(vs.Values) == 0:
		for _, n := range vs.Names {
			if n.Name != "_" {
				need["simrt"] = true
				in.zeros = append(in.zeros, fn(fmt.Sprintf("zsimrt.Zero(&%s)", n.Name))+"()")
			}
		}
	case len(vs.Values) == len(vs.Names):
		for i, n := range vs.Names {
			if n.Name != "_" {
				fn(fmt.Sprintf("%s = %s", n.Name, fe.apply(off(vs.Values[i].Pos()), off(vs.Values[i].End()))), n.Name)
			}
		}
	default:
		var l []string
		for _, n := range vs.Names {
			l = append(l, n.Name)
		}
		fn(fmt.Sprintf("%s = %s", strings.Join(l, ", "), fe.apply(off(vs.Values[0].Pos()), off(vs.Values[0].End()))), l...)
	}
}
