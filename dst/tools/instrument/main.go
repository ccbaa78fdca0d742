// instrument makes the copies of the system under test that the simulator
// links: N independent copies of open-match.dev/core (one per simulated process
// incarnation, so that every incarnation has its own package-level state), and
// one copy of the MMF server, the sample functions and the sample matchmaker.
//
// The copy is textual. The only edits are: (1) the import path of the copied
// module, (2) `package main` becomes an importable package with an exported
// entry point, and (3) a scheduling point `__dst.Y(site);` is inserted before
// every statement of every function body. A scheduling point only lets the
// simulator run another goroutine (or stall this one); it does not change what
// the statement does. Two things that one statement does in several steps get a
// scheduling point between those: (4) reading, changing and writing back a
// variable that goroutines may share (x++, x += y, x = append(x, y)), and (5)
// accesses to maps, which the Go runtime ends the process for if they overlap
// (__dst.Map).
//
// usage: instrument REPO OUTDIR NCORE [BASELINE], or instrument -baseline REPO
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

var (
	sites   []string
	siteID  = map[string]int{}
	written = map[string]bool{}
	root0   string
	hot     []string
)

type module struct {
	src    string // directory in the repository
	oldMod string
	newMod string
	dst    string
	entry  string // exported entry point for a main package
	pkg    string // package name given to a main package
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "-baseline" {
		for _, h := range baseline(os.Args[2], []string{"core", "mmf", "functions", "matchmaker-example"}) {
			fmt.Println(h)
		}
		return
	}
	repo, out := os.Args[1], os.Args[2]
	if len(os.Args) > 4 {
		loadBaseline(os.Args[4])
	}
	root0 = repo
	n, err := strconv.Atoi(os.Args[3])
	check(err)
	var mods []module
	for i := 0; i < n; i++ {
		mods = append(mods, module{
			src: filepath.Join(repo, "core"), oldMod: "open-match.dev/core",
			newMod: fmt.Sprintf("open-match.dev/core%d", i),
			dst:    filepath.Join(out, fmt.Sprintf("core%d", i)), entry: "DSTMain", pkg: fmt.Sprintf("core%d", i),
		})
	}
	single := []struct{ dir, mod string }{
		{"mmf/server", "open-match.dev/mmf/server"},
		{"functions/golang/soloduel", "open-match.dev/functions/golang/soloduel"},
		{"functions/golang/battleroyale", "open-match.dev/functions/golang/battleroyale"},
		{"functions/golang/teamshooter", "open-match.dev/functions/golang/teamshooter"},
		{"matchmaker-example", "open-match.dev/matchmaker-sample"},
		{"mmf", "open-match.dev/mmf"},
	}
	for _, s := range single {
		mods = append(mods, module{src: filepath.Join(repo, s.dir), oldMod: s.mod, newMod: s.mod,
			dst: filepath.Join(out, strings.ReplaceAll(s.dir, "/", "_")), entry: "DSTMain", pkg: "dstmain"})
	}
	for _, m := range mods {
		check(m.copy())
	}

	// Glue module.
	var b bytes.Buffer
	b.WriteString("package insts\n\nimport (\n")
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "\tcore%d \"open-match.dev/core%d\"\n", i, i)
	}
	b.WriteString("\texample \"open-match.dev/matchmaker-sample\"\n\tmmfmain \"open-match.dev/mmf\"\n\t\"open-match.dev/mmf/server\"\n\t\"open-match.dev/functions/golang/soloduel\"\n\t\"open-match.dev/functions/golang/battleroyale\"\n\t\"open-match.dev/functions/golang/teamshooter\"\n)\n\n// Core holds the entry point of each copy of om-core.\nvar Core = []func(){\n")
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "\tcore%d.DSTMain,\n", i)
	}
	b.WriteString("}\n\n// Example is the sample matchmaker.\nvar Example = example.DSTMain\nvar _ = mmfmain.DSTMain\n\n// GetChunked is the library function that reads a chunked request.\nvar GetChunked = server.GetChunkedRequest\n\n// MMF starts a sample matchmaking function on a port.\nvar MMF = map[string]func(int32){\n\t\"soloduel\": func(p int32) { server.StartServer(p, &soloduel.MmfServer{}) },\n\t\"battleroyale\": func(p int32) { server.StartServer(p, &battleroyale.MmfServer{}) },\n\t\"teamshooter\": func(p int32) { server.StartServer(p, &teamshooter.MmfServer{}) },\n}\n\n// Sites names every scheduling point.\nvar Sites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t%q,\n", s)
	}
	b.WriteString("}\n\n// Hot are the scheduling points in or next to changed code.\nvar Hot = []string{\n")
	for _, s := range hot {
		fmt.Fprintf(&b, "\t%q,\n", s)
	}
	b.WriteString("}\n")
	put(filepath.Join(out, "insts", "insts.go"), b.Bytes())
	put(filepath.Join(out, "insts", "go.mod"), []byte("module verif.local/insts\n\ngo 1.21\n"))

	// Workspace.
	var w bytes.Buffer
	w.WriteString("go 1.27\n\nuse (\n")
	dirs := []string{filepath.Join(repo, "pkg/api/v2"), filepath.Join(repo, "pkg/pb/v2"), filepath.Join(out, "insts")}
	for _, m := range mods {
		dirs = append(dirs, m.dst)
	}
	self, err := filepath.Abs(".")
	check(err)
	dirs = append(dirs, self)
	for _, d := range dirs {
		fmt.Fprintf(&w, "\t%s\n", d)
	}
	w.WriteString(")\n\nreplace go.opentelemetry.io/otel/exporters/prometheus => " + filepath.Join(out, "otelprom") + "\n")
	for _, m := range []string{"pkg/api/v2", "pkg/pb/v2"} {
		// Versioned, since core/go.mod asks for this placeholder version.
		fmt.Fprintf(&w, "replace open-match.dev/%s v2.0.0-00010101000000-000000000000 => %s\n", m, filepath.Join(repo, m))
	}
	put(filepath.Join(out, "go.work"), w.Bytes())
	if s, err := os.ReadFile(filepath.Join(repo, "go.work.sum")); err == nil {
		put(filepath.Join(out, "go.work.sum"), s)
	}
	// Patched copy of the otel prometheus exporter: a registry per call
	// instead of the process-wide default registry, because several simulated
	// processes share this one.
	check(copyOtelProm(filepath.Join(out, "otelprom")))
	// Remove files of earlier builds.
	filepath.Walk(out, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && !written[p] && !keep(out, p) {
			os.Remove(p)
		}
		return nil
	})
}

func keep(out, p string) bool {
	r, _ := filepath.Rel(out, p)
	return strings.HasPrefix(r, "std/") || strings.HasPrefix(r, "bin/") || r == "go.work.sum"
}

// otelExtra gives every simulated process its own default registry.
const otelExtra = `

var (
	dstMu   sync.Mutex
	dstRegs = map[int32]*prometheus.Registry{}
)

func dstRegistry() prometheus.Registerer {
	dstMu.Lock()
	defer dstMu.Unlock()
	r := prometheus.NewRegistry()
	dstRegs[runtime.DSTGetNode()] = r
	return r
}

type dstGatherer struct{}

func (dstGatherer) Gather() ([]*dto.MetricFamily, error) {
	dstMu.Lock()
	r := dstRegs[runtime.DSTGetNode()]
	dstMu.Unlock()
	if r == nil {
		return nil, nil
	}
	return r.Gather()
}

func init() { prometheus.DefaultGatherer = dstGatherer{} }
`

func copyOtelProm(dst string) error {
	home, err := os.UserHomeDir()
	check(err)
	cache := os.Getenv("GOMODCACHE")
	if cache == "" {
		cache = filepath.Join(home, "go/pkg/mod")
	}
	src := filepath.Join(cache, "go.opentelemetry.io/otel/exporters/prometheus@v0.46.0")
	es, err := os.ReadDir(src)
	check(err)
	patched := false
	for _, e := range es {
		if e.IsDir() || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, e.Name()))
		check(err)
		if e.Name() == "config.go" {
			old := "cfg.registerer = prometheus.DefaultRegisterer"
			if strings.Count(string(b), old) != 1 {
				return fmt.Errorf("otel prometheus exporter: unexpected source")
			}
			b = []byte(strings.ReplaceAll(string(b), old, "cfg.registerer = dstRegistry()"))
			b = append(b, otelExtra...)
			b = bytes.Replace(b, []byte("import ("), []byte("import (\n\t\"runtime\"\n\t\"sync\"\n\tdto \"github.com/prometheus/client_model/go\""), 1)
			patched = true
		}
		put(filepath.Join(dst, e.Name()), b)
	}
	if !patched {
		return fmt.Errorf("otel prometheus exporter not found")
	}
	return nil
}

func (m module) copy() error {
	skip := map[string]bool{}
	collectMaps(m.src)
	return filepath.Walk(m.src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(m.src, p)
		if fi.IsDir() {
			if rel != "." {
				// nested modules are separate; the generated packages come from /repo/pkg
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
				if strings.HasPrefix(fi.Name(), ".") || fi.Name() == "testdata" {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if !fi.Mode().IsRegular() || skip[p] || fi.Size() > 4<<20 {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		to := filepath.Join(m.dst, rel)
		switch {
		case strings.HasSuffix(p, "_test.go"):
			return nil
		case rel == "go.mod":
			b = m.gomod(b)
		case strings.HasSuffix(p, ".go"):
			b, err = m.goFile(rel, b)
			if err != nil {
				return err
			}
		}
		put(to, b)
		return nil
	})
}

var replBlock = regexp.MustCompile(`(?ms)^replace\s*\(.*?^\)\s*$|^replace\s+[^(\n]*$`)

func (m module) gomod(b []byte) []byte {
	s := replBlock.ReplaceAllString(string(b), "")
	s = regexp.MustCompile(`(?m)^toolchain.*$`).ReplaceAllString(s, "")
	s = strings.Replace(s, "module "+m.oldMod, "module "+m.newMod, 1)
	return []byte(s)
}

type edit struct {
	at   int
	del  int
	text string
}

func (m module) goFile(rel string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var eds []edit
	isMain := f.Name.Name == "main"
	if isMain {
		eds = append(eds, edit{off(f.Name.Pos()), 4, m.pkg})
	}
	for _, im := range f.Imports {
		v, _ := strconv.Unquote(im.Path.Value)
		if m.oldMod != m.newMod && (v == m.oldMod || strings.HasPrefix(v, m.oldMod+"/")) {
			eds = append(eds, edit{off(im.Path.Pos()), len(im.Path.Value), strconv.Quote(m.newMod + v[len(m.oldMod):])})
		}
	}
	nYield := 0
	var hl map[int]bool
	site := func(p token.Pos, suffix string) int {
		// Site names do not depend on the copy.
		name := fmt.Sprintf("%s/%s:%d%s", m.oldMod, rel, fset.Position(p).Line, suffix)
		id, ok := siteID[name]
		if !ok {
			id = len(sites)
			siteID[name] = id
			sites = append(sites, name)
			if hl[fset.Position(p).Line] {
				hot = append(hot, name)
			}
		}
		return id
	}
	relRepo, _ := filepath.Rel(root0, filepath.Join(m.src, rel))
	hl = hotLines(relRepo, src)
	var sc scope
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			at := off(s.Pos())
			eds = append(eds, edit{at, 0, fmt.Sprintf("__dst.Y(%d); ", site(s.Pos(), ""))})
			nYield++
			for _, a := range mapAccesses(s) {
				eds = append(eds, edit{at, 0, fmt.Sprintf("__dst.Map(%s, %v, %d); ", src[off(a.x.Pos()):off(a.x.End())], a.write, site(s.Pos(), "m"))})
			}
			if r, ok := s.(*ast.RangeStmt); ok && mapName(r.X) && len(r.Body.List) > 0 {
				eds = append(eds, edit{off(r.Body.List[0].Pos()), 0, fmt.Sprintf("__dst.Map(%s, false, %d); ", src[off(r.X.Pos()):off(r.X.End())], site(s.Pos(), "m"))})
			}
			if x := rmw(s, sc, func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }); x != nil {
				t := fmt.Sprintf("__t%d", at)
				xs := string(src[off(x.Pos()):off(x.End())])
				eds = append(eds, edit{at, len(xs), fmt.Sprintf("{ %s := %s; %s", t, xs, t)})
				eds = append(eds, edit{off(s.End()), 0, fmt.Sprintf("; __dst.Y(%d); %s = %s }", site(s.Pos(), "w"), xs, t)})
			}
		}
	}
	hasMain := false
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok && isMain && fd.Recv == nil && fd.Name.Name == "main" {
			hasMain = true
		}
		if ok && fd.Recv == nil && fd.Name.Name == "init" {
			continue
		}
		sc = scopeOf(d)
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.CommClause:
				stmts(n.Body)
			}
			return true
		})
	}
	if nYield > 0 {
		at := off(f.Name.End())
		eds = append(eds, edit{at, 0, "; import __dst \"verif.local/dst/rt\""})
	}
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].at < eds[j].at })
	var out bytes.Buffer
	pos := 0
	for _, e := range eds {
		out.Write(src[pos:e.at])
		out.WriteString(e.text)
		pos = e.at + e.del
	}
	out.Write(src[pos:])
	if hasMain {
		fmt.Fprintf(&out, "\n\nfunc %s() { main() }\n", m.entry)
	}
	return out.Bytes(), nil
}

func put(p string, b []byte) {
	written[p] = true
	if old, err := os.ReadFile(p); err == nil && bytes.Equal(old, b) {
		return
	}
	check(os.MkdirAll(filepath.Dir(p), 0o755))
	check(os.WriteFile(p, b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
}
