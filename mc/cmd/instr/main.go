// Command instr rewrites the Go files of the repository so that every synchronisation operation
// goes through the scheduler (vsched) and shared memory accesses are recorded. The originals are
// not touched: the rewritten files go to a build directory and an overlay file for go build maps
// them onto the originals.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
)

const mod = "github.com/botlink/go-mavlink2"

var coreDialects = []string{"common", "ardupilotmega"}
var otherDialects = []string{"asluav", "autoquad", "icarous", "matrixpilot", "paparazzi", "slugs", "uAvionix", "ualberta"}

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(2)
}

func main() {
	out := flag.String("out", "", "directory for rewritten files")
	overlay := flag.String("overlay", "", "overlay file")
	mode := flag.String("mode", "core", "core or full")
	repo := flag.String("repo", "/repo", "repository")
	norace := flag.Bool("norace", false, "do not record memory accesses")
	flag.Parse()
	_ = repo
	var pats []string
	pats = append(pats, mod, mod+"/util")
	for _, d := range coreDialects {
		pats = append(pats, mod+"/"+d)
	}
	if *mode == "full" {
		for _, d := range otherDialects {
			pats = append(pats, mod+"/"+d)
		}
	}
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Standard"}, pats...)
	cmd := exec.Command("go", args...)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		fatal(fmt.Errorf("go list: %v\n%s", err, stderr.String()))
	}
	exports := map[string]string{}
	var mine []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == mod || strings.HasPrefix(p.ImportPath, mod+"/") {
			isDialect := false
			if *mode == "core" {
				for _, d := range coreDialects {
					if p.ImportPath == mod+"/"+d {
						isDialect = true
					}
				}
			}
			if !isDialect {
				mine = append(mine, p)
			}
		}
	}
	replace := map[string]string{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var firstErr error
	sem := make(chan bool, 8)
	for pi, p := range mine {
		wg.Add(1)
		go func(pi int, p *pkgInfo) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			m, err := rewrite(p, exports, *out, pi*100000, !*norace)
			mu.Lock()
			defer mu.Unlock()
			if err != nil && firstErr == nil {
				firstErr = fmt.Errorf("%s: %v", p.ImportPath, err)
			}
			for k, v := range m {
				replace[k] = v
			}
		}(pi, p)
	}
	wg.Wait()
	if firstErr != nil {
		fatal(firstErr)
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(*overlay, j, 0o644); err != nil {
		fatal(err)
	}
}

func rewrite(p *pkgInfo, exports map[string]string, out string, site int, race bool) (map[string]string, error) {
	fset := token.NewFileSet()
	var files []*ast.File
	var paths []string
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		// comments are dropped: they mean nothing to the compiler here (no cgo, no directives)
		a, err := parser.ParseFile(fset, path, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, a)
		paths = append(paths, path)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
	cfg := types.Config{Importer: imp, FakeImportC: true}
	tp, err := cfg.Check(p.ImportPath, fset, files, info)
	if err != nil {
		return nil, err
	}
	r := &rewriter{fset: fset, info: info, pkg: tp, site: site, race: race}
	res := map[string]string{}
	dir := filepath.Join(out, strings.ReplaceAll(p.ImportPath, "/", "_"))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	for i, f := range files {
		r.file(f)
		var buf bytes.Buffer
		buf.WriteString("//go:build go1.21\n\n")
		if err := (&printer.Config{Mode: printer.RawFormat, Tabwidth: 1}).Fprint(&buf, fset, f); err != nil {
			return nil, err
		}
		o := filepath.Join(dir, filepath.Base(paths[i]))
		if err := os.WriteFile(o, buf.Bytes(), 0o644); err != nil {
			return nil, err
		}
		res[paths[i]] = o
	}
	return res, nil
}
