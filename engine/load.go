package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/square/finch"

// overlayFiles maps files of the harness tree into the repository's module. A file
// PKG/into/DIR/x.go becomes a file of the repository's package DIR.
func overlayFiles(repo, hdir string) (map[string]string, error) {
	out := map[string]string{}
	if r, err := filepath.EvalSymlinks(hdir); err == nil {
		hdir = r
	}
	err := filepath.Walk(hdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(hdir, p)
		if pkg, sub, ok := strings.Cut(filepath.ToSlash(rel), "/into/"); ok {
			dir, f := filepath.Split(sub)
			out[filepath.Join(repo, dir, "zz_"+pkg+"_"+f)] = p
			return nil
		}
		out[filepath.Join(repo, "zzverif", rel)] = p
		return nil
	})
	return out, err
}

func loadProgram(repo, hdir, pkg string) (*ssa.Program, *ssa.Package, []*ssa.Package, error) {
	files, err := overlayFiles(repo, hdir)
	if err != nil {
		return nil, nil, nil, err
	}
	ov := map[string][]byte{}
	for dst, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, nil, nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		Overlay:    ov,
		BuildFlags: []string{"-tags=math_big_pure_go"},
		Env:        append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod"),
	}
	pkgs, err := packages.Load(cfg, modPath+"/zzverif/"+pkg)
	if err != nil {
		return nil, nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	if len(sp) == 0 || sp[0] == nil {
		return nil, nil, nil, fmt.Errorf("no package")
	}
	// finch packages in dependency order
	var order []*ssa.Package
	seen := map[string]bool{}
	var rec func(p *packages.Package)
	rec = func(p *packages.Package) {
		if seen[p.PkgPath] {
			return
		}
		seen[p.PkgPath] = true
		var ks []string
		for k := range p.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			rec(p.Imports[k])
		}
		if strings.HasPrefix(p.PkgPath, modPath) {
			if s := prog.Package(p.Types); s != nil {
				order = append(order, s)
			}
		}
	}
	rec(pkgs[0])
	return prog, sp[0], order, nil
}
