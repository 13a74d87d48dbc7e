package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/nanobus/iota/go"

type genOpts struct {
	repo, verif, out string
	world            string // harness main package (directory under harness/)
	universes        int
}

var noYPkgs = map[string]bool{
	modPath + "/msgpack": true, modPath + "/msgpack/convert": true, modPath + "/transform": true,
	modPath + "/internal/strbytes": true,
}

func copyFile(dst, src string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
		return err
	}
	return os.WriteFile(dst, b, 0o644)
}

func copyTree(dst, src string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		return copyFile(filepath.Join(dst, rel), p)
	})
}

func goEnv(o *genOpts) []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		switch {
		case strings.HasPrefix(e, "GOWORK="), strings.HasPrefix(e, "GOFLAGS="), strings.HasPrefix(e, "GOPROXY="), strings.HasPrefix(e, "GO111MODULE="):
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOWORK="+filepath.Join(o.out, "go.work"), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
}

func run(dir string, env []string, w io.Writer, name string, args ...string) error {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = env
	var eb bytes.Buffer
	c.Stdout = w
	c.Stderr = &eb
	if err := c.Run(); err != nil {
		return fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, eb.String())
	}
	return nil
}

// parseImports lists the imports of a directory tree of Go files.
func parseImports(dirs ...string) (map[string]bool, error) {
	m := map[string]bool{}
	fset := token.NewFileSet()
	for _, d := range dirs {
		err := filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
				return err
			}
			f, err := parser.ParseFile(fset, p, nil, parser.ImportsOnly)
			if err != nil {
				return err
			}
			for _, im := range f.Imports {
				s, _ := strconv.Unquote(im.Path.Value)
				m[s] = true
			}
			return nil
		})
		if err != nil {
			return nil, err
		}
	}
	return m, nil
}

func inModule(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }
func isHarness(p string) bool {
	return p == modPath+"/zverif" || strings.HasPrefix(p, modPath+"/zverif/")
}

// atLeast120 lifts the language version: what replaces ranges over maps has type
// parameters that interface keys satisfy since then. Nothing else differs.
func atLeast120(mod []byte) []byte {
	return regexp.MustCompile(`(?m)^go 1\.1[0-9](\.[0-9]+)?$`).ReplaceAll(mod, []byte("go 1.20"))
}

func gen(o *genOpts) (bin string, nSites int, err error) {
	m := filepath.Join(o.out, "m")
	fset := token.NewFileSet()
	gm, err := os.ReadFile(filepath.Join(o.repo, "go.mod"))
	if err != nil {
		return
	}
	if err = write(filepath.Join(m, "go.mod"), atLeast120(gm)); err != nil {
		return
	}
	if err = copyFile(filepath.Join(m, "go.sum"), filepath.Join(o.repo, "go.sum")); err != nil {
		return
	}
	use := []string{"./m", "./h", "./sim", "./fakewazero"}
	for _, d := range []string{"sim", "fakewazero"} {
		if err = copyTree(filepath.Join(o.out, d), filepath.Join(o.verif, d)); err != nil {
			return
		}
	}
	if err = copyTree(filepath.Join(o.out, "h"), filepath.Join(o.verif, "harness")); err != nil {
		return
	}
	// the guest program and a copy of the adapter for the guests
	if err = copyTree(filepath.Join(o.out, "guestapp"), filepath.Join(o.verif, "harness", "guestapp")); err != nil {
		return
	}
	ab, err := os.ReadFile(filepath.Join(o.verif, "harness", "adapt", "adapt.go"))
	if err != nil {
		return
	}
	ab = bytes.Replace(ab, []byte("package adapt\n"), []byte("package zguest\n"), 1)
	if err = write(filepath.Join(o.out, "guestapp", "adapt.go"), ab); err != nil {
		return
	}
	if b, e := os.ReadFile(filepath.Join(o.repo, "types/uuid/go.mod")); e == nil {
		_ = os.MkdirAll(filepath.Join(m, "types/uuid"), 0o755)
		if err = os.WriteFile(filepath.Join(m, "types/uuid/go.mod"), atLeast120(b), 0o644); err != nil {
			return
		}
		use = append(use, "./m/types/uuid")
	}
	work := "go 1.26\n\nuse (\n"
	for _, u := range use {
		work += "\t" + u + "\n"
	}
	work += ")\n"
	if err = os.WriteFile(filepath.Join(o.out, "go.work"), []byte(work), 0o644); err != nil {
		return
	}
	// roots
	hdirs := []string{filepath.Join(o.out, "h", o.world), filepath.Join(o.out, "h", "hlib"), filepath.Join(o.out, "h", "adapt")}
	roots, err := parseImports(hdirs...)
	if err != nil {
		return
	}
	pkgs := map[string]*pkgSrc{}  // host variant
	gpkgs := map[string]*pkgSrc{} // guest variant
	var order, gorder []*pkgSrc
	ext := map[string]bool{}
	var load func(path string, guest bool, trail []string) error
	load = func(path string, guest bool, trail []string) error {
		set, tags := pkgs, map[string]bool{"linux": true, "amd64": true, "unix": true, "gc": true}
		if guest {
			set = gpkgs
			tags["tinygo.wasm"] = true
		}
		if _, ok := set[path]; ok {
			return nil
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
		dir := filepath.Join(o.repo, rel)
		if guest && rel == "zguest" {
			dir = filepath.Join(o.out, "guestapp")
		}
		p, err := loadPkg(fset, dir, path, tags)
		if err != nil {
			return err
		}
		if p == nil {
			return fmt.Errorf("package %s has no files", path)
		}
		p.rel, p.guest, p.noY = rel, guest, noYPkgs[path]
		if guest { // printed by instrument, needed only for type-checking
			f, err := parser.ParseFile(fset, "zz_u.go", "package "+p.files[0].Name.Name+"\nconst zzUniverse = 0\n", 0)
			if err != nil {
				return err
			}
			p.extra = f
		}
		p.goVer = "go1.19"
		set[path] = p
		for _, d := range p.deps {
			if inModule(d) {
				if err := load(d, guest, append(trail, path)); err != nil {
					return err
				}
			} else if d != "unsafe" {
				ext[d] = true
			}
		}
		if guest {
			gorder = append(gorder, p)
		} else {
			order = append(order, p)
		}
		return nil
	}
	var rl []string
	for r := range roots {
		if inModule(r) && !isHarness(r) && !strings.Contains(r, "/vg") {
			rl = append(rl, r)
		}
	}
	sort.Strings(rl)
	for _, r := range rl {
		if err = load(r, false, nil); err != nil {
			return
		}
	}
	if o.universes > 0 {
		if err = load(modPath+"/zguest", true, nil); err != nil {
			return
		}
	}
	// export data for everything outside the module
	var el []string
	for e := range ext {
		el = append(el, e)
	}
	sort.Strings(el)
	var lb bytes.Buffer
	env := goEnv(o)
	if err = run(m, env, &lb, "go", append([]string{"list", "-export", "-deps", "-f", "{{if .Export}}{{.ImportPath}} {{.Export}}{{end}}"}, el...)...); err != nil {
		return
	}
	exp := map[string]string{}
	for _, l := range strings.Split(lb.String(), "\n") {
		if a, b, ok := strings.Cut(l, " "); ok {
			exp[a] = b
		}
	}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exp[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	in := &instr{fset: fset, modPath: modPath, repo: o.repo, sites: []string{"(harness)"}}
	for _, set := range []struct {
		order []*pkgSrc
		m     map[string]*pkgSrc
		guest bool
	}{{order, pkgs, false}, {gorder, gpkgs, true}} {
		imp := impFunc(func(path string) (*types.Package, error) {
			if path == "unsafe" {
				return types.Unsafe, nil
			}
			if p, ok := set.m[path]; ok {
				return p.tpkg, nil
			}
			return gc.Import(path)
		})
		for _, p := range set.order {
			if err = p.check(fset, imp); err != nil {
				return
			}
		}
		for _, p := range set.order {
			var files map[string][]byte
			files, err = in.instrument(p, func(s string) string {
				if set.guest && inModule(s) {
					return modPath + "/ZZVG" + strings.TrimPrefix(s, modPath)
				}
				return s
			})
			if err != nil {
				return
			}
			if !set.guest {
				for n, b := range files {
					if err = write(filepath.Join(m, p.rel, n), b); err != nil {
						return
					}
				}
				continue
			}
			for u := 0; u < o.universes; u++ {
				vg := fmt.Sprintf("vg%d", u)
				for n, b := range files {
					b = bytes.ReplaceAll(b, []byte("ZZVG"), []byte(vg))
					b = bytes.ReplaceAll(b, []byte("ZZUNIVERSE"), []byte(strconv.Itoa(u)))
					if err = write(filepath.Join(m, vg, p.rel, n), b); err != nil {
						return
					}
				}
			}
		}
	}
	// site table and universe list for the harness main package
	var sb strings.Builder
	sb.WriteString("package main\n\nimport \"vsim\"\n")
	for u := 0; u < o.universes; u++ {
		fmt.Fprintf(&sb, "import _ \"%s/vg%d/zguest\"\n", modPath, u)
	}
	fmt.Fprintf(&sb, "\nconst zzUniverses = %d\n\nfunc init() { vsim.RegisterSites(zzSites) }\n\nvar zzSites = []string{\n", o.universes)
	for _, s := range in.sites {
		fmt.Fprintf(&sb, "\t%q,\n", s)
	}
	sb.WriteString("}\n")
	if err = write(filepath.Join(o.out, "h", o.world, "zz_sites.go"), []byte(sb.String())); err != nil {
		return
	}
	bin = filepath.Join(o.out, o.world+".bin")
	err = run(filepath.Join(o.out, "h"), env, os.Stderr, "go", "build", "-trimpath", "-o", bin, "./"+o.world)
	return bin, len(in.sites), err
}

func write(p string, b []byte) error {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		return err
	}
	return os.WriteFile(p, b, 0o644)
}

var _ = ast.Inspect
