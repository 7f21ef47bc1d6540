package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Overlay describes the files laid over the repository for one property.
type Overlay struct {
	files  map[string]string // virtual path -> real path
	hPkg   string
	replay string // package path of the native replay command
	names  []string
}

func goEnv(verif string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GO") && !strings.HasPrefix(e, "GOCACHE=") && !strings.HasPrefix(e, "GOPATH=") {
			continue
		}
		env = append(env, e)
	}
	path := os.Getenv("PATH")
	if _, err := os.Stat("/opt/veriftools/go1.27.3/bin/go"); err == nil {
		path = "/opt/veriftools/go1.27.3/bin:" + path
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
		env = append(env, "HOME=/root")
	}
	return append(env, "PATH="+path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GOENV=off", "GOSUMDB=off",
		"GOWORK="+filepath.Join(verif, "harness", "go.work"), "LANG=C.UTF-8")
}

func loadProgram(repo, verif string, ov *Overlay, patterns []string) (*Program, []*ssa.Package, error) {
	over := map[string][]byte{}
	for v, r := range ov.files {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, nil, err
		}
		over[v] = b
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(verif), Overlay: over, Fset: fset}
	for _, e := range cfg.Env { // go list is resolved through our own PATH
		if strings.HasPrefix(e, "PATH=") {
			os.Setenv("PATH", e[5:])
		}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, roots := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{ssa: prog, fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]int32{}, pkgGlobs: map[*ssa.Package][]int32{},
		models: map[string]*ssa.Function{}, fset: fset, repoPath: repo}
	p.words = map[string][]string{}
	p.sizes = map[string][]int{}
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if strings.HasPrefix(pk.PkgPath, "github.com/youthlin/t") && !strings.Contains(pk.PkgPath, "/zzverif") && !strings.HasSuffix(pk.PkgPath, "/parser") {
			p.words[pk.PkgPath] = stringLiterals(pk.Syntax)
			p.sizes[pk.PkgPath] = intConstants(pk)
		}
	})
	for _, pk := range prog.AllPackages() {
		if strings.HasSuffix(pk.Pkg.Path(), "/zzverif/models") {
			for name, key := range modelTable {
				if f := pk.Func(name); f != nil {
					p.models[key] = f
				}
			}
		}
	}
	return p, roots, nil
}

// repoInitOrder lists the repository's packages (dependencies first).
func repoInitOrder(p *Program, roots []*ssa.Package) []*ssa.Package {
	var order []*ssa.Package
	seen := map[string]bool{}
	var rec func(path string)
	byPath := map[string]*ssa.Package{}
	for _, pk := range p.ssa.AllPackages() {
		byPath[pk.Pkg.Path()] = pk
	}
	rec = func(path string) {
		if seen[path] || !strings.HasPrefix(path, "github.com/youthlin/t") {
			return
		}
		seen[path] = true
		pk := byPath[path]
		if pk == nil {
			return
		}
		var imps []string
		for _, i := range pk.Pkg.Imports() {
			imps = append(imps, i.Path())
		}
		sort.Strings(imps)
		for _, i := range imps {
			rec(i)
		}
		order = append(order, pk)
	}
	for _, r := range roots {
		if r != nil {
			rec(r.Pkg.Path())
		}
	}
	return order
}

// modelTable maps model functions (Go code replacing library code) to the
// functions they stand for.
var modelTable = map[string]string{
	"BinaryRead":        "encoding/binary.Read",
	"BinaryWrite":       "encoding/binary.Write",
	"BinarySize":        "encoding/binary.Size",
	"SortSlice":         "sort.Slice",
	"SortSliceStable":   "sort.SliceStable",
	"SortSliceIsSorted": "sort.SliceIsSorted",
	"ErrorsIs":          "errors.Is",
	"ErrorsAs":          "errors.As",
	"SyncMapRange":      "(*sync.Map).Range",
	"Swapper":           "reflect.Swapper",
	"BinaryAppend":      "encoding/binary.Append",
	"BinaryEncode":      "encoding/binary.Encode",
	"BinaryDecode":      "encoding/binary.Decode",
	"NewFile":           "os.NewFile",
	"Stat":              "os.Stat",
	"Lstat":             "os.Lstat",
	"OpenFile":          "os.OpenFile",
	"ReadFile":          "os.ReadFile",
	"WriteFile":         "os.WriteFile",
	"ReadDir":           "os.ReadDir",
	"MkdirAll":          "os.MkdirAll",
	"Remove":            "os.Remove",
	"Exit":              "os.Exit",
	"Redirect":          "github.com/youthlin/t/zzverif/sym.Redirect",
	"FileRead":          "(*os.File).Read",
	"FileReadAt":        "(*os.File).ReadAt",
	"FileWrite":         "(*os.File).Write",
	"FileWriteString":   "(*os.File).WriteString",
	"FileReadFrom":      "(*os.File).ReadFrom",
	"FileWriteTo":       "(*os.File).WriteTo",
	"FileClose":         "(*os.File).Close",
	"FileSync":          "(*os.File).Sync",
	"FileStat":          "(*os.File).Stat",
	"FileName":          "(*os.File).Name",
	"FileReadDir":       "(*os.File).ReadDir",
	"FileReaddirnames":  "(*os.File).Readdirnames",
	"FileReaddir":       "(*os.File).Readdir",
	"Now":               "time.Now",
}

// stringLiterals lists the string literals of a package.
func stringLiterals(files []*ast.File) []string {
	seen := map[string]bool{}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				if n.Tag != nil {
					return false
				}
			case *ast.BasicLit:
				if n.Kind == token.STRING {
					if s, err := strconv.Unquote(n.Value); err == nil {
						seen[s] = true
					}
				} else if n.Kind == token.CHAR {
					if s, err := strconv.Unquote(n.Value); err == nil {
						seen[s] = true
					}
				}
			}
			return true
		})
	}
	list := make([]string, 0, len(seen))
	for s := range seen {
		list = append(list, s)
	}
	sort.Strings(list)
	return list
}

// intConstants gives the values of all constant integer expressions of a package.
func intConstants(pk *packages.Package) []int {
	seen := map[int]bool{}
	for _, tv := range pk.TypesInfo.Types {
		if tv.Value == nil || tv.Value.Kind() != constant.Int {
			continue
		}
		if v, ok := constant.Int64Val(tv.Value); ok && v > 0 && v < 1<<24 {
			seen[int(v)] = true
		}
	}
	list := make([]int, 0, len(seen))
	for v := range seen {
		list = append(list, v)
	}
	sort.Ints(list)
	return list
}
