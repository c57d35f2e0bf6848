// Command rangegen writes a build overlay in which every range over a map in the code generator and
// in the package it is built on goes through verif/mc/vmap, and adds the command cmd/verifgen, which runs the
// checker with access to the generator: rangegen MODFILE REPO OUT_DIR. It writes OUT_DIR/overlay.json, a copy of
// github.com/alxarch/meta in OUT_DIR/meta and adds a replacement of that module to MODFILE.
package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
)

//go:embed verifgen.go.txt
var verifgen []byte

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
}

func main() {
	modfile, repo, out := os.Args[1], os.Args[2], os.Args[3]
	if err := run(modfile, repo, out); err != nil {
		fmt.Fprintln(os.Stderr, "rangegen:", err)
		os.Exit(1)
	}
}

func run(modfile, repo, out string) error {
	const gen = "github.com/alxarch/njson/internal/generator"
	cmd := exec.Command("go", "list", "-modfile="+modfile, "-deps", "-export", "-json=ImportPath,Dir,Export,GoFiles", gen)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		return err
	}
	pkgs := map[string]*pkg{}
	for dec := json.NewDecoder(bytes.NewReader(b)); ; {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		pkgs[p.ImportPath] = p
	}
	replace := map[string]string{}
	add := func(path string, text []byte) error {
		dst := filepath.Join(out, fmt.Sprintf("f%d.go", len(replace)))
		replace[path] = dst
		return os.WriteFile(dst, text, 0o644)
	}
	for _, path := range []string{gen, "github.com/alxarch/meta"} {
		p := pkgs[path]
		if p == nil {
			continue
		}
		add := add
		if path != gen {
			// files of the module cache cannot be replaced by an overlay
			dir := filepath.Join(out, "meta")
			if err := os.Mkdir(dir, 0o755); err != nil {
				return err
			}
			if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+path+"\n\ngo 1.13\n"), 0o644); err != nil {
				return err
			}
			f, err := os.OpenFile(modfile, os.O_APPEND|os.O_WRONLY, 0)
			if err != nil {
				return err
			}
			fmt.Fprintf(f, "\nreplace %s => %s\n", path, dir)
			if err := f.Close(); err != nil {
				return err
			}
			add = func(path string, text []byte) error {
				return os.WriteFile(filepath.Join(dir, filepath.Base(path)), text, 0o644)
			}
		}
		fset := token.NewFileSet()
		var files []*ast.File
		var texts [][]byte
		for _, name := range p.GoFiles {
			text, err := os.ReadFile(filepath.Join(p.Dir, name))
			if err != nil {
				return err
			}
			f, err := parser.ParseFile(fset, name, text, parser.ParseComments)
			if err != nil {
				return err
			}
			files = append(files, f)
			texts = append(texts, text)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if p := pkgs[path]; p != nil && p.Export != "" {
				return os.Open(p.Export)
			}
			return nil, fmt.Errorf("no export data for %s", path)
		})}
		if _, err := conf.Check(path, fset, files, info); err != nil {
			return err
		}
		for i, f := range files {
			type edit struct {
				at   int
				text string
			}
			var edits []edit
			ast.Inspect(f, func(n ast.Node) bool {
				if r, ok := n.(*ast.RangeStmt); ok {
					if t := info.TypeOf(r.X); t != nil {
						if _, ok := t.Underlying().(*types.Map); ok {
							edits = append(edits, edit{fset.Position(r.X.Pos()).Offset, "verifvmap.All("}, edit{fset.Position(r.X.End()).Offset, ")"})
						}
					}
				}
				return true
			})
			if len(edits) == 0 {
				if path != gen {
					if err := add(p.GoFiles[i], texts[i]); err != nil {
						return err
					}
				}
				continue
			}
			edits = append(edits, edit{fset.Position(f.Name.End()).Offset, `; import verifvmap "verif/mc/vmap"`})
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].at > edits[j].at })
			text := string(texts[i])
			for _, e := range edits {
				text = text[:e.at] + e.text + text[e.at:]
			}
			if err := add(filepath.Join(p.Dir, p.GoFiles[i]), []byte("//go:build go1.23\n\n"+text)); err != nil {
				return err
			}
		}
	}
	if err := add(filepath.Join(repo, "cmd/verifgen/main.go"), verifgen); err != nil {
		return err
	}
	b, err = json.Marshal(map[string]interface{}{"Replace": replace})
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644)
}
