// Command schedgen writes a build overlay of a module in which packages sync and sync/atomic are
// replaced by their controlled stand-ins: schedgen MODULE_DIR OUT_DIR (writes OUT_DIR/overlay.json).
package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	root, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	err := filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			if n := info.Name(); path != root && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ImportsOnly)
		if err != nil {
			return err
		}
		text, changed := string(src), false
		for i := len(f.Imports) - 1; i >= 0; i-- {
			spec := f.Imports[i]
			p, _ := strconv.Unquote(spec.Path.Value)
			repl := ""
			switch p {
			case "sync":
				repl = `sync "verif/mc/vsync"`
			case "sync/atomic":
				repl = `atomic "verif/mc/vatomic"`
			default:
				continue
			}
			if spec.Name != nil {
				repl = repl[strings.IndexByte(repl, '"'):]
			}
			a, b := fset.Position(spec.Path.Pos()).Offset, fset.Position(spec.Path.End()).Offset
			text = text[:a] + repl + text[b:]
			changed = true
		}
		if changed {
			dst := filepath.Join(out, fmt.Sprintf("f%d.go", len(replace)))
			replace[path] = dst
			return os.WriteFile(dst, []byte(text), 0o644)
		}
		return nil
	})
	if err == nil {
		var b []byte
		b, err = json.Marshal(map[string]interface{}{"Replace": replace})
		if err == nil {
			err = os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644)
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
