package checks

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"verif/mc/core"
)

func init() {
	core.Register(&core.Property{ID: "C29", Level: "exhaustive", Families: gencliFamilies, Quick: 200, Thorough: 600,
		Assumptions: []string{
			"The command is built from the working tree and run as a process on scratch packages; what methods the options of the library ask for is decided by C26, here the command's output is compared with the library's for the options that its flags stand for.",
		}})
}

type cliPkg struct {
	name  string
	files map[string]string
	arg   string   // package argument
	types []string // structs, in order
	bad   bool     // the command has to fail
	out   string   // name of the output file
}

const cliMain = `package demo

import "time"

type A struct {
	X int ` + "`json:\"x\" db:\"dbx\"`" + `
	FieldName string
	low bool
	P *float64 ` + "`json:\",omitempty\"`" + `
}

type AB struct {
	T time.Time
	L []string ` + "`json:\"l\"`" + `
	skip int ` + "`json:\"-\" db:\"sk\"`" + `
}

type Kind int

type b_ struct { M map[string]A }

type B struct { A; Q float64 ` + "`db:\"q,omitempty\"`" + ` }

type Face interface { Foo() }
`

var cliPkgs = []cliPkg{
	{name: "one file", files: map[string]string{"main.go": cliMain}, types: []string{"A", "AB", "b_", "B"}, out: "demo_njson.go"},
	{name: "two files and tests", files: map[string]string{
		"a.go":      cliMain,
		"b.go":      "package demo\n\ntype C struct { A A; Z uint8 }\n",
		"a_test.go": "package demo\n\ntype T struct { X int }\n",
		"x_test.go": "package demo_test\n\ntype XT struct { X int }\n",
		"note.txt":  "type N struct {}",
	}, types: []string{"A", "AB", "b_", "B", "C"}, out: "demo_njson.go"},
	{name: "external tests", files: map[string]string{
		"a.go":      "package demo\n\ntype A struct { X int }\n",
		"x_test.go": "package demo_test\n\ntype XT struct { X int }\n\ntype A struct { Y int }\n",
	}, arg: "demo_test", types: []string{"XT", "A"}, out: "demo_njson_test.go"},
	{name: "package and directory differ", files: map[string]string{"a.go": "package other\n\ntype A struct { X int; B []B }\n\ntype B struct { Y string }\n"}, arg: "other", types: []string{"A", "B"}, out: "other_njson.go"},
	{name: "test in the middle of the name, generated in a comment", files: map[string]string{
		"a.go":      "// Package my_tests has types whose methods are generated by njson.\npackage my_tests\n\n// Code generated by njson is not in here.\n\ntype A struct { X int }\n",
		"b.go":      "package my_tests\n\n// Code that is not generated by njson\n\ntype B struct { Y string; A A }\n",
		"a_test.go": "package my_tests\n\ntype T struct { X int }\n",
	}, arg: "my_tests", types: []string{"A", "B"}, out: "my_tests_njson.go"},
	{name: "two packages and groups of types", files: map[string]string{
		"a.go": "package demo\n\ntype (\n\tA struct { X int }\n\tK uint\n\tB struct { A; Y K }\n)\n\nfunc f() {\n\ttype L struct { X int }\n}\n",
		"m.go": "package main\n\ntype M struct { X int }\n\ntype A struct { Y int }\n",
		"z.go": "package demo\n\ntype C A\n\ntype b_ []B\n\ntype AB map[string]struct { X int }\n",
	}, types: []string{"A", "B", "C"}, out: "demo_njson.go"},
	{name: "package name missing", files: map[string]string{"a.go": "package other\n\ntype A struct { X int }\n"}, bad: true},
	{name: "no structs", files: map[string]string{"a.go": "package demo\n\ntype Kind int\n\nvar x struct{}\n"}, bad: true},
	{name: "empty directory", files: map[string]string{}, bad: true},
	{name: "syntax error", files: map[string]string{"a.go": "package demo\n\ntype A struct { X int \n"}, bad: true},
	{name: "syntax error in one of two files", files: map[string]string{"a.go": "package demo\n\ntype A struct { X int }\n", "b.go": "package demo\n\nfunc {"}, bad: true},
	{name: "field that is not supported", files: map[string]string{"a.go": "package demo\n\ntype A struct { X int }\n\ntype B struct { X chan int; Y int }\n"}, types: []string{"A", "B"}, bad: true},
}

var cliPatterns = [][]string{nil, {"*"}, {"A"}, {"B"}, {"Missing"}, {".*"}, {"^A"}, {"_$"}, {"A|C"}, {"["}, {"A", "B"}, {"Missing", "^A"}, {"A", "["}, {"kind"}, {"XT", "T"}, {"b_", "C", "AB"}, {""}, {"Missing", ""}, {"^$"}}

var cliMethods = []string{"", "a", "u", "au"}

// cliWant returns the types that the arguments select.
func cliWant(all, patterns []string) (types []string, ok bool) {
	if len(patterns) == 0 {
		return all, true
	}
	for _, p := range patterns {
		if p == "*" {
			p = ""
		}
		if _, err := regexp.Compile(p); err != nil {
			return nil, false
		}
	}
	for _, typ := range all {
		for _, p := range patterns {
			if p == "*" || p == "" || p == typ || regexp.QuoteMeta(p) != p && regexp.MustCompile(p).MatchString(typ) {
				types = append(types, typ)
				break
			}
		}
	}
	return types, len(types) > 0
}

// cliDir fills the worker's scratch directory, named demo.
func cliDir(t *core.T, p cliPkg) string {
	dir := filepath.Join(gdScratch(t), "demo")
	if err := os.RemoveAll(dir); err != nil {
		panic(err)
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	for name, src := range p.files {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(src), 0o644); err != nil {
			panic(err)
		}
	}
	return dir
}

func cliList(dir string) string {
	var s []string
	files, err := os.ReadDir(dir)
	if err != nil {
		panic(err)
	}
	for _, f := range files {
		b, err := os.ReadFile(filepath.Join(dir, f.Name()))
		if err != nil {
			panic(err)
		}
		s = append(s, f.Name()+": "+string(b))
	}
	sort.Strings(s)
	return strings.Join(s, "\n----\n")
}

// cliRun runs the command.
func cliRun(t *core.T, dir, cwd string, args []string) (stdout, stderr string, ok bool) {
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_GEN"), "njson"), args...)
	cmd.Dir = cwd
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err := cmd.Run()
	t.Runs(1)
	t.Steps(1)
	if _, exited := err.(*exec.ExitError); err != nil && !exited {
		panic(err)
	}
	if strings.Contains(errs.String(), "panic: ") || strings.Contains(errs.String(), "fatal error: ") {
		t.Failf("%q: the command crashes: %.300s", args, errs.String())
	}
	return out.String(), errs.String(), err == nil
}

// cliMethodsOf lists the methods in a generated file, and checks that there is nothing else.
func cliMethodsOf(t *core.T, what, src, pkg string) (methods []string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "out.go", src, parser.ParseComments)
	if err != nil {
		t.Failf("%s: the output does not parse: %v", what, err)
	}
	if f.Name.Name != pkg {
		t.Failf("%s: the output is for package %s", what, f.Name.Name)
	}
	if !gdStamp.MatchString(src) {
		t.Failf("%s: no header in %.80q", what, src)
	}
	if nice, err := format.Source([]byte(src)); err != nil || strings.TrimSpace(string(nice)) != strings.TrimSpace(src) {
		t.Failf("%s: the output is not formatted", what)
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil || len(d.Recv.List) != 1 {
				t.Failf("%s: function %s in the output", what, d.Name.Name)
			}
			star, _ := d.Recv.List[0].Type.(*ast.StarExpr)
			if star == nil {
				t.Failf("%s: method %s has no pointer receiver", what, d.Name.Name)
			}
			methods = append(methods, star.X.(*ast.Ident).Name+"."+d.Name.Name)
		case *ast.GenDecl:
			if d.Tok != token.IMPORT {
				t.Failf("%s: declaration of %s in the output", what, d.Tok)
			}
		}
	}
	return
}

func checkCLISelect(t *core.T, c []byte) {
	p, patterns, methods, write, existing, where := cliPkgs[c[0]], cliPatterns[c[1]], cliMethods[c[2]], c[3]&1 != 0, c[3]&2 != 0, c[4]
	dir := cliDir(t, p)
	pkg := p.arg
	if pkg == "" {
		pkg = "demo"
	}
	old := "// Code generated by njson on Monday; DO NOT EDIT.\npackage " + pkg + "\n\nfunc (a *A) AppendJSON(out []byte) ([]byte, error) { return out, nil }\n" + strings.Repeat("\n// longer than what is written\n", 300)
	outFile := p.out
	if outFile == "" {
		outFile = pkg + "_njson.go"
	}
	if existing {
		if err := os.WriteFile(filepath.Join(dir, outFile), []byte(old), 0o644); err != nil {
			panic(err)
		}
	}
	before := cliList(dir)
	var args []string
	cwd := dir
	switch where {
	case 1:
		args, cwd = append(args, "-p", "demo"), filepath.Dir(dir)
	case 2:
		args, cwd = append(args, "-p", dir), "/"
	}
	if strings.Contains(methods, "a") {
		args = append(args, "-append")
	}
	if strings.Contains(methods, "u") {
		args = append(args, "-unmarshal")
	}
	if write {
		args = append(args, "-w")
	}
	if p.arg != "" || len(patterns) > 0 {
		args = append(args, pkg)
	}
	args = append(args, patterns...)
	want, ok := cliWant(p.types, patterns)
	if p.name == "field that is not supported" {
		ok = ok && (strings.Join(want, "") == "A" || methods == "u")
	} else if p.bad {
		ok = false
	}
	what := fmt.Sprintf("njson %s", strings.Join(args, " "))
	stdout, stderr, success := cliRun(t, dir, cwd, args)
	t.State(fmt.Sprint(ok, want, methods))
	if !ok {
		if success {
			t.Failf("%s: succeeds", what)
		}
		if stderr == "" {
			t.Failf("%s: fails without a message", what)
		}
		if stdout != "" {
			t.Failf("%s: fails but writes %.100q", what, stdout)
		}
		if after := cliList(dir); after != before {
			t.Failf("%s: fails but changes the directory: %s", what, firstDiff(before, after))
		}
		return
	}
	if !success {
		t.Failf("%s: fails: %.300s", what, stderr)
	}
	var wantMethods []string
	for _, typ := range want {
		if methods != "a" {
			wantMethods = append(wantMethods, typ+".UnmarshalNodeJSON")
		}
		if methods != "u" {
			wantMethods = append(wantMethods, typ+".AppendJSON")
		}
	}
	sort.Strings(wantMethods)
	src := stdout
	if write {
		if stdout != "" {
			t.Failf("%s: writes to standard output: %.100q", what, stdout)
		}
		b, err := os.ReadFile(filepath.Join(dir, outFile))
		if err != nil {
			t.Failf("%s: %v", what, err)
		}
		src = string(b)
	}
	got := cliMethodsOf(t, what, src, pkg)
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(wantMethods) {
		t.Failf("%s: methods %v, want %v", what, got, wantMethods)
	}
	// nothing else changes
	os.Remove(filepath.Join(dir, outFile))
	for name, text := range p.files {
		b, err := os.ReadFile(filepath.Join(dir, name))
		if err != nil || string(b) != text {
			t.Failf("%s: file %s changes", what, name)
		}
		os.Remove(filepath.Join(dir, name))
	}
	if rest := cliList(dir); rest != "" {
		t.Failf("%s: more files: %.100q", what, rest)
	}
	if existing && !write {
		return
	}
	// again, with the output in place
	if !write {
		return
	}
	dir = cliDir(t, p)
	if err := os.WriteFile(filepath.Join(dir, outFile), []byte(src), 0o644); err != nil {
		panic(err)
	}
	if _, stderr, success = cliRun(t, dir, cwd, args); !success {
		t.Failf("%s: fails with its own output in place: %.300s", what, stderr)
	}
	b, _ := os.ReadFile(filepath.Join(dir, outFile))
	if a, b := gdStamp.ReplaceAllString(src, ""), gdStamp.ReplaceAllString(string(b), ""); a != b {
		t.Failf("%s: another output with its own output in place: %s", what, firstDiff(a, b))
	}
}

var cliCases = []string{"", "none", "snake", "camel", "lower", "Camel"}
var cliMatch = []string{"", ".*", "^[A-Z]$", "Name|low"}
var cliKeys = []string{"", "json", "db"}

func checkCLIFlags(t *core.T, c []byte) {
	p := cliPkgs[0]
	dir := cliDir(t, p)
	var opt GenOptions
	var args []string
	form := c[4]
	add := func(name, val string) {
		switch form {
		case 0:
			args = append(args, "-"+name, val)
		default:
			args = append(args, "--"+name+"="+val)
		}
	}
	if c[0]&1 != 0 {
		opt.OnlyTagged = true
		args = append(args, "-only-tagged")
	}
	if c[0]&2 != 0 {
		opt.OnlyExported = true
		args = append(args, "-only-exported=true")
	}
	if c[0]&4 != 0 {
		opt.OmitEmpty = true
		args = append(args, "--omitempty")
	}
	if v := cliCases[c[1]]; v != "" {
		if add("case", v); v != "none" {
			opt.Case = v
		}
	}
	if v := cliMatch[c[2]]; v != "" {
		if add("match", v); v != ".*" {
			opt.Match = v
		}
	}
	if v := cliKeys[c[3]]; v != "" {
		add("k", v)
		opt.Tag = v
	}
	what := "njson " + strings.Join(args, " ")
	g, err := NewGenDir(dir, "demo", opt)
	if err != nil {
		panic(err)
	}
	wantErr := false
	var gs []string
	for _, typ := range []string{"A", "AB", "b_", "B"} {
		if g.WriteUnmarshaler(typ) != nil || g.WriteAppender(typ) != nil {
			wantErr = true
		}
		gs = append(gs, typ)
	}
	want, err := g.Print(false)
	if err != nil {
		t.Failf("%s: the library fails: %v", what, err)
	}
	stdout, stderr, ok := cliRun(t, dir, dir, args)
	t.State(gdStamp.ReplaceAllString(want, ""))
	if ok == wantErr {
		t.Failf("%s: succeeds: %v, library succeeds: %v (%.200s)", what, ok, !wantErr, stderr)
	}
	if wantErr {
		return
	}
	if a, b := gdStamp.ReplaceAllString(want, ""), gdStamp.ReplaceAllString(stdout, ""); a != b {
		t.Failf("%s: the output is not that of the library with options %+v: %s", what, opt, firstDiff(a, b))
	}
	// debug mode
	if c[4] == 0 {
		before := cliList(dir)
		stdout, stderr, ok := cliRun(t, dir, dir, append([]string{"-d", "-w"}, args...))
		if !ok || stdout != "" || !strings.Contains(stderr, "func (") || cliList(dir) != before {
			t.Failf("njson -d -w %s: succeeds %v, output %.50q, methods in messages %v, directory changed %v", strings.Join(args, " "), ok, stdout, strings.Contains(stderr, "func ("), cliList(dir) != before)
		}
	}
}

// command lines that must fail
var cliBad = [][]string{{"-match", "["}, {"-match", "(", "demo", "A"}, {"-unknown"}, {"-p"}, {"-p", "missing"}, {"-p", "a.go/x"}, {"missing"}, {"demo_test"}, {"-append=maybe"}, {"-w", "-match", "*"}, {"-w", "missing", "A"}, {"-w", "demo", "("}}

func checkCLIBad(t *core.T, c []byte) {
	dir := cliDir(t, cliPkg{files: map[string]string{"a.go": cliMain, "demo_njson.go": "// Code generated by njson on Monday; DO NOT EDIT.\npackage demo\n"}})
	before := cliList(dir)
	args := cliBad[c[0]]
	what := "njson " + strings.Join(args, " ")
	stdout, stderr, ok := cliRun(t, dir, dir, args)
	t.State(what)
	if ok || stderr == "" || stdout != "" || cliList(dir) != before {
		t.Failf("%s: succeeds %v, message %.100q, output %.50q, directory changed %v", what, ok, stderr, stdout, cliList(dir) != before)
	}
}

// checkCLIFull: what cannot be written ends with a message and a status, too.
func checkCLIFull(t *core.T, c []byte) {
	dir := cliDir(t, cliPkg{files: map[string]string{"a.go": cliMain}})
	args := []string{"demo"}
	full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		t.Failf("%v", err)
		return
	}
	defer full.Close()
	var out, errs bytes.Buffer
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_GEN"), "njson"))
	cmd.Dir, cmd.Stdout, cmd.Stderr = dir, full, &errs
	if c[0] > 0 { // a directory in the place of the output
		args = append([]string{"-w"}, args...)
		cmd.Stdout = &out
		if err := os.MkdirAll(filepath.Join(dir, "demo_njson.go", "x"), 0o755); err != nil {
			panic(err)
		}
	}
	if c[0] > 1 {
		args = append(args, "A")
	}
	cmd.Args = append(cmd.Args, args...)
	err = cmd.Run()
	t.Runs(1)
	t.Steps(1)
	t.State(fmt.Sprint(c))
	files, _ := os.ReadDir(dir)
	if err == nil || errs.Len() == 0 || strings.Contains(errs.String(), "panic: ") || out.Len() > 0 || len(files) != 1+min(int(c[0]), 1) {
		t.Failf("output that cannot be written: error %v, message %.200q, output %.50q, %d files", err, errs.String(), out.String(), len(files))
	}
}

func gencliFamilies(tier string) []core.Family {
	thorough := tier == "thorough"
	fam := func(name, rule string, enum func(emit func(c []byte) bool), check func(t *core.T, c []byte), show func(c []byte) string) core.Family {
		return core.Family{Name: name, Timeout: 2 * time.Minute, Variant: "gen", Heavy: true, Rule: rule, Enum: enum, Check: check, Show: show}
	}
	return []core.Family{
		fam("select", "12 packages x 19 lists of type patterns x 4 ways to choose methods x printed or written, with and without an earlier output in place, from 3 places (quick: fewer combinations)", func(emit func(c []byte) bool) {
			for p := range cliPkgs {
				for pat := range cliPatterns {
					for m := range cliMethods {
						for w := byte(0); w < 4; w++ {
							for where := byte(0); where < 3; where++ {
								if !thorough && (where != byte(p+pat+m)%3 || m != (int(w)+pat)%4 || p > 2 && int(w) != (p+pat/2)%4) {
									continue
								}
								if !emit([]byte{byte(p), byte(pat), byte(m), w, where}) {
									return
								}
							}
						}
					}
				}
			}
		}, checkCLISelect, func(c []byte) string {
			return fmt.Sprintf("package %q, types %q, methods %q, written %v, output in place %v, place %d", cliPkgs[c[0]].name, cliPatterns[c[1]], cliMethods[c[2]], c[3]&1 != 0, c[3]&2 != 0, c[4])
		}),
		fam("flags", "all settings of the three switches x 6 cases x 4 name filters x 3 tag keys x 2 notations (quick: one notation)", func(emit func(c []byte) bool) {
			for b := byte(0); b < 8; b++ {
				for k := range cliCases {
					for m := range cliMatch {
						for tag := range cliKeys {
							for f := byte(0); f < 2; f++ {
								if !thorough && (f != byte(k+m+tag+int(b))&1 || (k+m+tag+int(b))%3 != 0) {
									continue
								}
								if !emit([]byte{b, byte(k), byte(m), byte(tag), f}) {
									return
								}
							}
						}
					}
				}
			}
		}, checkCLIFlags, func(c []byte) string {
			return fmt.Sprintf("switches %03b, case %q, match %q, key %q, notation %d", c[0], cliCases[c[1]], cliMatch[c[2]], cliKeys[c[3]], c[4])
		}),
		fam("full", "standard output that takes nothing; a directory in the place of the output file, with and without a type given", func(emit func(c []byte) bool) {
			for i := byte(0); i < 3; i++ {
				emit([]byte{i})
			}
		}, checkCLIFull, func(c []byte) string { return fmt.Sprint("way ", c[0]) }),
		fam("bad", "12 command lines that must be refused", func(emit func(c []byte) bool) {
			for i := range cliBad {
				emit([]byte{byte(i)})
			}
		}, checkCLIBad, func(c []byte) string { return fmt.Sprintf("njson %q", cliBad[c[0]]) }),
	}
}
