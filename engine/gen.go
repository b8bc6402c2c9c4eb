package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

// Generated code as code under test: harness/gen/<id>/main.go runs the repository's generator (natively, from the
// working tree) and writes packages to a folder; they become packages internal/<name> of the overlay. Like goimports,
// which users run on generated files, imports that are not used are removed.

// genError tells that the generator failed or that what it generated is not valid Go.
type genError struct{ msg string }

func (e *genError) Error() string { return e.msg }

func generated(c *config, ov map[string][]byte) error {
	src := filepath.Join(c.verif, "harness", "gen", strings.ToLower(c.id), "main.go")
	b, err := os.ReadFile(src)
	if err != nil {
		return nil
	}
	tmp, err := os.MkdirTemp("", "zzgen")
	if err != nil {
		return err
	}
	defer os.RemoveAll(tmp)
	// the package's files as they are in the working tree, without the models of other packages
	m := filepath.Join(tmp, "main.go")
	os.WriteFile(m, b, 0o644)
	oj, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(c.repo, "internal", "zzgenmain", "main.go"): m}})
	os.WriteFile(filepath.Join(tmp, "overlay.json"), oj, 0o644)
	out := filepath.Join(tmp, "out")
	os.Mkdir(out, 0o755)
	bin := filepath.Join(tmp, "gen")
	build := exec.Command("go", "build", "-overlay", filepath.Join(tmp, "overlay.json"), "-o", bin, "./internal/zzgenmain")
	build.Dir, build.Env = c.repo, goEnv()
	if o, err := build.CombinedOutput(); err != nil {
		return fmt.Errorf("building the generator: %s", o)
	}
	run := exec.Command(bin, out)
	run.Dir, run.Env = tmp, goEnv()
	if o, err := run.CombinedOutput(); err != nil {
		return &genError{"the generator fails: " + string(bytes.TrimSpace(o))}
	}
	files, _ := filepath.Glob(filepath.Join(out, "*", "*.go"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(out, f)
		if b, err = usedImports(b); err != nil {
			return &genError{rel + ": " + err.Error()}
		}
		if d := os.Getenv("ZZGENDUMP"); d != "" {
			os.WriteFile(filepath.Join(d, strings.ReplaceAll(rel, "/", "_")), b, 0o644)
		}
		ov[filepath.Join(c.repo, "internal", rel)] = b
	}
	return nil
}

// usedImports blanks the imports a file does not use.
func usedImports(b []byte) ([]byte, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", b, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok {
				used[x.Name] = true
			}
		}
		return true
	})
	b = append([]byte(nil), b...)
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := path[strings.LastIndexByte(path, '/')+1:]
		if im.Name != nil {
			name = im.Name.Name
		}
		if !used[name] {
			for i := fs.Position(im.Pos()).Offset; i < fs.Position(im.End()).Offset; i++ {
				b[i] = ' '
			}
		}
	}
	return b, nil
}

// genFault returns the errors that are in generated files, "" if there are none.
func genFault(c *config, err error) string {
	if _, e := os.Stat(filepath.Join(c.verif, "harness", "gen", strings.ToLower(c.id), "main.go")); e != nil {
		return ""
	}
	var l []string
	for _, s := range strings.Split(err.Error(), "\n") {
		made := strings.Contains(s, "zzpg") || strings.Contains(s, "zzms") || strings.Contains(s, "zzod") || strings.Contains(s, "rows.")
		// an error in a generated file, or a name that it should declare
		if strings.Contains(s, "/internal/zz") && (strings.Contains(s, ".gen.go:") || made && strings.Contains(s, "undefined")) {
			l = append(l, strings.TrimPrefix(s, c.repo+"/internal/"))
		}
	}
	if len(l) == 0 {
		return ""
	}
	return "the generated source is not valid Go, or lacks a declaration: " + strings.Join(l, "; ")
}

// genViolation reports that there is no generated code to check.
func genViolation(c *config, msg string, t0 time.Time) int {
	dir := filepath.Join(c.verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, c.id+"-1.json")
	b, _ := json.MarshalIndent(map[string]any{"property": c.id, "message": msg, "how": "bash /verif/check " + c.id + " quick"}, "", " ")
	os.WriteFile(p, b, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", c.id, p, msg)
	ev, _ := json.MarshalIndent(map[string]any{"property": c.id, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"coverage":    map[string]any{"states": 1, "transitions": 1, "traces_validated_against_impl": 0, "samples": []any{msg}},
		"assumptions": []string{}, "wall_s": round(time.Since(t0).Seconds()), "violations": []any{map[string]any{"message": msg, "replay": p}}}, "", " ")
	if c.only == "" {
		os.WriteFile(filepath.Join(c.verif, "evidence", c.id+".json"), ev, 0o644)
	}
	return 1
}
