package main

// C92: source generated by the code under test becomes part of what is loaded. The real generator is run for every entry of
// the harness's menu (VzGen in harness/c92.go), its text is compiled as it is, and the text is added to the package so that
// its functions are executed symbolically. Text that does not compile becomes a harness that fails.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type genOut struct{ Name, Text, Harness, Err string }

const genHeader = "//go:build go1.21\n\npackage %s\n\nimport (\n%s)\n\n"

func genImports(text string, more ...string) string {
	s := ""
	for _, p := range append([]string{"fmt", "time"}, more...) {
		if strings.Contains(text, p[strings.LastIndex(p, "/")+1:]+".") {
			s += fmt.Sprintf("\t%q\n", p)
		}
	}
	return s
}

// addGenerated extends hfiles by the generated files, written to a new directory that the caller removes.
func addGenerated(repo string, hfiles map[string]string) (string, error) {
	dir, err := os.MkdirTemp("", "vzgen")
	if err != nil {
		return "", err
	}
	rep := map[string]string{}
	for n, f := range hfiles {
		rep[filepath.Join(repo, n)] = f
	}
	put := func(at, text string) {
		f := filepath.Join(dir, strings.ReplaceAll(at, "/", "_"))
		os.WriteFile(f, []byte(text), 0o644)
		rep[filepath.Join(repo, at)] = f
	}
	run := func(args ...string) ([]byte, []byte, error) {
		ob, _ := json.Marshal(map[string]interface{}{"Replace": rep})
		ov := filepath.Join(dir, "overlay.json")
		os.WriteFile(ov, ob, 0o644)
		for _, f := range []string{"go.mod", "go.sum"} {
			b, _ := os.ReadFile(filepath.Join(repo, f))
			os.WriteFile(filepath.Join(dir, f), b, 0o644)
		}
		cmd := exec.Command("go", append([]string{args[0], "-modfile", filepath.Join(dir, "go.mod"), "-overlay", ov}, args[1:]...)...)
		cmd.Dir = repo
		cmd.Env = goEnv()
		var e strings.Builder
		cmd.Stderr = &e
		o, err := cmd.Output()
		return o, []byte(e.String()), err
	}
	put("zzvzgen/main.go", "package main\n\nimport \""+repoPath+"\"\n\nfunc main() { gotables.VzGen() }\n")
	o, e, err := run("run", "./zzvzgen")
	if err != nil {
		return dir, fmt.Errorf("generator: %v: %s", err, e)
	}
	var outs []genOut
	if err := json.Unmarshal(o, &outs); err != nil {
		return dir, err
	}
	pkgs := []string{"build", "-gcflags=-e"}
	for _, g := range outs {
		if g.Err == "" {
			put("zzvz"+g.Name+"/g.go", fmt.Sprintf(genHeader, g.Name, genImports(g.Text, repoPath))+g.Text)
			pkgs = append(pkgs, "./zzvz"+g.Name)
		}
	}
	_, e, err = run(pkgs...)
	bad := map[string]string{}
	if err != nil {
		at := ""
		for _, l := range strings.Split(string(e), "\n") {
			if i := strings.Index(l, "/zzvz"); strings.HasPrefix(l, "# ") && i > 0 {
				at = l[i+5:]
				continue
			}
			if at != "" && l != "" && bad[at] == "" {
				if i := strings.Index(l, ".go:"); i >= 0 {
					l = l[i+1:]
				}
				if i := strings.Index(l, ": "); i >= 0 {
					l = l[i+2:]
				}
				bad[at] = l
			} else if i := strings.Index(l, "zzvzg"); i >= 0 && at == "" && strings.Contains(l, ".go:") { // syntax errors come without a package line
				n := l[i+4:]
				n = n[:strings.IndexByte(n+"/", '/')]
				n = strings.TrimSuffix(n, ".go")
				bad[strings.TrimSuffix(n, "_g")] = l[strings.Index(l, ".go:")+1:]
			}
		}
		if len(bad) == 0 {
			return dir, fmt.Errorf("compiling generated source: %v: %s", err, e)
		}
	}
	for _, g := range outs {
		why := ""
		if g.Err != "" {
			why = "generating the source fails: " + g.Err
		} else if bad[g.Name] != "" {
			why = "the generated source compiles (" + bad[g.Name] + ")"
		}
		text := strings.ReplaceAll(g.Text, "gotables.", "")
		src := fmt.Sprintf(genHeader, "gotables", genImports(text)) + text + g.Harness
		if why != "" {
			src = fmt.Sprintf("//go:build go1.21\n\npackage gotables\n\nfunc vzC92_%s() { vzAssert(false, %q) }\n", g.Name, why)
		}
		f := filepath.Join(dir, "zz_verif_c92_"+g.Name+".go")
		os.WriteFile(f, []byte(src), 0o644)
		hfiles["zz_verif_c92_"+g.Name+".go"] = f
	}
	return dir, nil
}
