package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"gopkg.in/yaml.v3"

	"github.com/bobg/fab"
	"github.com/bobg/fab/golang"
)

// C26: golang.Deps against what the go command says it builds a package from.

type depsReq struct {
	Dir              string
	Recursive, Tests bool
	YAML             bool
	Topdir, YDir     string
}

type depsRes struct {
	Files []string
	Err   string
	Panic string
}

func helperGoDeps(file string) {
	var q depsReq
	must(json.Unmarshal(must1(os.ReadFile(file)), &q))
	var res depsRes
	func() {
		defer func() {
			if e := recover(); e != nil {
				res.Panic = fmt.Sprint(e)
			}
		}()
		var err error
		if q.YAML {
			var n yaml.Node
			must(yaml.Unmarshal([]byte(fmt.Sprintf("!go.Deps {Dir: %s, Recursive: %t, Tests: %t}", yq(q.Dir), q.Recursive, q.Tests)), &n))
			res.Files, err = fab.NewController(q.Topdir).YAMLStringList(n.Content[0], q.YDir)
		} else {
			res.Files, err = golang.Deps(q.Dir, q.Recursive, q.Tests)
		}
		if err != nil {
			res.Err = err.Error()
		}
	}()
	must1(os.Stdout.Write(must1(json.Marshal(res))))
}

type goListPkg struct {
	Dir, ImportPath, Name                                                                                               string
	Standard                                                                                                            bool
	Module                                                                                                              *struct{ Path string }
	GoFiles, CgoFiles, CFiles, CXXFiles, MFiles, HFiles, FFiles, SFiles, SwigFiles, SwigCXXFiles, SysoFiles, EmbedFiles []string
}

// goList asks the go command for the files of the module that it builds the package in dir from.
func goList(dir string, env []string, recursive, tests bool) ([]string, string, error) {
	args := []string{"list", "-deps"}
	if tests {
		args = append(args, "-test")
	}
	arg := "."
	if recursive {
		arg = "./..."
	}
	run := func(extra ...string) ([]byte, string, error) {
		cmd := exec.Command("go", append(append([]string{}, args...), extra...)...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), env...)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		err := cmd.Run()
		return so.Bytes(), se.String(), err
	}
	out, msg, err := run("-json", arg)
	if err != nil {
		return nil, msg, err
	}
	var mod string
	cmd := exec.Command("go", "list", "-f", "{{if .Module}}{{.Module.Path}}{{end}}", arg)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	mb, _ := cmd.Output()
	mod, _, _ = strings.Cut(string(mb), "\n")
	var files []string
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p goListPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			must(err)
		}
		if p.Standard || p.Module == nil || p.Module.Path != mod {
			continue
		}
		for _, l := range [][]string{p.GoFiles, p.CgoFiles, p.CFiles, p.CXXFiles, p.MFiles, p.HFiles, p.FFiles, p.SFiles, p.SwigFiles, p.SwigCXXFiles, p.SysoFiles, p.EmbedFiles} {
			for _, f := range l {
				if !filepath.IsAbs(f) { // those generated for tests are absolute
					files = append(files, filepath.Join(p.Dir, f))
				}
			}
		}
	}
	return files, msg, nil
}

func goDepsCase(cgo bool) func(c *Case) {
	return func(c *Case) {
		r := c.R
		base := c.Dir()
		o := goOpts{asm: 0.15, tests: true, odd: true}
		if cgo {
			o.cgo = 0.5
		}
		g := genGomod(r, base, o)
		for round := 2; round > 0; round-- {
			var env []string
			if r.Intn(4) == 0 {
				env = append(env, "GOFLAGS=-buildvcs=false -tags=sometag")
			}
			p := g.Pkgs[len(g.Pkgs)-1]
			if r.Intn(2) == 0 {
				p = g.Pkgs[r.Intn(len(g.Pkgs))]
			}
			dir := filepath.Join(g.Dir, p.Dir)
			broken := ""
			q := depsReq{Recursive: r.Intn(3) == 0, Tests: r.Intn(3) == 0, YAML: r.Intn(3) == 0}
			if q.Recursive && r.Intn(2) == 0 {
				dir = g.Dir
			}
			if r.Intn(5) == 0 && round == 1 {
				broken = g.breakIt(r)
			}
			if r.Intn(12) == 0 {
				dir = filepath.Join(base, "nothing")
				if r.Intn(2) == 0 {
					must(os.MkdirAll(dir, 0755))
				}
				broken = "no package"
			}
			if r.Intn(10) == 0 && g.Other != "" && broken == "" { // a workspace
				f := filepath.Join(base, "go.work")
				must(os.WriteFile(f, []byte("go 1.20\n\nuse "+quoteMod(relPath(base, g.Dir))+"\nuse "+quoteMod(relPath(base, g.Other))+"\n"), 0644))
				env = append(env, "GOWORK="+f)
			}
			want, msg, err := goList(dir, env, q.Recursive, q.Tests)
			if err != nil && broken == "" {
				panic("harness: go list: " + msg)
			}
			loads := err == nil
			if loads && broken != "" { // what go list takes may still not compile
				cmd := exec.Command("go", "vet", map[bool]string{true: "./...", false: "."}[q.Recursive])
				cmd.Dir = dir
				cmd.Env = append(os.Environ(), env...)
				if cmd.Run() != nil {
					c.Count("not_judged_type_errors", 1)
					continue
				}
			}
			// The process is somewhere, and the directory is written somehow.
			cwd := []string{base, g.Dir, filepath.Join(g.Dir, g.Pkgs[0].Dir), filepath.Join(g.Dir, g.Pkgs[r.Intn(len(g.Pkgs))].Dir), c.decoy(g)}[r.Intn(5)]
			q.Dir = dir
			if r.Intn(4) == 0 && (len(env) == 0 || !strings.HasPrefix(env[len(env)-1], "GOWORK=")) {
				// The go command looks for the module above the path by which it is called.
				l := filepath.Join(base, fmt.Sprintf("link%d", round))
				os.Symlink(base, l)
				q.Dir = filepath.Join(l, relPath(base, dir))
			}
			if q.YAML {
				q.Topdir = base
				q.YDir = []string{"", "mod", "some/where"}[r.Intn(3)]
				if r.Intn(2) == 0 {
					q.Dir = relPath(filepath.Join(base, q.YDir), q.Dir)
				}
			} else if r.Intn(2) == 0 {
				q.Dir = relPath(cwd, q.Dir)
				if r.Intn(3) == 0 && !strings.HasPrefix(q.Dir, ".") {
					q.Dir = "./" + q.Dir
				}
			}
			spec := filepath.Join(base, "spec.json")
			must(os.WriteFile(spec, must1(json.Marshal(q)), 0644))
			cmd := exec.Command(must1(os.Executable()), "helper", "godeps", spec)
			cmd.Dir = cwd
			cmd.Env = append(os.Environ(), env...)
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			runErr := cmd.Run()
			c.Event()
			var res depsRes
			w := map[string]any{"request": q, "cwd": cwd, "env": env, "broken": broken, "module": g.Files, "want": want, "got": &res, "golist": msg, "stderr": clip(se.String(), 3000)}
			if runErr != nil {
				if fabFrame(se.String()) {
					c.Fail(w, "go.Deps crashes: %v", runErr)
					return
				}
				panic("harness: godeps: " + se.String())
			}
			must(json.Unmarshal(so.Bytes(), &res))
			if res.Panic != "" {
				c.Fail(w, "go.Deps panics: %s", res.Panic)
				return
			}
			if !loads {
				if res.Err == "" {
					c.Fail(w, "the package does not load (%s), but go.Deps reports no error", broken)
					return
				}
				c.Count("packages_that_do_not_load", 1)
				continue
			}
			if res.Err != "" {
				c.Fail(w, "go.Deps fails: %s", res.Err)
				return
			}
			if !sort.StringsAreSorted(res.Files) {
				c.Fail(w, "the list is not sorted")
				return
			}
			have, need := map[string]bool{}, map[string]bool{}
			for _, f := range res.Files {
				k := canon(cwd, f)
				if have[k] {
					c.Fail(w, "%s is listed twice", f)
					return
				}
				have[k] = true
			}
			for _, f := range want {
				need[canon(cwd, f)] = true
			}
			for _, f := range sortedKeys(need) {
				if !have[f] {
					c.Fail(w, "%s is not listed, but the go command uses it", f)
					return
				}
			}
			for _, f := range sortedKeys(have) {
				if !need[f] {
					c.Fail(w, "%s is listed, but it is not part of the build", f)
					return
				}
			}
			c.Count("lists_compared", 1)
			c.Count("files_listed", int64(len(res.Files)))
			for _, f := range res.Files {
				switch filepath.Ext(f) {
				case ".go":
					if strings.HasSuffix(f, "_test.go") {
						c.Count("test_files_listed", 1)
					}
				default:
					c.Count("other_files_listed", 1)
				}
			}
			c.Nontrivial(fmt.Sprint(c.ID, round, len(res.Files)))
			c.Sample(map[string]any{"request": q, "listed": len(res.Files), "module_files": sortedKeys(g.Files)})
		}
	}
}

// decoy is a directory outside the module that has files named like those of the module.
func (c *Case) decoy(g *gomod) string {
	d := filepath.Join(g.Base, "decoy")
	for f := range g.Files {
		for _, t := range []string{f, relPathIn(g, f)} {
			t = filepath.Join(d, t)
			os.MkdirAll(filepath.Dir(t), 0755)
			os.WriteFile(t, []byte("decoy"), 0644)
		}
	}
	os.Remove(filepath.Join(d, "go.mod"))
	return d
}

// relPathIn is a file's path relative to the package it belongs to.
func relPathIn(g *gomod, f string) string {
	best := f
	for _, p := range g.Pkgs {
		if rest, ok := strings.CutPrefix(f, p.Dir+"/"); ok && p.Dir != "" && len(rest) < len(best) {
			best = rest
		}
	}
	return best
}

// breakIt makes a package of the module unloadable (or perhaps not, if it is not needed).
func (g *gomod) breakIt(r *rand.Rand) string {
	p := g.Pkgs[r.Intn(len(g.Pkgs))]
	at := func(f string) string { return filepath.Join(p.Dir, f) }
	kind := []string{"missing package", "missing package of the module", "syntax", "embed", "cycle", "names", "go.mod", "import of main"}[r.Intn(8)]
	switch kind {
	case "missing package":
		g.put(at("bad.go"), "package "+p.Name+"\n\nimport _ \"example.net/nowhere\"\n")
	case "missing package of the module":
		g.put(at("bad.go"), "package "+p.Name+"\n\nimport _ \""+g.Path+"/nowhere\"\n")
	case "syntax":
		g.put(at("bad.go"), "package "+p.Name+"\n\nfunc {\n")
	case "embed":
		g.put(at("bad.go"), "package "+p.Name+"\n\nimport _ \"embed\"\n\n//go:embed nothing.like.this\nvar bad string\n")
	case "cycle":
		q := g.Pkgs[len(g.Pkgs)-1]
		g.put(filepath.Join(g.Pkgs[0].Dir, "bad.go"), "package "+g.Pkgs[0].Name+"\n\nimport _ \""+g.ipath(q)+"\"\n")
	case "names":
		g.put(at("bad.go"), "package another\n")
	case "go.mod":
		g.put("go.mod", "module\nzork\n")
	case "import of main":
		g.put(at("bad.go"), "package "+p.Name+"\n\nimport _ \""+g.ipath(g.Pkgs[len(g.Pkgs)-1])+"\"\n")
	}
	return kind
}

func init() {
	checks["C26"] = func(m *Mon) {
		m.Parallel("deps", m.N(100, 3000), 8, goDepsCase(false))
		m.Parallel("cgo", m.N(8, 300), 4, goDepsCase(true))
		m.Rule("random modules (build constraints in lines and names, embedded files, assembly, cgo, tests, nested, replaced and mutually importing modules, workspaces, symbolic links), " +
			"some of them broken, asked for in all spellings from several current directories, Go and YAML; the list is compared with that of 'go list -deps [-test] -json'; distinct = case, round and size")
		m.Assume("packages that 'go list' takes but that do not type-check are not judged")
	}
}
