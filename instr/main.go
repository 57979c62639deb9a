// Command instr instruments the Go packages of a source tree for runtime monitoring.
//
//	instr SRCDIR OUTDIR
//
// For every package directory below SRCDIR (test files, testdata, _* and .* directories excluded)
// it writes copies of the Go files to OUTDIR in which every statement is preceded,
// on the same line, by a call to fabVYield(n). One file per package also gets the definition of that function.
// OUTDIR/overlay.json is then an overlay for go build and go test: the tree itself is not touched.
//
// fabVYield does nothing unless
//   - the package's variable FabVHook is set: then it calls that (schedule perturbation, coverage);
//   - or the environment variable FABV_CRASH is set to EXE:N and the running executable's base name is EXE:
//     then the process kills itself with SIGKILL when it reaches its N-th statement,
//     (or, with FABV_MOVE=FROM:TO set, renames FROM to TO; or, with FABV_PAUSE=FILE set, creates FILE and waits, at most a minute, until that is gone),
//     and with FABV_COUNT=FILE set it writes the number of statements executed so far to FILE at each one.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// The support code goes into one of the package's own files:
// go:embed patterns would trip over a file which is only in the overlay.
const imports = `;import (fabVos "os"; fabVfilepath "path/filepath"; fabVstrings "strings"; fabVstrconv "strconv"; fabVatomic "sync/atomic"; fabVsyscall "syscall"; fabVtime "time")`

const support = `

// FabVHook is called before every statement, if set.
var FabVHook func(int)

var (
	fabVCount   fabVatomic.Int64
	fabVFile    *fabVos.File
	fabVCrashAt = fabVParse()
)

func fabVParse() int64 {
	exe, num, ok := fabVstrings.Cut(fabVos.Getenv("FABV_CRASH"), ":")
	if !ok || len(fabVos.Args) == 0 || fabVfilepath.Base(fabVos.Args[0]) != exe {
		return 0
	}
	if pkg, n, ok := fabVstrings.Cut(num, ":"); ok {
		if pkg != %q {
			return 0
		}
		num = n
	}
	n, _ := fabVstrconv.ParseInt(num, 10, 64)
	if name := fabVos.Getenv("FABV_COUNT"); name != "" {
		fabVFile, _ = fabVos.OpenFile(name+%q, fabVos.O_WRONLY|fabVos.O_CREATE|fabVos.O_TRUNC|fabVos.O_APPEND, 0644)
	}
	return n
}

func fabVYield(n int) {
	if h := FabVHook; h != nil {
		h(n)
	}
	if fabVCrashAt != 0 {
		c := fabVCount.Add(1)
		if fabVFile != nil {
			fabVFile.WriteString(fabVstrconv.Itoa(n) + "\n")
		}
		if c == fabVCrashAt {
			if from, to, ok := fabVstrings.Cut(fabVos.Getenv("FABV_MOVE"), ":"); ok {
				fabVos.Rename(from, to)
				return
			}
			if file := fabVos.Getenv("FABV_PAUSE"); file != "" {
				fabVos.WriteFile(file, nil, 0644)
				for i := 0; i < 60000; i++ {
					if _, err := fabVos.Stat(file); err != nil {
						break
					}
					fabVtime.Sleep(fabVtime.Millisecond)
				}
				return
			}
			fabVsyscall.Kill(fabVsyscall.Getpid(), fabVsyscall.SIGKILL)
			select {}
		}
	}
}
`

type insertion struct {
	off  int
	text string
}

func main() {
	if len(os.Args) != 3 {
		fmt.Fprintln(os.Stderr, "usage: instr SRCDIR OUTDIR")
		os.Exit(2)
	}
	src, out := os.Args[1], os.Args[2]
	if err := run(src, out); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func run(src, out string) error {
	overlay := map[string]string{}
	sites := map[string]map[int]string{}
	err := filepath.WalkDir(src, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if !d.IsDir() {
			return nil
		}
		name := d.Name()
		if path != src && (strings.HasPrefix(name, "_") || strings.HasPrefix(name, ".") || name == "testdata") {
			return filepath.SkipDir
		}
		rel, _ := filepath.Rel(src, path)
		return instrumentDir(path, rel, out, overlay, sites)
	})
	if err != nil {
		return err
	}
	j, err := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err != nil {
		return err
	}
	if err = os.WriteFile(filepath.Join(out, "overlay.json"), j, 0644); err != nil {
		return err
	}
	j, err = json.Marshal(sites)
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(out, "sites.json"), j, 0644)
}

func instrumentDir(dir, rel, out string, overlay map[string]string, sites map[string]map[int]string) error {
	names, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return err
	}
	sort.Strings(names)
	var (
		pkgname   string
		supported bool
	)
	id := 0
	pkgsites := map[int]string{}
	for _, name := range names {
		base := filepath.Base(name)
		if strings.HasSuffix(base, "_test.go") {
			continue
		}
		text, err := os.ReadFile(name)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, text, parser.ParseComments)
		if err != nil {
			return nil // leave it to the compiler
		}
		if pkgname == "" {
			pkgname = f.Name.Name
		}
		if f.Name.Name != pkgname {
			continue
		}
		tf := fset.File(f.Pos())
		var ins []insertion
		first := !supported
		if first {
			supported = true
			ins = append(ins, insertion{tf.Offset(f.Name.End()), imports})
		}
		add := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				id++
				off := tf.Offset(s.Pos())
				ins = append(ins, insertion{off, fmt.Sprintf("fabVYield(%d);", id)})
				pkgsites[id] = fmt.Sprintf("%s:%d", filepath.Join(rel, base), fset.Position(s.Pos()).Line)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				add(n.List)
			case *ast.CaseClause:
				add(n.Body)
			case *ast.CommClause:
				add(n.Body)
			}
			return true
		})
		// The body of a switch or select is a block of clauses: those are not statements one can precede.
		ins = filterClauses(f, tf, ins)
		sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
		var buf bytes.Buffer
		last := 0
		for _, in := range ins {
			buf.Write(text[last:in.off])
			buf.WriteString(in.text)
			last = in.off
		}
		buf.Write(text[last:])
		if first {
			fmt.Fprintf(&buf, support, rel, "."+strings.ReplaceAll(rel, "/", "_"))
		}
		dest := filepath.Join(out, strings.ReplaceAll(rel, "/", "_")+"__"+base)
		if err = os.WriteFile(dest, buf.Bytes(), 0644); err != nil {
			return err
		}
		overlay[name] = dest
	}
	if pkgname == "" {
		return nil
	}
	sites[rel] = pkgsites
	return nil
}

func filterClauses(f *ast.File, tf *token.File, ins []insertion) []insertion {
	bad := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CaseClause:
			bad[tf.Offset(n.Pos())] = true
		case *ast.CommClause:
			bad[tf.Offset(n.Pos())] = true
		}
		return true
	})
	var result []insertion
	for _, in := range ins {
		if !bad[in.off] {
			result = append(result, in)
		}
	}
	return result
}
