package main

import (
	"context"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/bobg/fab"
)

// C25: Clean targets on scratch trees; the tree afterwards compared with a model.
// Every name given to Clean lies in the case's own scratch directory, whatever becomes of it.

// snapshot records everything below a directory: path -> kind, permissions and content.
func snapshot(root string) map[string]string {
	res := map[string]string{}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			if errors.Is(err, fs.ErrNotExist) {
				return nil
			}
			must(err)
		}
		rel, _ := filepath.Rel(root, p)
		info, err := os.Lstat(p)
		if err != nil {
			return nil
		}
		switch {
		case info.IsDir():
			res[rel] = fmt.Sprintf("dir %o", info.Mode().Perm())
		case info.Mode()&fs.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			res[rel] = "link " + l
		case info.Mode().IsRegular():
			b, err := os.ReadFile(p)
			must(err)
			res[rel] = fmt.Sprintf("file %o %s", info.Mode().Perm(), b)
		default:
			res[rel] = info.Mode().String()
		}
		return nil
	})
	return res
}

func diffSnapshots(a, b map[string]string) (gone, added, changed []string) {
	for p, v := range a {
		if w, ok := b[p]; !ok {
			gone = append(gone, p)
		} else if v != w {
			changed = append(changed, p)
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			added = append(added, p)
		}
	}
	sort.Strings(gone)
	sort.Strings(added)
	sort.Strings(changed)
	return
}

// Names ever registered for autocleaning in this process, as they were given.
var autocleanNames = map[string]bool{}

func cleanCase(c *Case) {
	r := c.R
	root := c.Dir()
	must(os.Chdir(root))
	defer os.Chdir(c.Scratch)
	tok := strings.ReplaceAll(c.ID, "/", "_")

	// A random tree. All paths are relative to root and begin with a token of their own.
	paths := []string{} // everything that exists
	isDir := map[string]bool{}
	link := map[string]bool{}
	dirs := []string{tok}
	must(os.MkdirAll(tok, 0755))
	isDir[tok] = true
	for k := r.Intn(14); k > 0; k-- {
		parent := dirs[r.Intn(len(dirs))]
		name := []string{"a", "b", "c", "d", "a.b", "a-b", "a b", "*", "[x]", "A", "ab", "z", "ü", "a0", "-rf"}[r.Intn(15)]
		p := filepath.Join(parent, name)
		if _, err := os.Lstat(p); err == nil {
			continue
		}
		switch r.Intn(6) {
		case 0, 1:
			must(os.Mkdir(p, 0755))
			isDir[p] = true
			dirs = append(dirs, p)
		case 2:
			to := []string{"nowhere", "a", "../b", tok}[r.Intn(4)]
			if r.Intn(2) == 0 {
				to = filepath.Join(root, dirs[r.Intn(len(dirs))])
			}
			must(os.Symlink(to, p))
			link[p] = true
		default:
			must(os.WriteFile(p, []byte(p), []fs.FileMode{0644, 0444, 0755, 0}[r.Intn(4)]))
		}
		paths = append(paths, p)
	}
	absent := func() string {
		return filepath.Join(dirs[r.Intn(len(dirs))], fmt.Sprintf("absent%d", r.Intn(3)))
	}
	pick := func() string {
		if len(paths) == 0 || r.Intn(6) == 0 {
			if r.Intn(4) == 0 {
				return filepath.Join(dirs[r.Intn(len(dirs))], "no", "such", "dir", "f")
			}
			return absent()
		}
		return paths[r.Intn(len(paths))]
	}
	// spell gives one of the spellings of a path.
	spell := func(p string, abs int) string {
		s := p
		if abs == 2 || abs == 1 && r.Intn(2) == 0 {
			s = filepath.Join(root, p)
		}
		switch r.Intn(8) {
		case 0:
			if isDir[p] {
				s += "/"
			}
		case 1:
			if !filepath.IsAbs(s) {
				s = "./" + s
			}
		case 2:
			s = strings.Replace(s, "/", "//", 1)
		case 3:
			s = strings.Replace(s, tok+"/", tok+"/./", 1)
		}
		return s
	}
	absMode := r.Intn(3)
	var names []string // as given
	var rels []string
	add := func(p string) {
		rels = append(rels, p)
		names = append(names, spell(p, absMode))
	}
	wholeTree := r.Intn(3) == 0
	if wholeTree && len(dirs) > 1 {
		d := dirs[r.Intn(len(dirs))]
		for _, p := range paths {
			if p == d || strings.HasPrefix(p, d+"/") {
				add(p)
			}
		}
	}
	for k := r.Intn(6); k > 0; k-- {
		add(pick())
	}
	for k := r.Intn(3); k > 0 && len(rels) > 0; k-- {
		add(rels[r.Intn(len(rels))])
	}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i]; rels[i], rels[j] = rels[j], rels[i] })

	topdir := root
	if absMode == 0 && r.Intn(2) == 0 {
		topdir = "."
	}
	con := fab.NewController(topdir)
	useYAML := r.Intn(3) == 0
	autoclean := r.Intn(2) == 0
	named := map[string]bool{}
	for _, p := range rels {
		named[p] = true
	}

	// Files targets, some with autoclean.
	var filesDesc []string
	for k := r.Intn(4); k > 0; k-- {
		var outs []string
		for j := r.Intn(3); j > 0; j-- {
			outs = append(outs, spell(pick(), absMode))
		}
		if len(outs) == 0 {
			continue
		}
		ac := r.Intn(3)
		filesDesc = append(filesDesc, fmt.Sprintf("%q autoclean %d", outs, ac))
		if r.Intn(3) == 0 && useYAML {
			y := fmt.Sprintf("T%d: !Files\n  Target: X\n  Out: %s\n", k, yqs(outs))
			if ac > 0 {
				y += fmt.Sprintf("  Autoclean: %v\n", ac == 2)
			}
			must(con.ReadYAML(strings.NewReader(y), ""))
			if ac == 2 {
				for _, o := range outs {
					autocleanNames[con.JoinPath("", o)] = true
				}
			}
			continue
		}
		var opts []fab.FilesOpt
		if ac > 0 {
			opts = append(opts, fab.Autoclean(ac == 2))
		}
		fab.Files(&argLeaf{}, nil, outs, opts...)
		if ac == 2 {
			for _, o := range outs {
				autocleanNames[o] = true
			}
		}
	}
	if autoclean {
		for o := range autocleanNames {
			p := o
			if filepath.IsAbs(p) {
				rel, err := filepath.Rel(root, p)
				if err != nil || strings.HasPrefix(rel, "..") {
					continue // of an earlier case, and gone
				}
				p = rel
			}
			p = filepath.Clean(p)
			if strings.HasPrefix(p+"/", tok+"/") {
				named[p] = true
			}
		}
	}
	dry := r.Intn(8) == 0

	wit := map[string]any{"tree": snapshot(root), "names": names, "autoclean": autoclean, "files": filesDesc, "yaml": useYAML, "topdir": topdir, "dry": dry}

	var targets []fab.Target
	given := append([]string{}, names...)
	if useYAML {
		var y string
		if r.Intn(2) == 0 && !autoclean {
			y = "Cl: !Clean " + yqs(names) + "\n"
		} else {
			y = "Cl: !Clean\n"
			if len(names) > 0 || r.Intn(2) == 0 {
				y += "  Files: " + yqs(names) + "\n"
			}
			y += fmt.Sprintf("  Autoclean: %v\n", autoclean)
		}
		wit["yaml_text"] = y
		if err := con.ReadYAML(strings.NewReader(y), ""); err != nil {
			c.Fail(wit, "reading a Clean definition: %v", err)
			return
		}
		t, _ := con.RegistryTarget("Cl")
		targets = append(targets, t)
	} else {
		targets = append(targets, &fab.Clean{Files: names, Autoclean: autoclean})
	}
	twice := r.Intn(6) == 0
	if twice { // two Clean targets at once
		targets = append(targets, &fab.Clean{Files: append([]string{}, names...), Autoclean: autoclean})
		if useYAML && topdir == "." {
			targets = targets[:1]
			twice = false
		}
	}

	// Model: what can be removed.
	before := snapshot(root)
	remain := map[string]string{}
	for p, v := range before {
		remain[p] = v
	}
	var stuck []string
	var order []string
	for p := range named {
		order = append(order, p)
	}
	sort.Slice(order, func(i, j int) bool { return strings.Count(order[i], "/") > strings.Count(order[j], "/") })
	for _, p := range order {
		if _, ok := remain[p]; !ok {
			// Absent. But is what stands in the way a file or a link? Then leave the case alone.
			for q := filepath.Dir(p); q != "."; q = filepath.Dir(q) {
				if v, ok := before[q]; ok && !strings.HasPrefix(v, "dir") {
					c.Count("skipped_through_non_directory", 1)
					return
				}
			}
			continue
		}
		if isDir[p] {
			empty := true
			for q := range remain {
				if strings.HasPrefix(q, p+"/") {
					empty = false
				}
			}
			if !empty {
				stuck = append(stuck, p)
				continue
			}
		}
		delete(remain, p)
	}

	ctx := fab.WithDryRun(context.Background(), dry)
	errs := make([]error, len(targets))
	var wg sync.WaitGroup
	for i, t := range targets {
		wg.Add(1)
		go func() { defer wg.Done(); errs[i] = con.Run(ctx, t) }()
	}
	wg.Wait()
	after := snapshot(root)
	gone, added, changed := diffSnapshots(before, after)
	wit["gone"], wit["added"], wit["changed"], wit["errors"] = gone, added, changed, fmt.Sprint(errs)
	if fmt.Sprintf("%q", names) != fmt.Sprintf("%q", given) {
		c.Fail(wit, "the Files of the Clean target were changed to %q", names)
		return
	}
	if len(added)+len(changed) > 0 {
		c.Fail(wit, "Clean added %q and changed %q", added, changed)
		return
	}
	if dry {
		if len(gone) > 0 || errors.Join(errs...) != nil {
			c.Fail(wit, "in a dry run Clean removed %q, errors %v", gone, errs)
		}
		c.Count("dry_runs", 1)
		return
	}
	for _, p := range gone {
		if !named[p] {
			c.Fail(wit, "Clean removed %q, which it does not name", p)
			return
		}
		if _, ok := remain[p]; ok {
			c.Fail(wit, "Clean removed the directory %q, which has other contents", p)
			return
		}
	}
	for _, err := range errs {
		if len(stuck) == 0 && err != nil {
			c.Fail(wit, "everything named can be removed, but Clean failed: %v", err)
			return
		}
		if len(stuck) > 0 {
			if err == nil {
				c.Fail(wit, "Clean succeeded though %q cannot be removed", stuck)
				return
			}
			ok := false
			for _, s := range stuck {
				ok = ok || strings.Contains(err.Error(), filepath.Base(s))
			}
			if !ok {
				c.Fail(wit, "the error names none of %q, which cannot be removed: %v", stuck, err)
				return
			}
			c.Count("failing_cleans", 1)
		}
	}
	if len(stuck) == 0 {
		if left, _, _ := diffSnapshots(after, remain); len(left) > 0 {
			c.Fail(wit, "Clean left %q", left)
			return
		}
		// Once more, with nothing left to do.
		if err := fab.NewController(topdir).Run(ctx, &fab.Clean{Files: names, Autoclean: autoclean}); err != nil && topdir == root {
			c.Fail(wit, "cleaning again failed: %v", err)
			return
		}
	}
	c.Count("removed", int64(len(gone)))
	if autoclean {
		c.Count("autoclean_runs", 1)
	}
	if len(named) > 0 && len(before) > 2 {
		c.Nontrivial(fmt.Sprintf("%q %v %q %v %v", names, autoclean, filesDesc, sortedKeys(before), stuck))
		if len(before) < 7 {
			c.Sample(wit)
		}
	}
}

func init() {
	checks["C25"] = func(m *Mon) {
		m.silenceStdout()
		m.Parallel("clean", m.N(2500, 12000), 1, cleanCase)
		m.Rule("a case is a random scratch tree (files, directories, symbolic links), Files targets with and without autoclean, and a Clean target (Go or YAML; absolute and relative names, several spellings, repeated, absent, non-empty directories); " +
			"the tree after the run is compared with a model; non-trivial = something named in a tree with contents; distinct = names, autoclean settings, tree and outcome")
		m.Assume("names that lead through a file or a symbolic link are left out")
	}
}
