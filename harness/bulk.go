package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/bobg/fab"
	"github.com/bobg/fab/sqlite"
)

// bulkCase is a Files target of huge files, or of very many: one byte makes the difference.
func bulkCase(c *Case) {
	r := c.R
	dir := c.Dir()
	log := filepath.Join(dir, "log")
	var in, out []string
	var what string
	var sizes []int64
	if r.Intn(2) == 0 {
		size := []int64{1 << 20, 3<<20 + 1, 5 << 20, 17 << 20, 65 << 20}[r.Intn(5)]
		what = fmt.Sprintf("a file of %d bytes", size)
		for _, n := range []string{"in", "in2"} {
			f := filepath.Join(dir, n)
			must(os.WriteFile(f, nil, 0644))
			must(os.Truncate(f, size)) // sparse
			in, sizes = append(in, f), append(sizes, size)
		}
	} else {
		n := []int{300, 1100, 4200}[r.Intn(3)]
		what = fmt.Sprintf("%d files", n)
		for i := 0; i < n; i++ {
			f := filepath.Join(dir, "many", fmt.Sprintf("%03d", i/100), fmt.Sprintf("f%d", i))
			if i%100 == 0 {
				must(os.MkdirAll(filepath.Dir(f), 0755))
			}
			must(os.WriteFile(f, []byte("0000000000"), 0644))
			in, sizes = append(in, f), append(sizes, 10)
		}
	}
	whole := len(in) > 2 && r.Intn(2) == 0 // the directory is the input
	inputs := in
	if whole {
		inputs = []string{filepath.Join(dir, "many")}
	}
	nout := []int{1, 2, 40}[r.Intn(3)]
	script := "echo x >>'" + log + "'\n"
	for i := 0; i < nout; i++ {
		o := filepath.Join(dir, fmt.Sprintf("out%d", i))
		out = append(out, o)
		src := in[i%len(in)]
		script += "cp --sparse=always '" + src + "' '" + o + "'\n"
	}
	// Where a byte can change.
	type spot struct {
		file string
		off  int64
	}
	var spots []spot
	for k, f := range in {
		if len(in) > 2 && r.Intn(len(in)) > 3 && k != len(in)-1 {
			continue
		}
		for _, off := range []int64{0, sizes[k] - 1, sizes[k] / 2, sizes[k] - 1 - r.Int63n(min(sizes[k], 4096))} {
			spots = append(spots, spot{f, off})
		}
	}
	for k, f := range out {
		size := sizes[k%len(in)]
		spots = append(spots, spot{f, size - 1}, spot{f, r.Int63n(size)})
	}
	ctx := context.Background()
	db := must1(sqlite.Open(filepath.Join(dir, "hash.db")))
	defer db.Close()
	ctx = fab.WithHashDB(ctx, db)
	var hist []string
	build := func(want bool, why string) bool {
		os.Remove(log)
		t := fab.Files(&fab.Command{Shell: script}, inputs, out)
		err := fab.NewController(dir).Run(ctx, t)
		c.Event()
		b, _ := os.ReadFile(log)
		n := strings.Count(string(b), "x\n")
		hist = append(hist, fmt.Sprintf("%s: ran %d times (%v)", why, n, err))
		if err != nil || (n == 1) != want || n > 1 {
			c.Fail(map[string]any{"history": hist, "inputs": len(inputs), "outputs": nout, "directory": whole}, "%s, %s: the target ran %d times (%v), want %t", what, why, n, err, want)
			return false
		}
		return true
	}
	if !build(true, "the first time") || !build(false, "nothing has changed") {
		return
	}
	for k := 0; k < 6; k++ {
		s := spots[r.Intn(len(spots))]
		info := must1(os.Stat(s.file))
		f := must1(os.OpenFile(s.file, os.O_WRONLY, 0))
		must1(f.WriteAt([]byte{byte('A' + k)}, s.off))
		must(f.Close())
		must(os.Chtimes(s.file, info.ModTime(), info.ModTime()))
		if !build(true, fmt.Sprintf("byte %d of %s has changed", s.off, filepath.Base(s.file))) || !build(false, "nothing has changed") {
			return
		}
	}
	c.Count("bytes_changed_in_bulk", 6)
	c.Nontrivial(strings.Join(hist, "\n") + what)
}
