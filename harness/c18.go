package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"

	"github.com/bobg/fab"
)

// C18: indented output against a reference copier, and the indentation level after runs of every kind.

// refIndent is what the copier must have handed on after the bytes in were written to it, in whatever pieces.
// A CR at the very end is still pending.
func refIndent(in []byte, indent string) []byte {
	var lines []byte
	for i := 0; i < len(in); i++ {
		switch {
		case in[i] == '\r' && i+1 == len(in):
		case in[i] == '\r' && in[i+1] == '\n':
		case in[i] == '\r':
			lines = append(lines, '\n')
		default:
			lines = append(lines, in[i])
		}
	}
	var out []byte
	bol := true
	for _, b := range lines {
		if bol && b != '\n' {
			out = append(out, indent...)
		}
		bol = b == '\n'
		out = append(out, b)
	}
	return out
}

// faultyWriter fails (or writes short) once it has taken a number of bytes.
type faultyWriter struct {
	buf    bytes.Buffer
	limit  int
	failed bool
	short  bool
}

var errFaulty = errors.New("faulty writer")

func (w *faultyWriter) Write(p []byte) (int, error) {
	if w.limit < 0 || w.buf.Len()+len(p) <= w.limit {
		return w.buf.Write(p)
	}
	w.failed = true
	n := w.limit - w.buf.Len()
	if n < 0 {
		n = 0
	}
	w.buf.Write(p[:n])
	if w.short {
		return n, nil // against the rules of io.Writer, bufio calls it io.ErrShortWrite
	}
	return n, errFaulty
}

func (c *Case) textChunk() []byte {
	r := c.R
	n := r.Intn(12)
	switch r.Intn(20) {
	case 0:
		n = 3000 + r.Intn(9000)
	case 1:
		n = 4090 + r.Intn(12)
	case 2:
		n = 0
	}
	var b []byte
	mode := r.Intn(3)
	for i := 0; i < n; i++ {
		k := r.Intn(10)
		switch {
		case mode == 0 && k < 6, mode == 1 && k < 2:
			b = append(b, []byte{'\n', '\r', '\n', '\r', ' ', '\t'}[r.Intn(6)])
		case mode == 2 && k == 0 && n < 100:
			b = append(b, byte(r.Intn(256)))
		case mode == 1 && k == 9:
			b = append(b, "é"...)
		default:
			b = append(b, byte('a'+r.Intn(26)))
		}
	}
	return b
}

// depthOf observes the controller's indentation level through the public interface.
func depthOf(con *fab.Controller) int {
	var b bytes.Buffer
	con.IndentingCopier(&b, "|").Write([]byte("x"))
	return strings.Index(b.String(), "|") / 2
}

func init() {
	checks["C18"] = func(m *Mon) {
		m.silenceStdout()
		m.Parallel("copy", m.N(6000, 200000), 8, func(c *Case) {
			r := c.R
			con := fab.NewController("")
			depth := r.Intn(4)
			prefix := []string{"", "    ", "> ", "\t", "é"}[r.Intn(5)]
			var body func(d int) error
			work := func() error {
				w := &faultyWriter{limit: -1, short: r.Intn(3) == 0}
				faulty := r.Intn(4) == 0
				if faulty {
					w.limit = r.Intn(200)
				}
				ic := con.IndentingCopier(w, prefix)
				indent := strings.Repeat("  ", depth) + prefix
				var all []byte
				var chunks []string
				for i := 1 + r.Intn(8); i > 0; i-- {
					chunk := c.textChunk()
					orig := string(chunk)
					chunks = append(chunks, clip(orig, 60))
					before := w.failed
					n, err := ic.Write(chunk)
					c.Count("writes", 1)
					if string(chunk) != orig {
						c.Fail(chunks, "Write changed its argument")
						return nil
					}
					if w.failed && !before && err == nil {
						c.Fail(chunks, "the underlying writer failed, Write reported %d, nil", n)
						return nil
					}
					if w.failed {
						if !w.short && !before && !errors.Is(err, errFaulty) {
							c.Fail(chunks, "the underlying writer failed with %q, Write reported %v", errFaulty, err)
						}
						c.Count("writer_failures", 1)
						return nil
					}
					if err != nil {
						c.Fail(chunks, "Write failed with %v, the underlying writer did not", err)
						return nil
					}
					if n != len(chunk) {
						c.Fail(chunks, "Write of %d bytes reported %d without an error", len(chunk), n)
						return nil
					}
					all = append(all, orig...)
					if got, want := w.buf.Bytes(), refIndent(all, indent); !bytes.Equal(got, want) {
						c.Fail(map[string]any{"chunks": chunks, "got": clip(string(got), 2000), "want": clip(string(want), 2000)},
							"after the bytes written so far the output is %q, want %q", clip(string(got), 300), clip(string(want), 300))
						return nil
					}
				}
				c.Nontrivial(fmt.Sprint(depth, prefix, chunks))
				c.Sample(map[string]any{"depth": depth, "prefix": prefix, "chunks": chunks, "output": clip(w.buf.String(), 300)})
				return nil
			}
			body = func(d int) error {
				if d == 0 {
					return work()
				}
				return con.Run(context.Background(), fab.F(func(context.Context, *fab.Controller) error { return body(d - 1) }))
			}
			body(depth)
		})
		m.Parallel("level", m.N(1500, 40000), 8, func(c *Case) {
			r := c.R
			con := fab.NewController("")
			var trace []string
			note := func(s string) { trace = append(trace, s) }
			shared := fab.F(func(context.Context, *fab.Controller) error { return nil })
			bad := fab.Shellf("exit 3")
			mismatch := ""
			var level func(ctx context.Context, depth, budget int)
			level = func(ctx context.Context, depth, budget int) {
				for i := 1 + r.Intn(3); i > 0 && budget > 0; i-- {
					if got := depthOf(con); got != depth && mismatch == "" {
						mismatch = fmt.Sprintf("indentation level is %d inside %d nested Run calls", got, depth)
					}
					switch k := r.Intn(7); k {
					case 0:
						note("empty")
						con.Run(ctx)
					case 1:
						note("unusable")
						con.Run(ctx, valueTarget{}, shared)
					case 2:
						note("failing")
						con.Run(ctx, fab.F(func(context.Context, *fab.Controller) error { return errors.New("fails") }), shared)
					case 3:
						note("cached")
						con.Run(ctx, shared)
					case 4:
						note("cancelled")
						cc, cancel := context.WithCancel(ctx)
						cancel()
						con.Run(cc, bad)
					default:
						note("nested{")
						fail := r.Intn(2) == 0
						con.Run(ctx, fab.F(func(ctx context.Context, con *fab.Controller) error {
							level(ctx, depth+1, budget-1)
							if fail {
								return errors.New("fails")
							}
							return nil
						}))
						note("}")
					}
					if got := depthOf(con); got != depth && mismatch == "" {
						mismatch = fmt.Sprintf("indentation level is %d after Run returned, it was %d before (%s)", got, depth, trace[len(trace)-1])
					}
				}
			}
			level(context.Background(), 0, 4)
			c.Count("run_calls", int64(len(trace)))
			if mismatch != "" {
				c.Fail(trace, "%s", mismatch)
				return
			}
			// Concurrent runs: back at the start when all have returned.
			var wg sync.WaitGroup
			for i := 2 + r.Intn(6); i > 0; i-- {
				fail, inner := r.Intn(2) == 0, r.Intn(3)
				wg.Add(1)
				go func() {
					defer wg.Done()
					ctx := fab.WithVerbose(context.Background(), inner == 1)
					con.Run(ctx, shared, fab.F(func(ctx context.Context, con *fab.Controller) error {
						if inner > 0 {
							con.Run(ctx, shared, valueTarget{})
						}
						if fail {
							return errors.New("fails")
						}
						return nil
					}), fab.All(shared, shared))
				}()
			}
			wg.Wait()
			if got := depthOf(con); got != 0 {
				c.Fail(trace, "indentation level is %d after all concurrent Run calls have returned", got)
				return
			}
			c.Nontrivial(strings.Join(trace, ","))
		})
		m.Rule("copy: random bytes rich in CR and LF in random pieces, at nesting depths 0-3 with random prefixes, against sound and failing writers; the output is compared with a reference after every Write. " +
			"level: random nestings of Run calls that end in every way (success, failure, nothing to run, unusable target, cancelled, cached), the level observed inside and after each, then concurrent ones. " +
			"distinct = depth, prefix and pieces, resp. the sequence of Run calls")
	}
}

// valueTarget is not usable as a target since it is no pointer.
type valueTarget struct{ n int }

func (valueTarget) Run(context.Context, *fab.Controller) error { return nil }
func (valueTarget) Desc() string                               { return "value" }
