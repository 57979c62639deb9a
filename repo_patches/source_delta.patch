From 1c2e57932a70e65afc7f94aca3688533fbcca6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 01/35] fix: tell targets apart by identity, not by bare
 address

Controllers remembered finished targets by address only, without keeping them
alive, so a new target could be mistaken for one that had been garbage collected,
or for one of another type at the same address.
---
 controller.go | 11 +++++++----
 register.go   | 18 +++++++++---------
 runner.go     | 11 ++++++-----
 3 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/controller.go b/controller.go
index 23f35f6..3c7a407 100644
--- a/controller.go
+++ b/controller.go
@@ -23,12 +23,15 @@ type Controller struct {
 	depth int
 
 	// Records targets that have run or are running.
-	ran map[uintptr]*outcome
+	// The keys are the targets themselves,
+	// which keeps them from being garbage collected
+	// (and their addresses from being reused for other targets).
+	ran map[Target]*outcome
 
 	// Keys are names related to topdir.
 	targetsByName map[string]targetRegistryTuple
 
-	targetsByAddr map[uintptr]targetRegistryTuple
+	targetsByAddr map[Target]targetRegistryTuple
 }
 
 // NewController creates a new [Controller]
@@ -38,9 +41,9 @@ type Controller struct {
 func NewController(topdir string) *Controller {
 	return &Controller{
 		topdir:        topdir,
-		ran:           make(map[uintptr]*outcome),
+		ran:           make(map[Target]*outcome),
 		targetsByName: make(map[string]targetRegistryTuple),
-		targetsByAddr: make(map[uintptr]targetRegistryTuple),
+		targetsByAddr: make(map[Target]targetRegistryTuple),
 	}
 }
 
diff --git a/register.go b/register.go
index 7180e62..e590a66 100644
--- a/register.go
+++ b/register.go
@@ -10,8 +10,7 @@ import (
 
 // RegisterTarget places a target in the registry with a given name and doc string.
 func (con *Controller) RegisterTarget(name, doc string, target Target) (Target, error) {
-	addr, err := targetAddr(target)
-	if err != nil {
+	if err := checkTarget(target); err != nil {
 		return nil, err
 	}
 
@@ -19,18 +18,20 @@ func (con *Controller) RegisterTarget(name, doc string, target Target) (Target,
 
 	con.mu.Lock()
 	con.targetsByName[name] = tuple
-	con.targetsByAddr[addr] = tuple
+	con.targetsByAddr[target] = tuple
 	con.mu.Unlock()
 
 	return target, nil
 }
 
-func targetAddr(target Target) (uintptr, error) {
+// Checks that target is a pointer,
+// which is what makes targets comparable and distinguishable from each other.
+func checkTarget(target Target) error {
 	v := reflect.ValueOf(target)
 	if v.Kind() != reflect.Pointer {
-		return 0, fmt.Errorf("got type %T for target, want a pointer type", target)
+		return fmt.Errorf("got type %T for target, want a pointer type", target)
 	}
-	return uintptr(v.UnsafePointer()), nil
+	return nil
 }
 
 type targetRegistryTuple struct {
@@ -63,10 +64,9 @@ func (con *Controller) RegistryTarget(name string) (Target, string) {
 // otherwise it's "unnamed X"
 // where X is the result of calling the target's Desc method.
 func (con *Controller) Describe(target Target) string {
-	addr, err := targetAddr(target)
-	if err == nil { // sic
+	if err := checkTarget(target); err == nil { // sic
 		con.mu.Lock()
-		tuple, ok := con.targetsByAddr[addr]
+		tuple, ok := con.targetsByAddr[target]
 		con.mu.Unlock()
 		if ok {
 			return tuple.name
diff --git a/runner.go b/runner.go
index 941228c..26c33b2 100644
--- a/runner.go
+++ b/runner.go
@@ -63,21 +63,22 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 		wg      sync.WaitGroup
 	)
 	for i, target := range targets {
-		addr, err := targetAddr(target)
-		if err != nil {
+		if err := checkTarget(target); err != nil {
 			errs[i] = err
 			continue
 		}
 
 		i, target := i, target // Go loop-var pitfall
+		key := target
 
 		if d, ok := target.(*deferredResolutionTarget); ok {
 			// Short-circuit here to avoid some confusing extra output in verbose mode.
-			target, err = d.resolve(con)
+			resolved, err := d.resolve(con)
 			if err != nil {
 				errs[i] = err
 				continue
 			}
+			target = resolved
 		}
 
 		wg.Add(1)
@@ -85,10 +86,10 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 			defer wg.Done()
 
 			con.mu.Lock()
-			o, ok := con.ran[addr]
+			o, ok := con.ran[key]
 			if !ok {
 				o = &outcome{g: newGate(false)}
-				con.ran[addr] = o
+				con.ran[key] = o
 			}
 			con.mu.Unlock()
 
-- 
2.43.0


From fa2b4051272dd2a90c37a997baba7c80b8a4626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 02/35] fix: recognize a target no matter which names refer to
 it

A target referred to by name in several places of a YAML file was run once per
reference, since the reference and not the target was remembered as having run.
---
 runner.go | 20 +++++++++-----------
 yaml.go   | 23 +++++++++++++++++++++++
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/runner.go b/runner.go
index 26c33b2..8e5faba 100644
--- a/runner.go
+++ b/runner.go
@@ -69,16 +69,14 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 		}
 
 		i, target := i, target // Go loop-var pitfall
-		key := target
 
-		if d, ok := target.(*deferredResolutionTarget); ok {
-			// Short-circuit here to avoid some confusing extra output in verbose mode.
-			resolved, err := d.resolve(con)
-			if err != nil {
-				errs[i] = err
-				continue
-			}
-			target = resolved
+		// Resolve names here,
+		// so that a target is recognized as the same one no matter how many names refer to it.
+		// (This also avoids some confusing extra output in verbose mode.)
+		target, err := con.resolveName(target)
+		if err != nil {
+			errs[i] = err
+			continue
 		}
 
 		wg.Add(1)
@@ -86,10 +84,10 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 			defer wg.Done()
 
 			con.mu.Lock()
-			o, ok := con.ran[key]
+			o, ok := con.ran[target]
 			if !ok {
 				o = &outcome{g: newGate(false)}
-				con.ran[key] = o
+				con.ran[target] = o
 			}
 			con.mu.Unlock()
 
diff --git a/yaml.go b/yaml.go
index 7a1e82a..dc277ff 100644
--- a/yaml.go
+++ b/yaml.go
@@ -112,6 +112,29 @@ func (dt *deferredResolutionTarget) resolve(con *Controller) (Target, error) {
 	return dt.Target, nil
 }
 
+// If target is a name, this produces the target that it refers to,
+// also if that is by way of other names.
+// Other targets are returned unchanged.
+func (con *Controller) resolveName(target Target) (Target, error) {
+	seen := make(map[Target]struct{})
+	for {
+		dt, ok := target.(*deferredResolutionTarget)
+		if !ok {
+			return target, nil
+		}
+		if _, ok := seen[dt]; ok {
+			return nil, fmt.Errorf("cannot resolve target %s, it refers to itself", dt.Name)
+		}
+		seen[dt] = struct{}{}
+
+		var err error
+		target, err = dt.resolve(con)
+		if err != nil {
+			return nil, err
+		}
+	}
+}
+
 func (dt *deferredResolutionTarget) Run(ctx context.Context, con *Controller) error {
 	target, err := dt.resolve(con)
 	if err != nil {
-- 
2.43.0


From 1540758c6afa8654337fd730987e238d1245a63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 03/35] fix: a Files target with an input among its own outputs
 does not wait for itself

---
 files.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/files.go b/files.go
index aa9fc57..ceb2689 100644
--- a/files.go
+++ b/files.go
@@ -198,9 +198,12 @@ func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 	var prereqs []Target
 
 	for _, in := range ft.In {
-		if target := findInFilesRegistry(in); target != nil {
-			prereqs = append(prereqs, target)
+		target := findInFilesRegistry(in)
+		if target == nil || target == ft {
+			// A target with an input among its own outputs must not wait for itself.
+			continue
 		}
+		prereqs = append(prereqs, target)
 	}
 
 	if len(prereqs) == 0 {
@@ -209,7 +212,7 @@ func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 	return con.Run(ctx, prereqs...)
 }
 
-func findInFilesRegistry(name string) Target {
+func findInFilesRegistry(name string) *files {
 	for {
 		if target, ok := filesRegistry.lookup(name); ok {
 			return target
-- 
2.43.0


From 728fb350816a67637042afb88f3e7fd9eb534be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 04/35] fix: report a target that depends on itself instead of
 waiting forever

Targets read from YAML can refer to each other in a circle (as can Files targets
by way of their inputs and outputs). Running one of those never returned.
---
 runner.go | 75 ++++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 74 insertions(+), 1 deletion(-)

diff --git a/runner.go b/runner.go
index 8e5faba..30bc14f 100644
--- a/runner.go
+++ b/runner.go
@@ -15,6 +15,66 @@ import (
 type outcome struct {
 	g   *gate
 	err error
+
+	// The outcomes that this target's Run method is presently waiting for, with counts.
+	// Protected by waitingMu.
+	waiting map[*outcome]int
+}
+
+var waitingMu sync.Mutex
+
+// The context key for the *outcome of the target that is presently running.
+type outcomeKeyType struct{}
+
+// Notes that the target whose outcome is o (which may be nil) is waiting for the one whose outcome is other.
+// The result is false, and nothing is noted, if other is (indirectly) waiting for o.
+func (o *outcome) waitFor(other *outcome) bool {
+	if o == nil {
+		return true
+	}
+
+	waitingMu.Lock()
+	defer waitingMu.Unlock()
+
+	if other.waitsFor(o, make(map[*outcome]struct{})) {
+		return false
+	}
+	if o.waiting == nil {
+		o.waiting = make(map[*outcome]int)
+	}
+	o.waiting[other]++
+	return true
+}
+
+// Reverses the effect of waitFor.
+func (o *outcome) doneWaiting(other *outcome) {
+	if o == nil {
+		return
+	}
+
+	waitingMu.Lock()
+	defer waitingMu.Unlock()
+
+	if o.waiting[other]--; o.waiting[other] == 0 {
+		delete(o.waiting, other)
+	}
+}
+
+// Callers must hold waitingMu.
+func (o *outcome) waitsFor(other *outcome, seen map[*outcome]struct{}) bool {
+	if o == other {
+		return true
+	}
+	if _, ok := seen[o]; ok {
+		return false
+	}
+	seen[o] = struct{}{}
+	for w := range o.waiting {
+		if w.waitsFor(other, seen) {
+			return true
+		}
+	}
+	return false
 }
 
 func (con *Controller) incDepth() {
@@ -46,6 +106,10 @@ func (con *Controller) decDepth() {
 // it blocks until the first one completes,
 // then uses the first one's result.
 //
+// A target that depends on itself,
+// which would otherwise wait for itself forever,
+// gets an error instead.
+//
 // This function waits for all goroutines to complete.
 // The return value may be an accumulation of multiple errors
 // produced with [errors.Join].
@@ -59,9 +123,11 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 
 	var (
 		verbose = GetVerbose(ctx)
+		parent  *outcome
 		errs    = make([]error, len(targets))
 		wg      sync.WaitGroup
 	)
+	parent, _ = ctx.Value(outcomeKeyType{}).(*outcome)
 	for i, target := range targets {
 		if err := checkTarget(target); err != nil {
 			errs[i] = err
@@ -94,7 +160,12 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 			if ok {
 				// This target was launched in a different goroutine.
 				// Wait for it to produce a result.
+				if !parent.waitFor(o) {
+					errs[i] = fmt.Errorf("%s depends on itself", con.Describe(target))
+					return
+				}
 				o.g.wait()
+				parent.doneWaiting(o)
 				errs[i] = o.err
 			} else {
 				// This target was not previously launched,
@@ -102,13 +173,15 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 				if verbose {
 					con.Indentf("Running %s", con.Describe(target))
 				}
-				err := target.Run(ctx, con)
+				parent.waitFor(o)
+				err := target.Run(context.WithValue(ctx, outcomeKeyType{}, o), con)
 				if err != nil {
 					err = errors.Wrapf(err, "running %s", con.Describe(target))
 				}
 				errs[i] = err
 				o.err = err
 				o.g.set(true)
+				parent.doneWaiting(o)
 			}
 		}()
 	}
-- 
2.43.0


From 6573756ce168b1ee6540c0733f0a5b2cf3ecc9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 05/35] fix: an empty second argument does not crash ParseArgs

---
 controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index 3c7a407..88ec373 100644
--- a/controller.go
+++ b/controller.go
@@ -88,7 +88,7 @@ func (con *Controller) ParseArgs(args []string) ([]Target, error) {
 		unknown []string
 	)
 
-	if len(args) > 1 && args[1][0] == '-' {
+	if len(args) > 1 && strings.HasPrefix(args[1], "-") {
 		// Just one target, and remaining args are arguments for that target.
 		if target, _ := con.RegistryTarget(args[0]); target != nil {
 			targets = append(targets, ArgTarget(target, args[1:]...))
-- 
2.43.0


From 95ffbd507f173e5a67a74746058e86de62d853ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 06/35] fix: a YAML Command reads standard input from the file
 its Stdin field names

---
 command.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/command.go b/command.go
index 238cd26..300b818 100644
--- a/command.go
+++ b/command.go
@@ -448,6 +448,8 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 
 	if c.Stdin == "$stdin" {
 		result.Stdin = os.Stdin
+	} else if c.Stdin != "" {
+		result.StdinFile = con.JoinPath(dir, c.Stdin)
 	}
 
 	switch c.Stdout {
-- 
2.43.0


From 136a9c842f7710149080179f485a7b5f34da75bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 07/35] fix: a YAML Command appends to FILE, not to >>FILE,
 when told >>FILE

---
 command.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/command.go b/command.go
index 300b818..c2569c0 100644
--- a/command.go
+++ b/command.go
@@ -472,10 +472,7 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		// do nothing
 
 	default:
-		result.StdoutFile = con.JoinPath(dir, c.Stdout)
-		if forceAppend && !strings.HasPrefix(result.StdoutFile, ">>") {
-			result.StdoutFile = ">>" + result.StdoutFile
-		}
+		result.StdoutFile = redirectPath(con, dir, c.Stdout, forceAppend)
 	}
 
 	switch c.Stderr {
@@ -498,15 +495,27 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		// do nothing
 
 	default:
-		result.StderrFile = con.JoinPath(dir, c.Stderr)
-		if forceAppend && !strings.HasPrefix(result.StderrFile, ">>") {
-			result.StderrFile = ">>" + result.StderrFile
-		}
+		result.StderrFile = redirectPath(con, dir, c.Stderr, forceAppend)
 	}
 
 	return result
 }
 
+// Produces the value for StdoutFile or StderrFile
+// from a filename given in YAML,
+// relative to dir,
+// that may have a >> prefix.
+func redirectPath(con *Controller, dir, file string, forceAppend bool) string {
+	if !strings.HasPrefix(file, ">>") {
+		file = con.JoinPath(dir, file)
+		if forceAppend {
+			file = ">>" + file
+		}
+		return file
+	}
+	return ">>" + con.JoinPath(dir, strings.TrimLeft(file, "> "))
+}
+
 func deferredIndent(w io.Writer) func(context.Context, *Controller) io.Writer {
 	return func(_ context.Context, con *Controller) io.Writer {
 		return con.IndentingCopier(w, "    ")
-- 
2.43.0


From b8589110265eee419a0ed458acedc70ab0a77ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 08/35] fix: an input or output that cannot be statted is an
 error, not a crash

---
 files.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/files.go b/files.go
index ceb2689..2791ba4 100644
--- a/files.go
+++ b/files.go
@@ -290,6 +290,9 @@ func fileHashesItemHelper(item string, hashes map[string]string) error {
 		hashes[item] = ""
 		return nil
 	}
+	if err != nil {
+		return errors.Wrapf(err, "statting %s", item)
+	}
 
 	if info.IsDir() {
 		entries, err := os.ReadDir(item)
-- 
2.43.0


From 57d991d64c119813e06d901c30ac17bd430bfd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 09/35] fix: Clean leaves its list of files alone and removes
 directories after the files in them

---
 clean.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/clean.go b/clean.go
index 1cc3cfb..3a901af 100644
--- a/clean.go
+++ b/clean.go
@@ -4,11 +4,13 @@ import (
 	"context"
 	"io/fs"
 	"os"
+	"path/filepath"
 	"sort"
 	"sync"
 
 	"github.com/bobg/errors"
 	"github.com/bobg/go-generics/v2/set"
+	"github.com/bobg/go-generics/v2/slices"
 	"gopkg.in/yaml.v3"
 )
 
@@ -36,14 +38,25 @@ type Clean struct {
 
 // Run implements Target.Run.
 func (c *Clean) Run(ctx context.Context, con *Controller) error {
-	files := c.Files
+	files := slices.Clone(c.Files)
 	if c.Autoclean {
 		autocleanMu.Lock()
 		autocleanFiles := autocleanRegistry.Slice()
 		files = append(files, autocleanFiles...)
 		autocleanMu.Unlock()
 	}
-	sort.Strings(files)
+
+	// Files inside a directory come before the directory itself,
+	// also when one of the names is absolute and the other one isn't.
+	abs := make(map[string]string)
+	for _, f := range files {
+		a, err := filepath.Abs(f)
+		if err != nil {
+			return errors.Wrapf(err, "making %s absolute", f)
+		}
+		abs[f] = a
+	}
+	sort.Slice(files, func(i, j int) bool { return abs[files[i]] > abs[files[j]] })
 
 	if len(files) == 0 {
 		return nil
-- 
2.43.0


From 7b2bbebd5d77ef5ae6fe62250639177e3d6141b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 10/35] fix: ListTargets indents every line of a doc string

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 6149965..32c232e 100644
--- a/main.go
+++ b/main.go
@@ -142,7 +142,7 @@ func (m *Main) driverless(ctx context.Context) error {
 	return con.Run(ctx, targets...)
 }
 
-var bolRegex = regexp.MustCompile("^")
+var bolRegex = regexp.MustCompile("(?m)^")
 
 // OpenHashDB ensures the given directory exists and opens (or creates) the hash DB there.
 // Callers must make sure to call Close on the returned DB when finished with it.
-- 
2.43.0


From 6c3c73bf80a41ebf40b0176f352ce8e33ece3faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 11/35] fix: include the contents of a Seq in the hash of a
 Files target

---
 seq.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq.go b/seq.go
index ef84027..0e75311 100644
--- a/seq.go
+++ b/seq.go
@@ -20,18 +20,18 @@ import (
 // The elements in the sequence are targets themselves,
 // or target names.
 func Seq(targets ...Target) Target {
-	return &seq{targets: targets}
+	return &seq{Targets: targets}
 }
 
 type seq struct {
-	targets []Target
+	Targets []Target `json:"seq"` // exported, to be seen by the JSON encoder
 }
 
 var _ Target = &seq{}
 
 // Run implements Target.Run.
 func (s *seq) Run(ctx context.Context, con *Controller) error {
-	for _, t := range s.targets {
+	for _, t := range s.Targets {
 		if err := con.Run(ctx, t); err != nil {
 			return err
 		}
-- 
2.43.0


From 459491ead5a4832bd12ef4abaa9d1cec2226b96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 12/35] fix: hash a nested rule given by name the same before
 and after the name is resolved

---
 files.go | 93 ++++++++++++++++++++++++++++++++++++++++++++++++++------
 yaml.go  |  7 +++++
 2 files changed, 91 insertions(+), 9 deletions(-)

diff --git a/files.go b/files.go
index 2791ba4..e1151bd 100644
--- a/files.go
+++ b/files.go
@@ -3,6 +3,7 @@ package fab
 import (
 	"context"
 	"crypto/sha256"
+	"encoding"
 	"encoding/hex"
 	"io"
 	"io/fs"
@@ -173,17 +174,20 @@ func (ft *files) computeHash(con *Controller) ([]byte, error) {
 	if err != nil {
 		return nil, errors.Wrapf(err, "computing output hash(es) for %s", con.Describe(ft))
 	}
-	tt := reflect.TypeOf(ft.Target)
+	names := make(map[string]hashedTarget)
+	if err := con.namesIn(reflect.ValueOf(ft.Target), names, make(map[any]struct{})); err != nil {
+		return nil, errors.Wrapf(err, "resolving target names in %s", con.Describe(ft))
+	}
 	s := struct {
-		Target     Target   `json:"target"`
-		TargetType string   `json:"target_type"`
-		In         []string `json:"in,omitempty"`  // [filename, hash, filename, hash, ...]
-		Out        []string `json:"out,omitempty"` // [filename, hash, filename, hash, ...]
+		hashedTarget
+		Names map[string]hashedTarget `json:"names,omitempty"` // the targets that names in Target refer to
+		In    []string                `json:"in,omitempty"`    // [filename, hash, filename, hash, ...]
+		Out   []string                `json:"out,omitempty"`   // [filename, hash, filename, hash, ...]
 	}{
-		Target:     ft.Target,
-		TargetType: tt.String(),
-		In:         inHashes,
-		Out:        outHashes,
+		hashedTarget: newHashedTarget(ft.Target),
+		Names:        names,
+		In:           inHashes,
+		Out:          outHashes,
 	}
 	j, err := json.Marshal(s)
 	if err != nil {
@@ -194,6 +198,77 @@ func (ft *files) computeHash(con *Controller) ([]byte, error) {
 	return sum[:], nil
 }
 
+// This is how a target is represented in the input to the hash function.
+type hashedTarget struct {
+	Target     Target `json:"target"`
+	TargetType string `json:"target_type"`
+}
+
+func newHashedTarget(target Target) hashedTarget {
+	return hashedTarget{Target: target, TargetType: reflect.TypeOf(target).String()}
+}
+
+// Finds the target names in v that the JSON encoder gets to see
+// (and those in the targets they refer to, and so on)
+// and adds them to names together with what they refer to.
+func (con *Controller) namesIn(v reflect.Value, names map[string]hashedTarget, seen map[any]struct{}) error {
+	switch v.Kind() {
+	case reflect.Interface:
+		return con.namesIn(v.Elem(), names, seen)
+
+	case reflect.Pointer:
+		if v.IsNil() || !v.CanInterface() {
+			return nil
+		}
+		ptr := v.Interface()
+		if _, ok := seen[ptr]; ok {
+			return nil
+		}
+		seen[ptr] = struct{}{}
+
+		switch ptr := ptr.(type) {
+		case *deferredResolutionTarget:
+			target, err := ptr.resolve(con)
+			if err != nil {
+				return err
+			}
+			names[ptr.Name] = newHashedTarget(target)
+			return con.namesIn(reflect.ValueOf(target), names, seen)
+
+		case json.Marshaler, encoding.TextMarshaler:
+			return nil
+		}
+		return con.namesIn(v.Elem(), names, seen)
+
+	case reflect.Slice, reflect.Array:
+		for i := 0; i < v.Len(); i++ {
+			if err := con.namesIn(v.Index(i), names, seen); err != nil {
+				return err
+			}
+		}
+
+	case reflect.Map:
+		for iter := v.MapRange(); iter.Next(); {
+			if err := con.namesIn(iter.Value(), names, seen); err != nil {
+				return err
+			}
+		}
+
+	case reflect.Struct:
+		for i := 0; i < v.NumField(); i++ {
+			f := v.Type().Field(i)
+			if f.Tag.Get("json") == "-" || (!f.IsExported() && !f.Anonymous) {
+				continue
+			}
+			if err := con.namesIn(v.Field(i), names, seen); err != nil {
+				return err
+			}
+		}
+	}
+
+	return nil
+}
+
 func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 	var prereqs []Target
 
diff --git a/yaml.go b/yaml.go
index dc277ff..266964f 100644
--- a/yaml.go
+++ b/yaml.go
@@ -2,6 +2,7 @@ package fab
 
 import (
 	"context"
+	"encoding/json"
 	"fmt"
 	"io"
 	"io/fs"
@@ -135,6 +136,12 @@ func (con *Controller) resolveName(target Target) (Target, error) {
 	}
 }
 
+// MarshalJSON implements json.Marshaler.
+// The result does not depend on whether the name has been resolved yet.
+func (dt *deferredResolutionTarget) MarshalJSON() ([]byte, error) {
+	return json.Marshal(struct{ Name string }{Name: dt.Name})
+}
+
 func (dt *deferredResolutionTarget) Run(ctx context.Context, con *Controller) error {
 	target, err := dt.resolve(con)
 	if err != nil {
-- 
2.43.0


From 9fd3900de9870f24691ba2c46dc781b378863b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 13/35] fix: YAML files in different directories may refer to
 each other's targets

---
 controller.go |  4 ++++
 yaml.go       | 23 +++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/controller.go b/controller.go
index 88ec373..2909f3d 100644
--- a/controller.go
+++ b/controller.go
@@ -32,6 +32,9 @@ type Controller struct {
 	targetsByName map[string]targetRegistryTuple
 
 	targetsByAddr map[Target]targetRegistryTuple
+
+	// Directories (related to topdir) whose YAML files are presently being read, with counts.
+	readingYAML map[string]int
 }
 
 // NewController creates a new [Controller]
@@ -44,6 +47,7 @@ func NewController(topdir string) *Controller {
 		ran:           make(map[Target]*outcome),
 		targetsByName: make(map[string]targetRegistryTuple),
 		targetsByAddr: make(map[Target]targetRegistryTuple),
+		readingYAML:   make(map[string]int),
 	}
 }
 
diff --git a/yaml.go b/yaml.go
index 266964f..e1b8752 100644
--- a/yaml.go
+++ b/yaml.go
@@ -73,6 +73,12 @@ func (con *Controller) YAMLTarget(node *yaml.Node, dir string) (Target, error) {
 				return found, nil
 			}
 
+			if con.isReadingYAML(tdir) {
+				// A mutual reference,
+				// possibly to a target that has not been parsed yet.
+				return &deferredResolutionTarget{Name: qname}, nil
+			}
+
 			if err := con.ReadYAMLFile(tdir); err != nil {
 				return nil, errors.Wrapf(err, "resolving target %s", qname)
 			}
@@ -90,6 +96,13 @@ func (con *Controller) YAMLTarget(node *yaml.Node, dir string) (Target, error) {
 	return &deferredResolutionTarget{Name: qname}, nil
 }
 
+// Tells whether the YAML file in the given directory is presently being read.
+func (con *Controller) isReadingYAML(dir string) bool {
+	con.mu.Lock()
+	defer con.mu.Unlock()
+	return con.readingYAML[dir] > 0
+}
+
 type deferredResolutionTarget struct {
 	mu     sync.Mutex
 	Name   string
@@ -183,6 +196,16 @@ func (dt *deferredResolutionTarget) Desc() string {
 //	Test: !Command
 //	  - go test ./...
 func (con *Controller) ReadYAML(r io.Reader, dir string) error {
+	con.mu.Lock()
+	con.readingYAML[dir]++
+	con.mu.Unlock()
+
+	defer func() {
+		con.mu.Lock()
+		con.readingYAML[dir]--
+		con.mu.Unlock()
+	}()
+
 	var (
 		dec = yaml.NewDecoder(r)
 		doc yaml.Node
-- 
2.43.0


From 604140ae5c2cb33f69961ef58c9178840b26e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 14/35] fix: proto.Deps finds all forms of import, in the
 directory protoc takes them from, relative to the YAML file

---
 proto/proto.go | 116 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 101 insertions(+), 15 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 856d0cc..74964b4 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -1,13 +1,15 @@
 package proto
 
 import (
-	"bufio"
+	"bytes"
 	"io"
 	"io/fs"
 	"os"
 	"path/filepath"
 	"regexp"
 	"sort"
+	"strconv"
+	"strings"
 
 	"github.com/bobg/errors"
 	"github.com/bobg/go-generics/v2/set"
@@ -110,20 +112,100 @@ func Deps(filename string, includes []string) ([]string, error) {
 	return slice, err
 }
 
-var importRegex = regexp.MustCompile(`^import(\s+public)?\s*"([^"]+)"`)
-
 func protodeps(r io.Reader, includes []string, result set.Of[string]) error {
-	sc := bufio.NewScanner(r)
-	for sc.Scan() {
-		m := importRegex.FindStringSubmatch(sc.Text())
-		if len(m) == 0 {
-			continue
-		}
-		if err := protodepsImport(m[2], includes, result); err != nil {
+	src, err := io.ReadAll(r)
+	if err != nil {
+		return err
+	}
+	for _, imp := range imports(src) {
+		if err := protodepsImport(imp, includes, result); err != nil {
 			return err
 		}
 	}
-	return sc.Err()
+	return nil
+}
+
+// Each match is a comment, a string literal, a word, or some other single character.
+var tokenRegex = regexp.MustCompile(`(?s)//[^\n]*|/\*.*?\*/|"(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)*'|[\w.]+|\S`)
+
+// Produces the names in the import statements of a .proto file.
+func imports(src []byte) []string {
+	var (
+		result []string
+		stmt   []string // the tokens of the present top-level statement
+		depth  int      // the nesting depth of braces
+	)
+
+	src = bytes.TrimPrefix(src, []byte("\xef\xbb\xbf"))
+	for _, b := range tokenRegex.FindAll(src, -1) {
+		tok := string(b)
+		switch {
+		case strings.HasPrefix(tok, "//"), strings.HasPrefix(tok, "/*"):
+			// Skip comments.
+
+		case tok == "{":
+			depth++
+
+		case tok == "}":
+			if depth > 0 {
+				depth--
+			}
+			stmt = nil
+
+		case depth > 0:
+			// Skip the contents of messages and so on.
+
+		case tok == ";":
+			if name, ok := parseImport(stmt); ok {
+				result = append(result, name)
+			}
+			stmt = nil
+
+		default:
+			stmt = append(stmt, tok)
+		}
+	}
+
+	return result
+}
+
+// Parses the tokens of a statement as the keyword "import,"
+// optionally followed by "public" or "weak,"
+// followed by one or more string literals.
+func parseImport(stmt []string) (string, bool) {
+	if len(stmt) == 0 || stmt[0] != "import" {
+		return "", false
+	}
+	stmt = stmt[1:]
+	if len(stmt) > 0 && (stmt[0] == "public" || stmt[0] == "weak") {
+		stmt = stmt[1:]
+	}
+
+	var name string
+	for _, tok := range stmt {
+		quote := tok[0]
+		if (quote != '"' && quote != '\'') || len(tok) < 2 {
+			return "", false
+		}
+		for tok = tok[1 : len(tok)-1]; tok != ""; {
+			if strings.HasPrefix(tok, `\"`) || strings.HasPrefix(tok, `\'`) {
+				name += tok[1:2]
+				tok = tok[2:]
+				continue
+			}
+			r, multibyte, tail, err := strconv.UnquoteChar(tok, 0)
+			if err != nil {
+				return "", false
+			}
+			if multibyte {
+				name += string(r)
+			} else {
+				name += string([]byte{byte(r)})
+			}
+			tok = tail
+		}
+	}
+	return name, name != ""
 }
 
 func protodepsImport(imp string, includes []string, result set.Of[string]) error {
@@ -131,7 +213,7 @@ func protodepsImport(imp string, includes []string, result set.Of[string]) error
 		full := filepath.Join(inc, imp)
 
 		if result.Has(full) {
-			continue
+			return nil
 		}
 
 		f, err := os.Open(full)
@@ -151,13 +233,17 @@ func protodepsImport(imp string, includes []string, result set.Of[string]) error
 
 func protodepsDecoder(con *fab.Controller, node *yaml.Node, dir string) ([]string, error) {
 	var pd struct {
-		File     string   `yaml:"File"`
-		Includes []string `yaml:"Includes"`
+		File     string    `yaml:"File"`
+		Includes yaml.Node `yaml:"Includes"`
 	}
 	if err := node.Decode(&pd); err != nil {
 		return nil, errors.Wrap(err, "YAML error in proto.Deps node")
 	}
-	return Deps(con.JoinPath(dir, pd.File), pd.Includes)
+	includes, err := con.YAMLFileList(&pd.Includes, dir)
+	if err != nil {
+		return nil, errors.Wrap(err, "parsing proto.Deps include list")
+	}
+	return Deps(con.JoinPath(dir, pd.File), includes)
 }
 
 func init() {
-- 
2.43.0


From 66ffdbaa94bf93f5e9b8fe38e40af36251c4299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 15/35] fix: a driver offers exactly the exported variables
 that can be registered as targets

---
 compile.go | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/compile.go b/compile.go
index fb540d1..8e6874e 100644
--- a/compile.go
+++ b/compile.go
@@ -7,6 +7,7 @@ import (
 	"go/doc"
 	"go/parser"
 	"go/token"
+	"go/types"
 	"io"
 	"os"
 	"os/exec"
@@ -94,21 +95,13 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		fset   = token.NewFileSet()
 		pkgdir = filepath.Dir(pkg.GoFiles[0])
 	)
-	astpkgs, err := parser.ParseDir(fset, pkgdir, nil, parser.ParseComments)
-	if err != nil {
-		return errors.Wrapf(err, "parsing %s", pkgdir)
-	}
-	if len(astpkgs) != 1 {
-		return fmt.Errorf(
-			"parsed %d packages in %s, want 1 %v",
-			len(astpkgs),
-			pkgdir,
-			maps.Keys(astpkgs),
-		)
-	}
-	astpkg, ok := astpkgs[pkg.Name]
-	if !ok {
-		return fmt.Errorf("package %s not found in %s", pkg.Name, pkgdir)
+	astpkg := &ast.Package{Name: pkg.Name, Files: make(map[string]*ast.File)}
+	for _, filename := range pkg.GoFiles {
+		file, err := parser.ParseFile(fset, filename, nil, parser.ParseComments)
+		if err != nil {
+			return errors.Wrapf(err, "parsing %s", filename)
+		}
+		astpkg.Files[filename] = file
 	}
 
 	type targetPair struct {
@@ -124,13 +117,19 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 			continue
 		}
 		obj := scope.Lookup(ident)
-		if obj == nil {
+		if _, ok := obj.(*types.Var); !ok {
+			continue
+		}
+		switch obj.Type().Underlying().(type) {
+		case *types.Pointer, *types.Interface:
+			// OK, these are the types that RegisterTarget accepts.
+		default:
 			continue
 		}
 		if err := checkImplementsTarget(obj.Type()); err != nil {
 			continue
 		}
-		targets[ident] = &targetPair{Name: ident}
+		targets[ident] = &targetPair{Name: ident, Doc: `""`}
 	}
 
 	var (
@@ -138,7 +137,12 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		parser = dpkg.Parser()
 		pr     = dpkg.Printer()
 	)
-	for _, v := range dpkg.Vars {
+	vars := dpkg.Vars
+	for _, t := range dpkg.Types {
+		// Variables explicitly declared with one of the package's own types.
+		vars = append(vars, t.Vars...)
+	}
+	for _, v := range vars {
 		for _, name := range v.Names {
 			if tp, ok := targets[name]; ok {
 				dstr := string(pr.Text(parser.Parse(v.Doc)))
-- 
2.43.0


From 3f2f0506b2ff2d4da21b38dd241133dbdc518f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 16/35] fix: never run a stale driver, and keep a fresh one

---
 compile.go |  26 ++++++-
 main.go    | 199 ++++++++++++++++++++++-------------------------------
 2 files changed, 107 insertions(+), 118 deletions(-)

diff --git a/compile.go b/compile.go
index 8e6874e..6a2bed6 100644
--- a/compile.go
+++ b/compile.go
@@ -254,7 +254,31 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		return fmt.Errorf("error in go build: %w; output follows\n%s", err, string(output))
 	}
 
-	return os.Rename(filepath.Join(tmpdir, "x"), binfile)
+	return moveFile(filepath.Join(tmpdir, "x"), binfile)
+}
+
+// moveFile renames a file,
+// or copies it if it cannot be renamed,
+// which is the case when the two names are in different filesystems.
+func moveFile(from, to string) error {
+	if err := os.Rename(from, to); err == nil {
+		return nil
+	}
+
+	tmpdir, err := os.MkdirTemp(filepath.Dir(to), "tmp")
+	if err != nil {
+		return errors.Wrapf(err, "creating tempdir in %s", filepath.Dir(to))
+	}
+	defer os.RemoveAll(tmpdir)
+
+	if err = copyFile(from, tmpdir); err != nil {
+		return errors.Wrapf(err, "copying %s", from)
+	}
+	tmpfile := filepath.Join(tmpdir, filepath.Base(from))
+	if err = os.Chmod(tmpfile, 0755); err != nil {
+		return errors.Wrapf(err, "making %s executable", tmpfile)
+	}
+	return os.Rename(tmpfile, to)
 }
 
 // LoadMode is the minimal set of flags to enable for Config.Mode in a call to Packages.Load
diff --git a/main.go b/main.go
index 32c232e..7e4582a 100644
--- a/main.go
+++ b/main.go
@@ -2,13 +2,14 @@ package fab
 
 import (
 	"context"
+	"crypto/sha256"
+	"encoding/hex"
 	"encoding/json"
 	"fmt"
 	"io/fs"
 	"os"
 	"os/exec"
 	"path/filepath"
-	"reflect"
 	"regexp"
 	"runtime/debug"
 	"strings"
@@ -49,11 +50,11 @@ type Main struct {
 }
 
 // Run executes the main logic of the fab command.
-// A driver binary with a name matching the Go package path of the _fab subdir
+// A driver binary with a name matching the Go package path of the _fab subdir,
+// the hash of the user's code in it,
+// and the version of fab,
 // is sought in m.Fabdir.
 // If it does not exist,
-// or if its corresponding dirhash is wrong
-// (i.e., out of date with respect to the user's code),
 // or if m.Force is true,
 // it is created with Compile.
 // It is then invoked with the command-line arguments indicated by the fields of m.
@@ -144,6 +145,9 @@ func (m *Main) driverless(ctx context.Context) error {
 
 var bolRegex = regexp.MustCompile("(?m)^")
 
+// How long to keep unused hash DB entries and drivers.
+const keepTime = 30 * 24 * time.Hour
+
 // OpenHashDB ensures the given directory exists and opens (or creates) the hash DB there.
 // Callers must make sure to call Close on the returned DB when finished with it.
 func OpenHashDB(dir string) (*sqlite.DB, error) {
@@ -151,12 +155,10 @@ func OpenHashDB(dir string) (*sqlite.DB, error) {
 		return nil, errors.Wrapf(err, "creating directory %s", dir)
 	}
 	dbfile := filepath.Join(dir, "hash.db")
-	db, err := sqlite.Open(dbfile, sqlite.Keep(30*24*time.Hour)) // keep db entries for 30 days
+	db, err := sqlite.Open(dbfile, sqlite.Keep(keepTime))
 	return db, errors.Wrapf(err, "opening file %s", dbfile)
 }
 
-const fabVersionBasename = "fab-version.json"
-
 // TODO: Remove skipVersionCheck, which is here only to help an old test keep running.
 // Update the test instead.
 func (m *Main) getDriver(ctx context.Context, skipVersionCheck bool) (_ string, err error) {
@@ -202,148 +204,111 @@ func (m *Main) getDriver(ctx context.Context, skipVersionCheck bool) (_ string,
 		return "", errors.Wrapf(err, "ensuring directory %s/%s exists", m.Fabdir, pkg.PkgPath)
 	}
 
-	var (
-		hashfile    = filepath.Join(driverdir, "hash")
-		driver      = filepath.Join(driverdir, "fab.bin")
-		versionfile = filepath.Join(driverdir, fabVersionBasename)
-		compile     bool
-		oldhash     []byte
-	)
+	// The location of the driver tells which sources, and which version of fab, it is built from.
+	// That way a driver is never mistaken for another one,
+	// not even when fab is interrupted or when several instances of it run concurrently.
+	hash, err := driverHash(pkg.GoFiles) // TODO: is this the right set of files?
+	if err != nil {
+		return "", errors.Wrapf(err, "computing hash of directory %s", pkgdir)
+	}
+	subdir := filepath.Join(driverdir, "fab-"+hash)
+	compile := m.Force
+
+	if !skipVersionCheck {
+		info, ok := debug.ReadBuildInfo()
+		if ok {
+			j, err := json.Marshal(info)
+			if err != nil {
+				return "", errors.Wrap(err, "encoding build info")
+			}
+			sum := sha256.Sum224(j)
+			subdir += "-" + hex.EncodeToString(sum[:])
+		} else {
+			if m.Verbose {
+				fmt.Println("Could not read build info of running Fab process, will recompile driver")
+			}
+			compile = true
+		}
+	}
+	driver := filepath.Join(subdir, "fab.bin")
 
 	if m.Force {
-		compile = true
 		if m.Verbose {
 			fmt.Println("Forcing recompilation of driver")
 		}
-	} else {
+	} else if !compile {
 		_, err = os.Stat(driver)
-		if errors.Is(err, fs.ErrNotExist) {
-			compile = true
+		if err == nil {
 			if m.Verbose {
-				fmt.Println("Compiling driver")
+				fmt.Println("Using existing driver")
 			}
-		} else if err != nil {
-			return "", errors.Wrapf(err, "statting %s", driver)
+			now := time.Now()
+			_ = os.Chtimes(subdir, now, now) // see removeOldDrivers
+			return driver, nil
 		}
-	}
-
-	var buildInfo *debug.BuildInfo
-	if !compile && !skipVersionCheck {
-		compile, buildInfo, err = m.checkVersion(versionfile)
-		if err != nil {
-			return "", errors.Wrap(err, "checking Fab version")
+		if !errors.Is(err, fs.ErrNotExist) {
+			return "", errors.Wrapf(err, "statting %s", driver)
 		}
-	}
-
-	if !compile {
-		oldhash, err = os.ReadFile(hashfile)
-		if errors.Is(err, fs.ErrNotExist) {
-			compile = true
-			if m.Verbose {
-				fmt.Println("Compiling driver")
-			}
-		} else if err != nil {
-			return "", errors.Wrapf(err, "reading %s", hashfile)
+		if m.Verbose {
+			fmt.Println("Compiling driver")
 		}
 	}
 
-	dh := newDirHasher()
-	for _, filename := range pkg.GoFiles { // TODO: is this the right set of files?
-		if err = addFileToHash(dh, filename); err != nil {
-			return "", errors.Wrapf(err, "hashing file %s", filename)
-		}
-	}
-	newhash, err := dh.hash()
+	tmpdir, err := os.MkdirTemp(driverdir, "tmp")
 	if err != nil {
-		return "", errors.Wrapf(err, "computing hash of directory %s", pkgdir)
+		return "", errors.Wrapf(err, "creating temp dir in %s", driverdir)
 	}
+	defer os.RemoveAll(tmpdir)
 
-	if !compile {
-		if newhash == string(oldhash) {
-			if m.Verbose {
-				fmt.Println("Using existing driver")
-			}
-		} else {
-			compile = true
-			if m.Verbose {
-				fmt.Println("Recompiling driver")
-			}
-		}
+	tmpdriver := filepath.Join(tmpdir, "fab.bin")
+	if err = CompilePackage(ctx, pkg, tmpdriver); err != nil {
+		return "", errors.Wrapf(err, "compiling driver %s", driver)
 	}
 
-	if !compile {
-		return driver, nil
+	newhash, err := driverHash(pkg.GoFiles)
+	if err != nil {
+		return "", errors.Wrapf(err, "recomputing hash of directory %s", pkgdir)
 	}
-
-	if err = CompilePackage(ctx, pkg, driver); err != nil {
-		return "", errors.Wrapf(err, "compiling driver %s", driver)
+	if newhash != hash {
+		return "", fmt.Errorf("source files in %s changed while compiling driver", pkgdir)
 	}
-	if err = os.WriteFile(hashfile, []byte(newhash), 0644); err != nil {
-		return "", errors.Wrapf(err, "writing %s", hashfile)
+
+	if err = os.MkdirAll(subdir, 0755); err != nil {
+		return "", errors.Wrapf(err, "ensuring directory %s exists", subdir)
 	}
-	if buildInfo != nil {
-		v, err := os.OpenFile(versionfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
-		if err != nil {
-			return "", errors.Wrapf(err, "opening %s for writing", versionfile)
-		}
-		defer func() {
-			closeErr := v.Close()
-			if err == nil {
-				err = errors.Wrapf(closeErr, "closing %s", versionfile)
-			}
-		}()
-		enc := json.NewEncoder(v)
-		enc.SetIndent("", "  ")
-		if err = enc.Encode(buildInfo); err != nil {
-			return "", errors.Wrap(err, "encoding build info")
-		}
+	if err = os.Rename(tmpdriver, driver); err != nil {
+		return "", errors.Wrapf(err, "installing driver %s", driver)
 	}
+	removeOldDrivers(driverdir)
 
 	return driver, nil
 }
 
-func (m *Main) checkVersion(versionfile string) (bool, *debug.BuildInfo, error) {
-	newInfo, ok := debug.ReadBuildInfo()
-	if !ok {
-		if m.Verbose {
-			fmt.Println("Could not read build info of running Fab process, will recompile driver")
-		}
-		_ = os.Remove(versionfile)
-		return true, nil, nil
-	}
-
-	f, err := os.Open(versionfile)
-	if errors.Is(err, fs.ErrNotExist) {
-		if m.Verbose {
-			fmt.Printf("No %s file, compiling driver\n", fabVersionBasename)
+// Removes drivers, and files left behind by interrupted compilations,
+// that have not been used for a long time.
+func removeOldDrivers(driverdir string) {
+	for _, pattern := range []string{"fab-*", "tmp*"} {
+		names, err := filepath.Glob(filepath.Join(driverdir, pattern))
+		if err != nil {
+			continue
 		}
-		return true, newInfo, nil
-	}
-	if err != nil {
-		return false, nil, errors.Wrapf(err, "opening %s", versionfile)
-	}
-	defer f.Close()
-
-	var (
-		dec     = json.NewDecoder(f)
-		oldInfo debug.BuildInfo
-	)
-
-	if err = dec.Decode(&oldInfo); err != nil {
-		if m.Verbose {
-			fmt.Printf("Error decoding %s, will recompile driver: %s\n", versionfile, err)
+		for _, name := range names {
+			info, err := os.Stat(name)
+			if err == nil && time.Since(info.ModTime()) > keepTime {
+				_ = os.RemoveAll(name)
+			}
 		}
-		return true, newInfo, nil
 	}
+}
 
-	if !reflect.DeepEqual(*newInfo, oldInfo) {
-		if m.Verbose {
-			fmt.Println("Fab build info changed, will recompile driver")
+func driverHash(filenames []string) (string, error) {
+	dh := newDirHasher()
+	for _, filename := range filenames {
+		if err := addFileToHash(dh, filename); err != nil {
+			return "", errors.Wrapf(err, "hashing file %s", filename)
 		}
-		return true, newInfo, nil
 	}
-
-	return false, nil, nil
+	return dh.hash()
 }
 
 func addFileToHash(dh *dirHasher, filename string) error {
-- 
2.43.0


From 985a47dfdb19c923a7d2abde53805eb95bcbde17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 17/35] fix: relative directories mean the same with a compiled
 driver as without one

---
 main.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 7e4582a..df8ff4c 100644
--- a/main.go
+++ b/main.go
@@ -84,7 +84,22 @@ func (m *Main) Run(ctx context.Context) error {
 		return errors.Wrap(err, "ensuring driver is up to date")
 	}
 
-	args := []string{"-fab", m.Fabdir, "-top", m.Topdir}
+	// The driver runs in m.Topdir,
+	// so relative paths do not mean the same to it.
+	driver, err = filepath.Abs(driver)
+	if err != nil {
+		return errors.Wrapf(err, "making %s absolute", driver)
+	}
+	fabdir, err := filepath.Abs(m.Fabdir)
+	if err != nil {
+		return errors.Wrapf(err, "making %s absolute", m.Fabdir)
+	}
+	topdir, err := filepath.Abs(m.Topdir)
+	if err != nil {
+		return errors.Wrapf(err, "making %s absolute", m.Topdir)
+	}
+
+	args := []string{"-fab", fabdir, "-top", topdir}
 	if m.Verbose {
 		args = append(args, "-v")
 	}
-- 
2.43.0


From 443f55475aa2738984d90b6215e1ae63efba5858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 18/35] fix: TopDir understands _dir declarations that are not
 strings to YAML

In a directory whose name looks like a number (say), TopDir ignored the
_dir declaration and took the directory itself for the top directory.
---
 top.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/top.go b/top.go
index 2708605..52fc826 100644
--- a/top.go
+++ b/top.go
@@ -63,15 +63,16 @@ func topDirHelper(dir string) (string, error) {
 	defer rc.Close()
 
 	dec := yaml.NewDecoder(rc)
-	var m map[string]any
+	var m map[string]yaml.Node
 	if err = dec.Decode(&m); err != nil {
 		return "", errors.Wrapf(err, "reading YAML file in %s", dir)
 	}
 
-	decl, ok := m["_dir"].(string)
-	if !ok {
+	declNode, ok := m["_dir"]
+	if !ok || declNode.Kind != yaml.ScalarNode || declNode.Tag == "!!null" {
 		return dir, nil
 	}
+	decl := declNode.Value // also for a name like 2024, which is not a string to YAML
 
 	if filepath.IsAbs(decl) {
 		return "", fmt.Errorf("absolute pathname %s in _dir decl in %s", decl, dir)
-- 
2.43.0


From f95c8ab9a90384f03ce616cd69e4d277cc20b0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 19/35] fix: combine a Command's output streams also if they
 spell the name of the same file differently

With StdoutFile out and StderrFile ./out, each stream overwrote what the other had written.
---
 command.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/command.go b/command.go
index c2569c0..92b9566 100644
--- a/command.go
+++ b/command.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"os/exec"
+	"path/filepath"
 	"strings"
 
 	"github.com/bobg/errors"
@@ -225,7 +226,9 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 		stderrFile = strings.TrimLeft(stderrFile, "> ")
 	}
 
-	if stdoutFile == stderrFile && stdoutAppend != stderrAppend {
+	combined := stdoutFile != "" && stderrFile != "" && samePath(stdoutFile, stderrFile)
+
+	if combined && stdoutAppend != stderrAppend {
 		return fmt.Errorf("stdout and stderr name the same file but disagree about append vs. overwrite")
 	}
 
@@ -259,7 +262,7 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 
 	if stderrFile != "" {
 		switch {
-		case stdoutFile == stderrFile:
+		case combined:
 			cmd.Stderr = cmd.Stdout
 
 		case stderrAppend:
@@ -346,6 +349,13 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 	return err
 }
 
+// Tells whether two file names lead to the same place.
+func samePath(a, b string) bool {
+	a, aErr := filepath.Abs(a)
+	b, bErr := filepath.Abs(b)
+	return aErr == nil && bErr == nil && a == b
+}
+
 // Desc implements Target.Desc.
 func (*Command) Desc() string {
 	return "Command"
-- 
2.43.0


From f01acacc990f83bcec0d69e6e12bbeca1332bf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 20/35] fix: close a deferred writer just once when both of a
 Command's streams go to it

Closing an *os.File the second time made the target fail.
---
 command.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index 92b9566..0f321ff 100644
--- a/command.go
+++ b/command.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
+	"reflect"
 	"strings"
 
 	"github.com/bobg/errors"
@@ -283,9 +284,12 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 		}
 	}
 
+	var stdoutCloser io.Closer
+
 	if cmd.Stdout == nil && c.StdoutFn != nil {
 		if w := c.StdoutFn(ctx, con); w != nil {
 			if closer, ok := w.(io.Closer); ok {
+				stdoutCloser = closer
 				defer func() {
 					closeErr := closer.Close()
 					if err == nil {
@@ -298,7 +302,8 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 	}
 	if cmd.Stderr == nil && c.StderrFn != nil {
 		if w := c.StderrFn(ctx, con); w != nil {
-			if closer, ok := w.(io.Closer); ok {
+			// If both functions produce the same writer, close it just once.
+			if closer, ok := w.(io.Closer); ok && !sameCloser(closer, stdoutCloser) {
 				defer func() {
 					closeErr := closer.Close()
 					if err == nil {
@@ -349,6 +354,10 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 	return err
 }
 
+func sameCloser(a, b io.Closer) bool {
+	return a != nil && b != nil && reflect.ValueOf(a).Comparable() && reflect.ValueOf(b).Comparable() && a == b
+}
+
 // Tells whether two file names lead to the same place.
 func samePath(a, b string) bool {
 	a, aErr := filepath.Abs(a)
-- 
2.43.0


From cced04b388c3647d5d2adf2cad2d51bd6cda407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 21/35] fix: Glob patterns may be absolute or begin with ./ or
 ../

---
 files.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/files.go b/files.go
index e1151bd..ab21265 100644
--- a/files.go
+++ b/files.go
@@ -8,9 +8,11 @@ import (
 	"io"
 	"io/fs"
 	"os"
+	"path"
 	"path/filepath"
 	"reflect"
 	"sort"
+	"strings"
 
 	"github.com/bobg/errors"
 	"github.com/bobg/go-generics/v2/maps"
@@ -447,18 +449,32 @@ func globDecoder(con *Controller, node *yaml.Node, dir string) ([]string, error)
 
 	// Expand patterns in the context of dir, which is in the context of con.topdir.
 	dir = con.JoinPath(dir)
-	if dir == "" {
-		dir = "."
-	}
-	fsys := os.DirFS(dir)
 
 	var result []string
 	for _, pattern := range patterns {
-		matches, err := fs.Glob(fsys, pattern)
+		if pattern == "" {
+			continue
+		}
+		// An [fs.FS] accepts neither absolute names nor names with . and .. in them.
+		pattern = path.Clean(pattern)
+		prefix := ""
+		for strings.HasPrefix(pattern[len(prefix):], "../") {
+			prefix += "../"
+		}
+		root := filepath.Join(dir, prefix)
+		if path.IsAbs(pattern) {
+			prefix, root = "/", "/"
+		}
+		if root == "" {
+			root = "."
+		}
+		matches, err := fs.Glob(os.DirFS(root), pattern[len(prefix):])
 		if err != nil {
 			return nil, errors.Wrap(err, "in Glob pattern")
 		}
-		result = append(result, matches...)
+		for _, match := range matches {
+			result = append(result, prefix+match)
+		}
 	}
 
 	return result, nil
-- 
2.43.0


From 58e042fbba50ad988bb3f20ca259959b1b3531a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 22/35] fix: find the producer of an input file however the
 names are spelled

---
 files.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/files.go b/files.go
index ab21265..62e7574 100644
--- a/files.go
+++ b/files.go
@@ -21,7 +21,27 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
-var filesRegistry = newRegistry[*files]()
+var filesRegistry = outputRegistry{newRegistry[*files]()}
+
+// In this registry it does not matter how the name of a file is spelled.
+type outputRegistry struct {
+	*registry[*files]
+}
+
+func (r outputRegistry) add(name string, val *files) {
+	r.registry.add(absName(name), val)
+}
+
+func (r outputRegistry) lookup(name string) (*files, bool) {
+	return r.registry.lookup(absName(name))
+}
+
+func absName(name string) string {
+	if abs, err := filepath.Abs(name); err == nil {
+		return abs
+	}
+	return filepath.Clean(name)
+}
 
 // Files creates a target that contains a list of input files
 // and a list of expected output files.
@@ -290,6 +310,7 @@ func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 }
 
 func findInFilesRegistry(name string) *files {
+	name = absName(name)
 	for {
 		if target, ok := filesRegistry.lookup(name); ok {
 			return target
-- 
2.43.0


From d59268aee4d23dcbfabfad6db63ca50c05de869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:47 +0000
Subject: [PATCH 23/35] fix: the hash of a Files target does not depend on the
 order in which YAML files are read

---
 yaml.go | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/yaml.go b/yaml.go
index e1b8752..3083981 100644
--- a/yaml.go
+++ b/yaml.go
@@ -68,30 +68,22 @@ func (con *Controller) YAMLTarget(node *yaml.Node, dir string) (Target, error) {
 		}
 
 		if tdir := filepath.Dir(qname); tdir != "." {
-			found, _ := con.RegistryTarget(qname)
-			if found != nil {
-				return found, nil
+			// A file that is presently being read
+			// (which happens when files refer to each other)
+			// possibly contains a target that has not been parsed yet.
+			if found, _ := con.RegistryTarget(qname); found == nil && !con.isReadingYAML(tdir) {
+				if err := con.ReadYAMLFile(tdir); err != nil {
+					return nil, errors.Wrapf(err, "resolving target %s", qname)
+				}
+				if found, _ := con.RegistryTarget(qname); found == nil {
+					return nil, fmt.Errorf("cannot resolve target %s", qname)
+				}
 			}
-
-			if con.isReadingYAML(tdir) {
-				// A mutual reference,
-				// possibly to a target that has not been parsed yet.
-				return &deferredResolutionTarget{Name: qname}, nil
-			}
-
-			if err := con.ReadYAMLFile(tdir); err != nil {
-				return nil, errors.Wrapf(err, "resolving target %s", qname)
-			}
-
-			found, _ = con.RegistryTarget(qname)
-			if found != nil {
-				return found, nil
-			}
-
-			return nil, fmt.Errorf("cannot resolve target %s", qname)
 		}
 	}
 
+	// The result is a name even if the target is known already.
+	// Otherwise the order in which files are read would make a difference to the hash of a Files target.
 	// TODO: try to resolve now?
 	return &deferredResolutionTarget{Name: qname}, nil
 }
-- 
2.43.0


From 06ea8a08463e82fee4f538ab539a367f98b5e506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:25 +0000
Subject: [PATCH 24/35] fix: golang.Deps listed generated and unrelated files,
 missed files imported by way of other modules, ignored errors in imported
 packages and panicked outside of a module

---
 golang/go.go | 72 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 45 insertions(+), 27 deletions(-)

diff --git a/golang/go.go b/golang/go.go
index ea769e2..6124285 100644
--- a/golang/go.go
+++ b/golang/go.go
@@ -1,6 +1,7 @@
 package golang
 
 import (
+	"fmt"
 	"path/filepath"
 	"sort"
 
@@ -94,7 +95,7 @@ func binaryDecoder(con *fab.Controller, node *yaml.Node, dir string) (fab.Target
 // The list is sorted for consistent, predictable results.
 func Deps(dir string, recursive, tests bool) ([]string, error) {
 	config := &packages.Config{
-		Mode:  packages.NeedName | packages.NeedFiles | packages.NeedEmbedFiles | packages.NeedEmbedPatterns | packages.NeedTypes | packages.NeedDeps | packages.NeedImports | packages.NeedModule,
+		Mode:  packages.NeedName | packages.NeedFiles | packages.NeedEmbedFiles | packages.NeedTypes | packages.NeedDeps | packages.NeedImports | packages.NeedModule,
 		Dir:   dir,
 		Tests: tests,
 	}
@@ -109,51 +110,68 @@ func Deps(dir string, recursive, tests bool) ([]string, error) {
 		return nil, errors.Wrapf(err, "loading from %s", dir)
 	}
 
+	var (
+		files = set.New[string]()
+		seen  = set.New[string]()
+	)
 	for _, pkg := range pkgs {
-		for _, e := range pkg.Errors {
-			err = errors.Join(err, e)
-		}
+		err = errors.Join(err, gopkgAdd(pkg, pkg.Module, files, seen))
 	}
 	if err != nil {
 		return nil, errors.Wrapf(err, "after loading from %s", dir)
 	}
 
-	files := set.New[string]()
-	for _, pkg := range pkgs {
-		if err = gopkgAdd(pkg, pkg.Module.Path, files); err != nil {
-			return nil, errors.Wrapf(err, "adding files from %s", pkg.PkgPath)
-		}
-	}
-
 	slice := files.Slice()
 	sort.Strings(slice)
 	return slice, nil
 }
 
-func gopkgAdd(pkg *packages.Package, modpath string, files set.Of[string]) error {
-	if pkg.Module == nil {
+// This adds the files of pkg, and of the packages it imports, to files,
+// to the extent that they are in the given module.
+// Packages of other modules are traversed too
+// because they might import packages of the given module.
+func gopkgAdd(pkg *packages.Package, mod *packages.Module, files, seen set.Of[string]) error {
+	if seen.Has(pkg.ID) {
 		return nil
 	}
-	if pkg.Module.Path != modpath {
+	seen.Add(pkg.ID)
+
+	var err error
+
+	for _, e := range pkg.Errors {
+		if pkg.Module == nil && e.Kind != packages.ListError {
+			// Not a problem of finding files.
+			continue
+		}
+		err = errors.Join(err, e)
+	}
+	if err != nil {
+		return errors.Wrapf(err, "in package %s", pkg.PkgPath)
+	}
+
+	if mod == nil {
+		return fmt.Errorf("package %s is not in a module", pkg.PkgPath)
+	}
+	if pkg.Module == nil {
 		return nil
 	}
-	files.Add(pkg.GoFiles...)
-	files.Add(pkg.CompiledGoFiles...)
-	files.Add(pkg.OtherFiles...)
-	files.Add(pkg.EmbedFiles...)
-	for _, pattern := range pkg.EmbedPatterns {
-		matches, err := filepath.Glob(pattern)
-		if err != nil {
-			return errors.Wrapf(err, "in pattern %s", pattern)
+
+	if pkg.Module.Path == mod.Path {
+		for _, list := range [][]string{pkg.GoFiles, pkg.CompiledGoFiles, pkg.OtherFiles, pkg.EmbedFiles} {
+			for _, file := range list {
+				// Generated files (such as a test's main program) are outside the module.
+				if rel, err := filepath.Rel(mod.Dir, file); err == nil && filepath.IsLocal(rel) {
+					files.Add(file)
+				}
+			}
 		}
-		files.Add(matches...)
 	}
+
 	for _, imp := range pkg.Imports {
-		if err := gopkgAdd(imp, modpath, files); err != nil {
-			return errors.Wrapf(err, "in import of %s", imp.PkgPath)
-		}
+		err = errors.Join(err, gopkgAdd(imp, mod, files, seen))
 	}
-	return nil
+
+	return err
 }
 
 func depsDecoder(con *fab.Controller, node *yaml.Node, dir string) ([]string, error) {
-- 
2.43.0


From 7462c07ab412eb6b07abd10a8732c47981a4f74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:25 +0000
Subject: [PATCH 25/35] fix: golang.Binary ignored build tags when computing
 dependencies, and misplaced the output for some spellings of the directory

---
 golang/go.go | 62 +++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 56 insertions(+), 6 deletions(-)

diff --git a/golang/go.go b/golang/go.go
index 6124285..7a49dbf 100644
--- a/golang/go.go
+++ b/golang/go.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"sort"
+	"strings"
 
 	"github.com/bobg/errors"
 	"github.com/bobg/go-generics/v2/set"
@@ -35,19 +36,26 @@ import (
 // it defaults to the last path element of Dir.
 func Binary(dir, outfile string, flags ...string) (fab.Target, error) {
 	if outfile == "" {
-		outfile = filepath.Base(dir)
+		base, err := baseName(dir)
+		if err != nil {
+			return nil, err
+		}
+		outfile = base
 	}
 
-	relOutfile, err := filepath.Rel(dir, outfile)
+	// The output file has to be absolute:
+	// relative paths are relative to dir for the go command,
+	// and that might be reached through a symbolic link.
+	absOutfile, err := filepath.Abs(outfile)
 	if err != nil {
-		return nil, errors.Wrapf(err, "getting relative path from %s to %s", dir, outfile)
+		return nil, errors.Wrapf(err, "getting absolute path of %s", outfile)
 	}
 
-	deps, err := Deps(dir, false, false)
+	deps, err := depsWithFlags(dir, false, false, fileSelectionFlags(flags))
 	if err != nil {
 		return nil, errors.Wrapf(err, "computing dependencies")
 	}
-	args := append([]string{"build", "-C", dir, "-o", relOutfile}, flags...)
+	args := append([]string{"build", "-C", dir, "-o", absOutfile}, flags...)
 	args = append(args, ".")
 	c := &fab.Command{
 		Cmd:  "go",
@@ -56,6 +64,38 @@ func Binary(dir, outfile string, flags ...string) (fab.Target, error) {
 	return fab.Files(c, deps, []string{outfile}, fab.Autoclean(true)), nil
 }
 
+// This produces the last element of dir's path,
+// also when dir is something like "." or "..".
+func baseName(dir string) (string, error) {
+	abs, err := filepath.Abs(dir)
+	if err != nil {
+		return "", errors.Wrapf(err, "getting absolute path of %s", dir)
+	}
+	return filepath.Base(abs), nil
+}
+
+// This selects the flags for `go build` that have an influence on which files make up a package.
+func fileSelectionFlags(flags []string) []string {
+	var result []string
+	for i := 0; i < len(flags); i++ {
+		if !strings.HasPrefix(flags[i], "-") {
+			continue
+		}
+		name, _, hasValue := strings.Cut(strings.TrimLeft(flags[i], "-"), "=")
+		switch name {
+		case "race", "msan", "asan":
+			result = append(result, flags[i])
+		case "tags", "mod", "modfile", "overlay", "compiler":
+			result = append(result, flags[i])
+			if !hasValue && i+1 < len(flags) {
+				i++
+				result = append(result, flags[i])
+			}
+		}
+	}
+	return result
+}
+
 // MustBinary is the same as [Binary] but panics on error.
 func MustBinary(dir, outfile string, flags ...string) fab.Target {
 	target, err := Binary(dir, outfile, flags...)
@@ -78,7 +118,11 @@ func binaryDecoder(con *fab.Controller, node *yaml.Node, dir string) (fab.Target
 
 	out := b.Out
 	if out == "" {
-		out = filepath.Base(b.Dir)
+		base, err := baseName(con.JoinPath(dir, b.Dir))
+		if err != nil {
+			return nil, err
+		}
+		out = base
 	}
 
 	flags, err := con.YAMLStringList(&b.Flags, dir)
@@ -94,10 +138,16 @@ func binaryDecoder(con *fab.Controller, node *yaml.Node, dir string) (fab.Target
 // but only within the original package's module.
 // The list is sorted for consistent, predictable results.
 func Deps(dir string, recursive, tests bool) ([]string, error) {
+	return depsWithFlags(dir, recursive, tests, nil)
+}
+
+func depsWithFlags(dir string, recursive, tests bool, flags []string) ([]string, error) {
 	config := &packages.Config{
 		Mode:  packages.NeedName | packages.NeedFiles | packages.NeedEmbedFiles | packages.NeedTypes | packages.NeedDeps | packages.NeedImports | packages.NeedModule,
 		Dir:   dir,
 		Tests: tests,
+
+		BuildFlags: flags,
 	}
 
 	arg := "."
-- 
2.43.0


From 24f81d58717c837ea28c0bed777518030940942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:25 +0000
Subject: [PATCH 26/35] fix: proto.Deps fails where protoc skips a non-file,
 and garbles imports that escape parts of a rune

---
 proto/proto.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 74964b4..9a7ef59 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -10,6 +10,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"syscall"
 
 	"github.com/bobg/errors"
 	"github.com/bobg/go-generics/v2/set"
@@ -188,6 +189,11 @@ func parseImport(stmt []string) (string, bool) {
 			return "", false
 		}
 		for tok = tok[1 : len(tok)-1]; tok != ""; {
+			if tok[0] != '\\' {
+				name += tok[:1]
+				tok = tok[1:]
+				continue
+			}
 			if strings.HasPrefix(tok, `\"`) || strings.HasPrefix(tok, `\'`) {
 				name += tok[1:2]
 				tok = tok[2:]
@@ -216,10 +222,20 @@ func protodepsImport(imp string, includes []string, result set.Of[string]) error
 			return nil
 		}
 
-		f, err := os.Open(full)
-		if errors.Is(err, fs.ErrNotExist) {
+		// Like protoc,
+		// continue with the next include directory if this is not a file.
+		info, err := os.Stat(full)
+		if errors.Is(err, fs.ErrNotExist) || errors.Is(err, syscall.ENOTDIR) {
 			continue
 		}
+		if err != nil {
+			return errors.Wrapf(err, "statting %s", full)
+		}
+		if info.IsDir() {
+			continue
+		}
+
+		f, err := os.Open(full)
 		if err != nil {
 			return errors.Wrapf(err, "opening %s", full)
 		}
-- 
2.43.0


From c539c98a87e1ae541be78502f20753c17b0ce406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 27/35] fix: a type that merely looks like a method of Target
 is not one

---
 types.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 5a41ffd..b6cf861 100644
--- a/types.go
+++ b/types.go
@@ -117,6 +117,15 @@ func (ch *typeChecker) checkTypesMatch(t types.Type, r reflect.Type) (err error)
 	}
 	ch.seen.Add(pair)
 
+	switch t.(type) {
+	case *types.Basic, *types.Named:
+		// Handled below.
+	default:
+		if r.Name() != "" {
+			return fmt.Errorf("%s does not match type %s", t, r)
+		}
+	}
+
 	switch t := t.(type) {
 	case *types.Array:
 		if r.Kind() != reflect.Array {
@@ -265,7 +274,16 @@ func (ch *typeChecker) checkTypesMatch(t types.Type, r reflect.Type) (err error)
 		if t.Obj().Name() != r.Name() {
 			return fmt.Errorf("names %s and %s do not match", t.Obj().Name(), r.Name())
 		}
-		return ch.checkTypesMatch(t.Underlying(), r)
+		var pkgpath string
+		if tpkg := t.Obj().Pkg(); tpkg != nil {
+			pkgpath = tpkg.Path()
+		}
+		if pkgpath != r.PkgPath() {
+			return fmt.Errorf("package paths %s and %s of %s do not match", pkgpath, r.PkgPath(), r.Name())
+		}
+		// Types with the same name and package are identical
+		// (no matter what they look like in different versions of that package).
+		return nil
 
 	case *types.Pointer:
 		if r.Kind() != reflect.Ptr {
-- 
2.43.0


From 8e8328dba53f8069e0398fb4aeb23eab0e068638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 28/35] fix: drivers document grouped variables, and may come
 from packages of any name

---
 compile.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/compile.go b/compile.go
index 6a2bed6..330b14e 100644
--- a/compile.go
+++ b/compile.go
@@ -143,11 +143,22 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		vars = append(vars, t.Vars...)
 	}
 	for _, v := range vars {
-		for _, name := range v.Names {
-			if tp, ok := targets[name]; ok {
-				dstr := string(pr.Text(parser.Parse(v.Doc)))
-				dstr = strings.TrimRight(dstr, "\r\n")
-				tp.Doc = strconv.Quote(dstr)
+		for _, spec := range v.Decl.Specs {
+			vspec, ok := spec.(*ast.ValueSpec)
+			if !ok {
+				continue
+			}
+			docstr := v.Doc
+			if vspec.Doc != nil {
+				// This variable has its own doc comment in a group of variables.
+				docstr = vspec.Doc.Text()
+			}
+			for _, name := range vspec.Names {
+				if tp, ok := targets[name.Name]; ok {
+					dstr := string(pr.Text(parser.Parse(docstr)))
+					dstr = strings.TrimRight(dstr, "\r\n")
+					tp.Doc = strconv.Quote(dstr)
+				}
 			}
 		}
 	}
@@ -162,7 +173,10 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		return errors.Wrap(err, "copying fab code")
 	}
 
-	subpkgdir := filepath.Join(tmpdir, "pkg", pkg.Name)
+	// Not every package name is possible in an import path.
+	const subpkg = "user"
+
+	subpkgdir := filepath.Join(tmpdir, "pkg", subpkg)
 	if err = os.MkdirAll(subpkgdir, 0755); err != nil {
 		return errors.Wrapf(err, "creating %s", subpkgdir)
 	}
@@ -191,7 +205,7 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		Subpkg  string
 		Targets []*targetPair
 	}{
-		Subpkg:  pkg.Name,
+		Subpkg:  subpkg,
 		Targets: maps.Values(targets),
 	}
 
-- 
2.43.0


From 23cada9c9d40310c35d1158e1340473b26da1b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 29/35] fix: hand targets whose names begin with - to the
 driver as targets

---
 main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.go b/main.go
index df8ff4c..8b3fe39 100644
--- a/main.go
+++ b/main.go
@@ -112,6 +112,7 @@ func (m *Main) Run(ctx context.Context) error {
 	if m.DryRun {
 		args = append(args, "-n")
 	}
+	args = append(args, "--") // the rest are no flags, even if they look like it
 	args = append(args, m.Args...)
 
 	cmd := exec.CommandContext(ctx, driver, args...)
-- 
2.43.0


From 72ca8dae3ab59bce6a597dfb14bfe21453b96fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 30/35] fix: a method of Target may be declared with aliases of
 its types

---
 types.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/types.go b/types.go
index b6cf861..e0500a1 100644
--- a/types.go
+++ b/types.go
@@ -117,6 +117,12 @@ func (ch *typeChecker) checkTypesMatch(t types.Type, r reflect.Type) (err error)
 	}
 	ch.seen.Add(pair)
 
+	// Newer versions of Go represent an alias for a type as a *types.Alias,
+	// which does not exist in older ones.
+	if alias, ok := t.(interface{ Rhs() types.Type }); ok {
+		return ch.checkTypesMatch(alias.Rhs(), r)
+	}
+
 	switch t.(type) {
 	case *types.Basic, *types.Named:
 		// Handled below.
-- 
2.43.0


From 204d02766ebe0a5180ec20478b4b2c1244a366cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:30 +0000
Subject: [PATCH 31/35] fix: a Files target naming a named pipe or device
 waited for it forever

Opening a named pipe for reading blocks until there is a writer, and
reading some devices never ends.
---
 files.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/files.go b/files.go
index 62e7574..d29bdad 100644
--- a/files.go
+++ b/files.go
@@ -401,6 +401,12 @@ func fileHashesItemHelper(item string, hashes map[string]string) error {
 		return fileHashesHelper(subitems, hashes)
 	}
 
+	if !info.Mode().IsRegular() {
+		// Reading a named pipe or a device might block, or never end.
+		hashes[item] = info.Mode().Type().String()
+		return nil
+	}
+
 	h, err := hashFile(item)
 	if err != nil {
 		return errors.Wrapf(err, "hashing file %s", item)
-- 
2.43.0


From 1761edbe76c991c67164f8d4bc72eb2b8b2c4679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:34 +0000
Subject: [PATCH 32/35] fix: malformed YAML mappings with merge and complex
 keys made the yaml package panic

---
 top.go  | 13 +++++++++++--
 yaml.go | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/top.go b/top.go
index 52fc826..e85eb7c 100644
--- a/top.go
+++ b/top.go
@@ -63,8 +63,17 @@ func topDirHelper(dir string) (string, error) {
 	defer rc.Close()
 
 	dec := yaml.NewDecoder(rc)
-	var m map[string]yaml.Node
-	if err = dec.Decode(&m); err != nil {
+	var (
+		doc yaml.Node
+		m   map[string]yaml.Node
+	)
+	if err = dec.Decode(&doc); err != nil {
+		return "", errors.Wrapf(err, "reading YAML file in %s", dir)
+	}
+	if err = checkYAMLKeys(&doc); err != nil {
+		return "", errors.Wrapf(err, "reading YAML file in %s", dir)
+	}
+	if err = doc.Decode(&m); err != nil {
 		return "", errors.Wrapf(err, "reading YAML file in %s", dir)
 	}
 
diff --git a/yaml.go b/yaml.go
index 3083981..5b74dd8 100644
--- a/yaml.go
+++ b/yaml.go
@@ -206,6 +206,9 @@ func (con *Controller) ReadYAML(r io.Reader, dir string) error {
 	if err := dec.Decode(&doc); err != nil {
 		return errors.Wrap(err, "decoding YAML")
 	}
+	if err := checkYAMLKeys(&doc); err != nil {
+		return err
+	}
 
 	if doc.Kind != yaml.DocumentNode {
 		return errors.Wrap(BadYAMLNodeKindError{Got: doc.Kind, Want: yaml.DocumentNode}, "at top level")
@@ -281,6 +284,35 @@ func (con *Controller) ReadYAML(r io.Reader, dir string) error {
 	return nil
 }
 
+// Function checkYAMLKeys reports an error if a mapping in node has
+// both a merge key ("<<") and a key that is itself a mapping or a sequence.
+// The yaml package panics when decoding one of those.
+func checkYAMLKeys(node *yaml.Node) error {
+	if node.Kind == yaml.MappingNode {
+		var merges, complex bool
+		for i := 0; i < len(node.Content); i += 2 {
+			key := node.Content[i]
+			if key.Kind == yaml.AliasNode {
+				key = key.Alias
+			}
+			if key.Kind != yaml.ScalarNode {
+				complex = true
+			} else if key.Value == "<<" && (key.Tag == "!" || key.ShortTag() == "!!merge") {
+				merges = true
+			}
+		}
+		if merges && complex {
+			return fmt.Errorf("in mapping at line %d: all keys must be scalars when merging", node.Line)
+		}
+	}
+	for _, child := range node.Content {
+		if err := checkYAMLKeys(child); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // ReadYAMLFile calls ReadYAML
 // on the file `fab.yaml` in the given directory
 // or, if that doesn't exist,
-- 
2.43.0


From dbb4b6f8b2237d0c6b065639d881085bc31ec85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:09 +0000
Subject: [PATCH 33/35] fix: Commands can read fab's standard input also with a
 compiled driver

Without a compiled driver (no _fab directory) a Command with
Stdin set to $stdin reads what fab was given on its standard input.
With one, the driver's standard input was the null device.
---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 8b3fe39..2bbd75e 100644
--- a/main.go
+++ b/main.go
@@ -117,7 +117,7 @@ func (m *Main) Run(ctx context.Context) error {
 
 	cmd := exec.CommandContext(ctx, driver, args...)
 	cmd.Dir = m.Topdir
-	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
+	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
 	err = cmd.Run()
 	return errors.Wrapf(err, "running %s %s", driver, strings.Join(args, " "))
 }
-- 
2.43.0


From 436c90d6bf3149e0223277fcefb05e982b5a0f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:10 +0000
Subject: [PATCH 34/35] fix: files that the go command ignores do not keep a
 driver from compiling

An editor's lock file (.#name.go, a symbolic link that leads nowhere)
in the package directory made fab fail.
---
 compile.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/compile.go b/compile.go
index 330b14e..c4512a1 100644
--- a/compile.go
+++ b/compile.go
@@ -190,10 +190,7 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		if entry.IsDir() {
 			continue
 		}
-		if strings.HasSuffix(entry.Name(), "_test.go") {
-			continue
-		}
-		if !strings.HasSuffix(entry.Name(), ".go") {
+		if !isSource(entry.Name()) {
 			continue
 		}
 		if err = copyFile(filepath.Join(pkgdir, entry.Name()), subpkgdir); err != nil {
@@ -335,6 +332,15 @@ func populateFabSubdir(destdir, subdir string) error {
 	return nil
 }
 
+// Tells whether a file of this name can be part of a Go package.
+// The go command ignores names beginning with _ or . (which editors use for their own files).
+func isSource(name string) bool {
+	if strings.HasPrefix(name, "_") || strings.HasPrefix(name, ".") {
+		return false
+	}
+	return strings.HasSuffix(name, ".go") && !strings.HasSuffix(name, "_test.go")
+}
+
 func copyFile(filename, destdir string) error {
 	outfilename := filepath.Join(destdir, filepath.Base(filename))
 	out, err := os.OpenFile(outfilename, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644)
-- 
2.43.0


From d8d885110e02ad1577e6246ecf1998273d6a156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:12 +0000
Subject: [PATCH 35/35] fix: never keep a driver whose sources changed while
 they were loaded

The package was loaded at one time, hashed at another and copied at a third.
A file added between the first and the last became part of the driver
for the package without it, and stayed part of it when it was removed again;
a target added to a file between the first and the second was missing from
the driver until the next change.
---
 main.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 2bbd75e..8214dee 100644
--- a/main.go
+++ b/main.go
@@ -183,6 +183,10 @@ func (m *Main) getDriver(ctx context.Context, skipVersionCheck bool) (_ string,
 	if errors.Is(err, fs.ErrNotExist) {
 		return "", errNoDriver
 	}
+	before, err := sourcesHash(pkgdir)
+	if err != nil {
+		return "", errors.Wrapf(err, "computing hash of the sources in %s", pkgdir)
+	}
 	config := &packages.Config{
 		Mode:    LoadMode,
 		Context: ctx,
@@ -281,11 +285,12 @@ func (m *Main) getDriver(ctx context.Context, skipVersionCheck bool) (_ string,
 		return "", errors.Wrapf(err, "compiling driver %s", driver)
 	}
 
-	newhash, err := driverHash(pkg.GoFiles)
+	// The package was loaded, hashed and copied at different times.
+	after, err := sourcesHash(pkgdir)
 	if err != nil {
-		return "", errors.Wrapf(err, "recomputing hash of directory %s", pkgdir)
+		return "", errors.Wrapf(err, "recomputing hash of the sources in %s", pkgdir)
 	}
-	if newhash != hash {
+	if after != before {
 		return "", fmt.Errorf("source files in %s changed while compiling driver", pkgdir)
 	}
 
@@ -327,6 +332,22 @@ func driverHash(filenames []string) (string, error) {
 	return dh.hash()
 }
 
+// Computes a hash of the Go files in dir that can be part of a package,
+// whether or not build constraints exclude them.
+func sourcesHash(dir string) (string, error) {
+	entries, err := os.ReadDir(dir)
+	if err != nil {
+		return "", errors.Wrapf(err, "reading entries from %s", dir)
+	}
+	var filenames []string
+	for _, entry := range entries {
+		if name := entry.Name(); !entry.IsDir() && isSource(name) {
+			filenames = append(filenames, filepath.Join(dir, name))
+		}
+	}
+	return driverHash(filenames)
+}
+
 func addFileToHash(dh *dirHasher, filename string) error {
 	f, err := os.Open(filename)
 	if err != nil {
-- 
2.43.0

