From beff015eff3d8f6ff1e3f699ba96c9db63a9c057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 01/60] fix: hist -l/-f with an empty selection should not
 panic

TallyCommitsTimeline() indexed into an empty bucket slice when no commit was
selected. The sequential version already returns early.
---
 internal/concurrent/concurrent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 02a55c1..6b99b8a 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -455,6 +455,10 @@ func TallyCommitsTimeline(
 		return nil, err
 	}
 
+	if len(buckets) == 0 {
+		return buckets, nil
+	}
+
 	if end.IsZero() {
 		end = buckets[len(buckets)-1].Time
 	}
-- 
2.43.0


From f2dffcceccc0f74464a7b5956c67c14629638e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 02/60] fix: don't overwrite the tally error with the result of
 finish()

With one CPU, tree on an empty selection lost EmptyTreeErr and then panicked
ranking an empty node.
---
 internal/subcommands/hist.go  | 6 +++++-
 internal/subcommands/table.go | 6 +++++-
 internal/subcommands/tree.go  | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/subcommands/hist.go b/internal/subcommands/hist.go
index 3c34db9..a010dac 100644
--- a/internal/subcommands/hist.go
+++ b/internal/subcommands/hist.go
@@ -120,7 +120,11 @@ func Hist(
 				populateDiffs,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			buckets, err := tally.TallyCommitsTimeline(
 				commits,
diff --git a/internal/subcommands/table.go b/internal/subcommands/table.go
index 874a10f..3fbe81e 100644
--- a/internal/subcommands/table.go
+++ b/internal/subcommands/table.go
@@ -136,7 +136,11 @@ func Table(
 				populateDiffs,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			tallies, err = tally.TallyCommits(commits, tallyOpts)
 			return err
diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index 8a6d476..9b45edc 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -151,7 +151,11 @@ func Tree(
 				true,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			root, err := tally.TallyCommitsTree(
 				commits,
-- 
2.43.0


From cd30edf4f4ec3d934a63d335a9281b6b96a2b917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 03/60] fix: read a git subprocess's stderr while it runs

Stderr was only read after stdout had been consumed, so git writing more than
a pipe buffer's worth of warnings deadlocked with git-who.
---
 internal/git/cmd/subprocess.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index ce5dec3..acc7fdd 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -37,7 +37,7 @@ type Subprocess struct {
 	cmd    *exec.Cmd
 	stdin  io.WriteCloser
 	stdout io.ReadCloser
-	stderr io.ReadCloser
+	stderr *bytes.Buffer
 }
 
 func (s Subprocess) StdinWriter() (_ *bufio.Writer, closer func() error) {
@@ -136,12 +136,7 @@ func (s Subprocess) StdoutNullDelimitedLines() (
 func (s Subprocess) Wait() error {
 	logger().Debug("waiting for subprocess...")
 
-	stderr, err := io.ReadAll(s.stderr)
-	if err != nil {
-		return fmt.Errorf("could not read stderr: %w", err)
-	}
-
-	err = s.cmd.Wait()
+	err := s.cmd.Wait()
 	logger().Debug(
 		"subprocess exited",
 		"code",
@@ -151,7 +146,7 @@ func (s Subprocess) Wait() error {
 	if err != nil {
 		return &SubprocessErr{
 			ExitCode: s.cmd.ProcessState.ExitCode(),
-			Stderr:   strings.TrimSpace(string(stderr)),
+			Stderr:   strings.TrimSpace(s.stderr.String()),
 			Err:      err,
 		}
 	}
@@ -172,10 +167,9 @@ func run(
 		return nil, fmt.Errorf("failed to open stdout pipe: %w", err)
 	}
 
-	stderr, err := cmd.StderrPipe()
-	if err != nil {
-		return nil, fmt.Errorf("failed to open stderr pipe: %w", err)
-	}
+	// Drained while the subprocess runs, so that it never blocks writing to us
+	stderr := &bytes.Buffer{}
+	cmd.Stderr = stderr
 
 	var stdin io.WriteCloser
 	if needStdin {
-- 
2.43.0


From 3797da1440b5b9d7794e74c11f0d49c511a3f05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 04/60] fix: data race initializing the git package's logger

Workers parsing commits concurrently could each be the first to log that a
commit is being skipped.
---
 internal/git/log.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/internal/git/log.go b/internal/git/log.go
index 2282001..877ef8f 100644
--- a/internal/git/log.go
+++ b/internal/git/log.go
@@ -2,14 +2,10 @@ package git
 
 import (
 	"log/slog"
+	"sync"
 )
 
-var pkgLogger *slog.Logger
-
-func logger() *slog.Logger {
-	if pkgLogger == nil {
-		pkgLogger = slog.Default().With("package", "git")
-	}
-
-	return pkgLogger
-}
+// Might be first called by several tally workers at once
+var logger = sync.OnceValue(func() *slog.Logger {
+	return slog.Default().With("package", "git")
+})
-- 
2.43.0


From a1dcae306c1bbd59bc5a563cfd38d31b16590d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 05/60] fix: don't mistake a renamed file's path for a commit
 hash

Renaming a file to or from a name consisting of 40 hex digits split the commit
in two.
---
 internal/git/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/git/parse.go b/internal/git/parse.go
index 4efc7da..1e4d65d 100644
--- a/internal/git/parse.go
+++ b/internal/git/parse.go
@@ -65,7 +65,10 @@ func ParseCommits(lines iter.Seq[string]) (iter.Seq[Commit], func() error) {
 		linesThisCommit := 0
 
 		for line := range lines {
-			done := linesThisCommit >= 6 && (len(line) == 0 || rev.IsFullHash(line))
+			// A line in the middle of a file diff (i.e. a path involved in a
+			// rename) might look like a hash but never starts a new commit
+			done := linesThisCommit >= 6 && diff == nil &&
+				(len(line) == 0 || rev.IsFullHash(line))
 			if done {
 				if allowCommit(commit, now) {
 					if !yield(commit) {
-- 
2.43.0


From 3a99d4d91606d5f69aa3533f61344a31b01aa0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 06/60] fix: keep a newline at the start of a file name

Only the first line of numstat output is preceded by a newline. Trimming one
from every field changed the names of files starting with a newline.
---
 internal/git/cmd/subprocess.go | 8 +-------
 internal/git/parse.go          | 6 ++++++
 internal/subcommands/dump.go   | 1 +
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index acc7fdd..f1aebae 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -108,13 +108,7 @@ func (s Subprocess) StdoutNullDelimitedLines() (
 		})
 
 		for scanner.Scan() {
-			line := scanner.Text()
-
-			// Handle annoying new line that exists between regular commit
-			// fields and --numstat data
-			processedLine := strings.TrimPrefix(line, "\n")
-
-			if !yield(processedLine) {
+			if !yield(scanner.Text()) {
 				return
 			}
 		}
diff --git a/internal/git/parse.go b/internal/git/parse.go
index 1e4d65d..5ae1977 100644
--- a/internal/git/parse.go
+++ b/internal/git/parse.go
@@ -65,6 +65,12 @@ func ParseCommits(lines iter.Seq[string]) (iter.Seq[Commit], func() error) {
 		linesThisCommit := 0
 
 		for line := range lines {
+			// Handle annoying new line that exists between regular commit
+			// fields and --numstat data
+			if linesThisCommit == 6 {
+				line = strings.TrimPrefix(line, "\n")
+			}
+
 			// A line in the middle of a file diff (i.e. a path involved in a
 			// rename) might look like a hash but never starts a new commit
 			done := linesThisCommit >= 6 && diff == nil &&
diff --git a/internal/subcommands/dump.go b/internal/subcommands/dump.go
index ca74650..7af82f6 100644
--- a/internal/subcommands/dump.go
+++ b/internal/subcommands/dump.go
@@ -85,6 +85,7 @@ func Dump(
 
 	lines, finish := subprocess.StdoutNullDelimitedLines()
 	for line := range lines {
+		line = strings.TrimPrefix(line, "\n")
 		lineWithReplaced := strings.ReplaceAll(line, "\n", "\\n")
 		fmt.Fprintln(w, lineWithReplaced)
 	}
-- 
2.43.0


From f288d6969e61c170b85123c2a08f609a85c61007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 07/60] fix: read lines of git output longer than 64 KB

A file path or author name that exceeds the default token size of
bufio.Scanner made every command fail.
---
 internal/git/cmd/subprocess.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index f1aebae..17dd20c 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"iter"
+	"math"
 	"os/exec"
 	"strings"
 )
@@ -61,6 +62,7 @@ func (s Subprocess) StdoutLines() (iter.Seq[string], func() error) {
 
 	seq := func(yield func(string) bool) {
 		scanner := bufio.NewScanner(s.stdout)
+		scanner.Buffer(nil, math.MaxInt32)
 		for scanner.Scan() {
 			if !yield(scanner.Text()) {
 				return
@@ -92,6 +94,7 @@ func (s Subprocess) StdoutNullDelimitedLines() (
 
 	seq := func(yield func(string) bool) {
 		scanner := bufio.NewScanner(s.stdout)
+		scanner.Buffer(nil, math.MaxInt32)
 
 		scanner.Split(func(data []byte, atEOF bool) (int, []byte, error) {
 			null_i := bytes.IndexByte(data, '\x00')
-- 
2.43.0


From 3bfda6df7043e9aeb7d677fbebd161258513d9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 08/60] fix: recognize the hashes of SHA-256 repositories

Revisions were mistaken for paths, commits without a diff were merged with
the next one and ignored revisions were not ignored. Neither is a name of 41
hex digits a hash.
---
 internal/git/revision/revision.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/git/revision/revision.go b/internal/git/revision/revision.go
index 11675d9..8913b26 100644
--- a/internal/git/revision/revision.go
+++ b/internal/git/revision/revision.go
@@ -7,13 +7,13 @@ import (
 var commitHashRegexp *regexp.Regexp
 
 func init() {
-	commitHashRegexp = regexp.MustCompile(`^\^?[a-f0-9]+$`)
+	commitHashRegexp = regexp.MustCompile(`^\^?([a-f0-9]{40}|[a-f0-9]{64})$`)
 }
 
 // Returns true if this is a (full-length) Git revision hash, false otherwise.
 //
-// We also need to handle a hash with "^" in front.
+// We also need to handle a hash with "^" in front. Hashes are longer in
+// repositories using the SHA-256 object format.
 func IsFullHash(s string) bool {
-	matched := commitHashRegexp.MatchString(s)
-	return matched && (len(s) == 40 || len(s) == 41)
+	return commitHashRegexp.MatchString(s)
 }
-- 
2.43.0


From 00b67d1961928ea5d159191b7c67de25fa54f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 09/60] fix: don't lose a worker's error when results are
 closed

When the last worker failed, both the error and the closed results channel
were ready and select picked one at random, so about half the time a failed
git log was reported as success with commits missing.
---
 internal/concurrent/concurrent.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 6b99b8a..2deeea8 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -315,6 +315,12 @@ loop:
 		fmt.Printf("%s\r", pretty.EraseLine)
 	}
 
+	// The errors channel is closed before the results channel is, but select
+	// might have picked the closed results channel over a pending error.
+	for err := range errs {
+		return accumulator, fmt.Errorf("concurrent tally failed: %w", err)
+	}
+
 	// Check if there was a caching error (and wait for cacher to exit)
 	// We have to do this here in addition to above in case there is a caching
 	// error after the last chunk of work is handled.
-- 
2.43.0


From d3c8fd06726a09f0c605877321196b0cd215855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 10/60] fix: only cache commits once git log is known to have
 succeeded

If git died in the middle of its output, the last, incomplete commit could be
written to the cache, giving wrong answers from then on.
---
 internal/concurrent/cache.go  | 23 ++++-------------------
 internal/concurrent/worker.go | 15 +++++++++++++--
 2 files changed, 17 insertions(+), 21 deletions(-)

diff --git a/internal/concurrent/cache.go b/internal/concurrent/cache.go
index 80fe688..52f9154 100644
--- a/internal/concurrent/cache.go
+++ b/internal/concurrent/cache.go
@@ -6,33 +6,18 @@ import (
 	"github.com/sinclairtarget/git-who/internal/git"
 )
 
-const cacheChunkSize = chunkSize
-
-// Transparently splits off commits to the cache queue
+// Transparently sets aside commits that should be cached
 func cacheTee(
 	commits iter.Seq[git.Commit],
-	toCache chan<- []git.Commit,
+	toCache *[]git.Commit,
 ) iter.Seq[git.Commit] {
-	chunk := []git.Commit{}
-
 	return func(yield func(git.Commit) bool) {
 		for c := range commits {
-			chunk = append(chunk, c)
-
-			if len(chunk) >= cacheChunkSize {
-				toCache <- chunk
-				chunk = []git.Commit{}
-			}
-
+			*toCache = append(*toCache, c)
 			if !yield(c) {
-				break
+				return
 			}
 		}
-
-		// Make sure to write any remainder
-		if len(chunk) > 0 {
-			toCache <- chunk
-		}
 	}
 }
 
diff --git a/internal/concurrent/worker.go b/internal/concurrent/worker.go
index a51908c..ca50da6 100644
--- a/internal/concurrent/worker.go
+++ b/internal/concurrent/worker.go
@@ -211,7 +211,8 @@ loop:
 				return err
 			}
 
-			// Read parsed commits and enqueue for caching
+			// Read parsed commits and set them aside for caching
+			chunk := []git.Commit{}
 			result, err := func() (_ T, err error) {
 				var result T
 
@@ -221,7 +222,7 @@ loop:
 				commits, finish := git.ParseCommits(lines)
 				defer func() { err = errors.Join(err, finish()) }()
 
-				commits = cacheTee(commits, toCache)
+				commits = cacheTee(commits, &chunk)
 
 				// Now that we're tallying, we DO care to only look at the file
 				// diffs under the given paths
@@ -242,6 +243,16 @@ loop:
 				return err
 			}
 
+			// Enqueue for caching only now that we know git log succeeded,
+			// otherwise the last commit we read might have been cut short
+			if len(chunk) > 0 {
+				select {
+				case <-ctx.Done():
+					return errors.New("worker cancelled")
+				case toCache <- chunk:
+				}
+			}
+
 			results <- result
 		}
 	}
-- 
2.43.0


From 4c6194463cb748bea5c988dfb9ebcafc020887a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 11/60] fix: wait for the cacher to exit before closing the
 cache

After an error, the cache could be compressed while the cacher was still
appending to it.
---
 internal/concurrent/concurrent.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 2deeea8..804f11d 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -259,6 +259,13 @@ func tallyFanOutFanIn[T combinable[T]](
 		return results, errs, cacheErr
 	}()
 
+	// If we return early, the cacher must be done before the cache is closed
+	defer func() {
+		cancel()
+		for range cacheErr {
+		}
+	}()
+
 	// -- Join -----------------------------------------------------------------
 	// Read and combine results until results channel is closed, context is
 	// cancelled, or we get a worker error
-- 
2.43.0


From 97258aa63779b029d1b08baeccbe603de1643708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 12/60] fix: carry on without the cache when it can't be
 written or wiped

A full disk or an unwritable cache directory made the whole command fail.
---
 internal/concurrent/concurrent.go | 23 +++++++++++++----------
 internal/concurrent/worker.go     | 11 ++++++++++-
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 804f11d..05b5cea 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -28,6 +28,7 @@ import (
 	"time"
 
 	"github.com/sinclairtarget/git-who/internal/cache"
+	"github.com/sinclairtarget/git-who/internal/cache/backends"
 	"github.com/sinclairtarget/git-who/internal/format"
 	"github.com/sinclairtarget/git-who/internal/git"
 	"github.com/sinclairtarget/git-who/internal/git/cmd"
@@ -120,13 +121,21 @@ func accumulateCached[T combinable[T]](
 	return accumulator, setDiff(revs, foundRevs), nil
 }
 
-func handleCacheFailure(c cache.Cache, err error) error {
+func handleCacheFailure(c cache.Cache, err error) cache.Cache {
 	// Graceful handling of cache error. Wipe cache and move on without it
 	logger().Warn(
 		fmt.Sprintf("error reading from cache (maybe corrupt?): %v", err),
 	)
 	logger().Warn("wiping cache and moving on")
-	return c.Clear()
+
+	err = c.Clear()
+	if err != nil {
+		logger().Warn(fmt.Sprintf("failed to wipe cache: %v", err))
+		logger().Warn("disabling caching")
+		return cache.NewCache(backends.NoopBackend{})
+	}
+
+	return c
 }
 
 func tallyFanOutFanIn[T combinable[T]](
@@ -184,19 +193,13 @@ func tallyFanOutFanIn[T combinable[T]](
 	if err == nil {
 		accumulator, remainingRevs, err = accumulateCached(whop, cache, revs)
 		if err != nil {
-			err = handleCacheFailure(cache, err)
-			if err != nil {
-				return accumulator, err
-			}
+			cache = handleCacheFailure(cache, err)
 		} else if len(remainingRevs) == 0 {
 			logger().Debug("all commits read from cache")
 			return accumulator, nil
 		}
 	} else {
-		err = handleCacheFailure(cache, err)
-		if err != nil {
-			return accumulator, err
-		}
+		cache = handleCacheFailure(cache, err)
 	}
 
 	// -- Fork -----------------------------------------------------------------
diff --git a/internal/concurrent/worker.go b/internal/concurrent/worker.go
index ca50da6..73b12c7 100644
--- a/internal/concurrent/worker.go
+++ b/internal/concurrent/worker.go
@@ -127,6 +127,8 @@ func runCacher(
 		logger().Debug("cacher exited")
 	}()
 
+	failed := false
+
 loop:
 	for {
 		select {
@@ -137,9 +139,16 @@ loop:
 				break loop
 			}
 
+			if failed {
+				continue // Workers still need someone to read from the queue
+			}
+
 			err := cache.Add(commits)
 			if err != nil {
-				return err
+				// We can do without the cache
+				logger().Warn(fmt.Sprintf("error writing to cache: %v", err))
+				logger().Warn("moving on without caching commits")
+				failed = true
 			}
 		}
 	}
-- 
2.43.0


From 9911aa86ef06ce6c14c5bc2c7123f5c4c5ce5442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 13/60] fix: treat a truncated cache file as an error

Short reads and read errors were ignored and the missing bytes taken as
zeroes.
---
 internal/cache/backends/gob.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 67b8fc9..ab73cee 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -134,7 +134,7 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 		for {
 			// -- Find length of next gob in bytes --
 			prefix := make([]byte, 4)
-			_, err := f.Read(prefix)
+			_, err := io.ReadFull(f, prefix)
 			if err == io.EOF {
 				return
 			} else if err != nil {
@@ -156,8 +156,14 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 			// -- Decode next gob --
 			var commits []git.Commit
 
-			data := make([]byte, size)
-			_, err = f.Read(data)
+			data, err := io.ReadAll(io.LimitReader(f, int64(size)))
+			if err == nil && len(data) < int(size) {
+				err = io.ErrUnexpectedEOF
+			}
+			if err != nil {
+				iterErr = err
+				return
+			}
 
 			dec := gob.NewDecoder(bytes.NewReader(data))
 			err = dec.Decode(&commits)
-- 
2.43.0


From 9aed88caa779440b376a2324d03cc01471c3b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 14/60] fix: return cached dates in the current time zone

Dates were returned in the time zone in effect when they were cached, so
after a time zone change hist put commits under the wrong day.
---
 internal/cache/backends/gob.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index ab73cee..7cfe9ad 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -185,6 +185,9 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 					}
 
 					seen[c.Hash] = true
+
+					// Might have been written under another time zone
+					c.Date = c.Date.Local()
 					if !yield(c) {
 						return
 					}
-- 
2.43.0


From 55c8934d4a5b533d025c432f67e8c9588740e412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 15/60] fix: keep cache files intact across crashes and
 concurrent runs

Concurrent git-who processes shared one uncompressed file and deleted it, or
the whole cache directory, under each other. A file left behind by a killed
process was partly overwritten but not truncated, which left trailing garbage
behind, and a failed write left a half-written file. After wiping a corrupt
cache, the directory was missing and adding to the cache failed. A repository
whose directory name contains "[" made Close() panic.

Give each process its own working file, replace the compressed file
atomically, leave the directory itself in place and don't use globs.
---
 internal/cache/backends/gob.go | 104 ++++++++++++++++++++++++---------
 1 file changed, 78 insertions(+), 26 deletions(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 7cfe9ad..3209b35 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -15,6 +15,8 @@ import (
 	"os"
 	"path/filepath"
 	"slices"
+	"strings"
+	"time"
 
 	"github.com/sinclairtarget/git-who/internal/git"
 )
@@ -34,13 +36,22 @@ import (
 //
 // We also gzip the file when we're done using it to keep it even smaller on
 // disk.
+//
+// While the cache is open, each process works on its own uncompressed copy of
+// the file. The gzipped file is only ever replaced as a whole, so that neither
+// other processes nor later runs can see it half-written.
 type GobBackend struct {
 	Dir       string
 	Path      string
+	workPath  string
 	wasOpened bool
 	isDirty   bool
+	isBroken  bool
 }
 
+// Working files this old were left behind by a process that was killed
+const maxWorkingFileAge = 24 * time.Hour
+
 const GobBackendName string = "gob"
 
 func (b *GobBackend) Name() string {
@@ -54,7 +65,18 @@ func (b *GobBackend) compressedPath() string {
 func (b *GobBackend) Open() error {
 	b.wasOpened = true
 
-	err := uncompress(b.compressedPath(), b.Path)
+	f, err := os.CreateTemp(b.Dir, filepath.Base(b.Path)+".*.tmp")
+	if err != nil {
+		return err
+	}
+	b.workPath = f.Name()
+
+	err = f.Close()
+	if err != nil {
+		return err
+	}
+
+	err = uncompress(b.compressedPath(), b.workPath)
 	if err != nil {
 		return err
 	}
@@ -63,31 +85,39 @@ func (b *GobBackend) Open() error {
 }
 
 func (b *GobBackend) Close() error {
-	if b.isDirty {
-		err := compress(b.Path, b.compressedPath())
+	// Remove uncompressed file
+	defer os.Remove(b.workPath)
+
+	if b.isDirty && !b.isBroken {
+		err := compress(b.workPath, b.compressedPath())
 		if err != nil {
 			return err
 		}
 	}
 
-	// Remove uncompressed file
-	err := os.RemoveAll(b.Path)
-	if err != nil {
-		return err
-	}
-
 	// Remove any other dangling cache files
-	matches, err := filepath.Glob(filepath.Join(b.Dir, "*"))
-	if err != nil {
-		panic(err) // Bad pattern
+	entries, err := os.ReadDir(b.Dir)
+	if errors.Is(err, fs.ErrNotExist) {
+		return nil
+	} else if err != nil {
+		return err
 	}
 
-	for _, match := range matches {
-		if match == b.compressedPath() {
+	for _, entry := range entries {
+		p := filepath.Join(b.Dir, entry.Name())
+		if p == b.compressedPath() || p == b.workPath {
 			continue
 		}
 
-		err := os.Remove(match)
+		if strings.HasSuffix(p, ".tmp") {
+			// Might belong to another process that is still running
+			info, err := entry.Info()
+			if err != nil || time.Since(info.ModTime()) < maxWorkingFileAge {
+				continue
+			}
+		}
+
+		err := os.Remove(p)
 		if err != nil {
 			logger().Warn(
 				fmt.Sprintf("failed to delete old cache file: %v", err),
@@ -114,7 +144,7 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 		return iterErr
 	}
 
-	f, err := os.Open(b.Path)
+	f, err := os.Open(b.workPath)
 	if errors.Is(err, fs.ErrNotExist) {
 		// If file doesn't exist, don't treat as an error
 		return empty, finish
@@ -207,9 +237,9 @@ func (b *GobBackend) Add(commits []git.Commit) (err error) {
 	b.isDirty = true
 
 	f, err := os.OpenFile(
-		b.Path,
+		b.workPath,
 		os.O_WRONLY|os.O_APPEND|os.O_CREATE,
-		0644,
+		0600,
 	)
 	if err != nil {
 		return err
@@ -219,6 +249,9 @@ func (b *GobBackend) Add(commits []git.Commit) (err error) {
 		if err == nil {
 			err = closeErr
 		}
+
+		// Don't save a file that might contain an incomplete gob
+		b.isBroken = b.isBroken || err != nil
 	}()
 
 	var data bytes.Buffer
@@ -249,9 +282,15 @@ func (b *GobBackend) Add(commits []git.Commit) (err error) {
 }
 
 func (b *GobBackend) Clear() error {
-	err := os.RemoveAll(b.Dir)
-	if err != nil {
-		return err
+	b.isDirty = false
+	b.isBroken = false
+
+	// Other processes might be using the directory, so leave it in place
+	for _, p := range []string{b.compressedPath(), b.workPath} {
+		err := os.RemoveAll(p)
+		if err != nil {
+			return err
+		}
 	}
 
 	return nil
@@ -313,8 +352,8 @@ func uncompress(sourcePath string, targetPath string) error {
 	return nil
 }
 
-// Compress file and save to gzipped location
-func compress(sourcePath string, targetPath string) error {
+// Compress file and save to gzipped location, replacing any file already there
+func compress(sourcePath string, targetPath string) (err error) {
 	f, err := os.Open(sourcePath)
 	if errors.Is(err, fs.ErrNotExist) {
 		return nil
@@ -323,11 +362,19 @@ func compress(sourcePath string, targetPath string) error {
 	}
 	defer f.Close()
 
-	fout, err := os.OpenFile(targetPath, os.O_WRONLY|os.O_CREATE, 0644)
+	fout, err := os.CreateTemp(
+		filepath.Dir(targetPath),
+		filepath.Base(targetPath)+".*.tmp",
+	)
 	if err != nil {
 		return err
 	}
-	defer fout.Close()
+	defer func() {
+		fout.Close()
+		if err != nil {
+			os.Remove(fout.Name())
+		}
+	}()
 
 	r := bufio.NewReader(f)
 	zw, err := gzip.NewWriterLevel(fout, gzip.BestSpeed)
@@ -345,5 +392,10 @@ func compress(sourcePath string, targetPath string) error {
 		return err
 	}
 
-	return nil
+	err = fout.Close()
+	if err != nil {
+		return err
+	}
+
+	return os.Rename(fout.Name(), targetPath)
 }
-- 
2.43.0


From 206bb16da8fecb934c28eb1d72ba5cd8edbb0e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 16/60] fix: make --nauthor match anywhere and combine with
 --author

The pattern was only tried at the start of the author's name, unlike the
--author patterns, and --author and --nauthor together selected commits
matching either of them rather than both.
---
 internal/git/cmd/filters.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/internal/git/cmd/filters.go b/internal/git/cmd/filters.go
index f1f9cbb..4e2a460 100644
--- a/internal/git/cmd/filters.go
+++ b/internal/git/cmd/filters.go
@@ -24,25 +24,24 @@ func (f LogFilters) ToArgs() []string {
 		args = append(args, "--until", f.Until)
 	}
 
-	for _, author := range f.Authors {
-		args = append(args, "--author", author)
-	}
+	if len(f.Nauthors) == 0 {
+		for _, author := range f.Authors {
+			args = append(args, "--author", author)
+		}
 
-	if len(f.Nauthors) > 0 {
-		args = append(args, "--perl-regexp")
+		return args
+	}
 
-		// Build regex pattern OR-ing together all the nauthors
-		var b strings.Builder
-		for i, nauthor := range f.Nauthors {
-			b.WriteString(nauthor)
-			if i < len(f.Nauthors)-1 {
-				b.WriteString("|")
-			}
-		}
+	// Git selects commits matching ANY of the author patterns it is given, so
+	// we have to express "one of the authors and none of the nauthors" as a
+	// single pattern.
+	args = append(args, "--perl-regexp")
 
-		regex := fmt.Sprintf(`^((?!%s).*)$`, b.String())
-		args = append(args, "--author", regex)
+	regex := fmt.Sprintf(`^(?!.*(?:%s))`, strings.Join(f.Nauthors, "|"))
+	if len(f.Authors) > 0 {
+		regex += fmt.Sprintf(`(?=.*(?:%s))`, strings.Join(f.Authors, "|"))
 	}
+	args = append(args, "--author", regex)
 
 	return args
 }
-- 
2.43.0


From ddf71bf01b5f51c6ea28a3cb75d9a621554c3ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 17/60] fix: make --author respect the mailmap in every mode

git rev-list never applies the mailmap to --author, so table -l/-f, tree and
hist -l/-f selected different commits than table and hist do.
---
 internal/concurrent/concurrent.go |  8 +++++++-
 internal/git/cmd/cmd.go           | 19 +++++++++++++++----
 internal/git/git.go               |  9 ++++++++-
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 05b5cea..6d9ecd8 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -153,7 +153,13 @@ func tallyFanOutFanIn[T combinable[T]](
 	var accumulator T
 
 	// -- Get rev list ---------------------------------------------------------
-	revs, err := git.RevList(ctx, whop.revspec, whop.pathspecs, whop.filters)
+	revs, err := git.RevList(
+		ctx,
+		whop.revspec,
+		whop.pathspecs,
+		whop.filters,
+		whop.useMailmap,
+	)
 	if err != nil {
 		return accumulator, err
 	}
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index a6d5e35..be0371f 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -34,6 +34,7 @@ func RunLog(
 			"--date=unix",
 			"--reverse",
 			"--no-show-signature",
+			"--use-mailmap",
 		}
 	} else {
 		baseArgs = []string{
@@ -157,22 +158,32 @@ func RunRevParseTopLevel(ctx context.Context) (*Subprocess, error) {
 	return subprocess, nil
 }
 
-// Runs git rev-list. When countOnly is true, passes --count, which is much
-// faster than printing then getting all the revisions when all you need is the
-// count.
+// Lists the hashes of commits.
+//
+// We use git log rather than git rev-list because --author doesn't respect the
+// mailmap in the latter.
 func RunRevList(
 	ctx context.Context,
 	revs []string,
 	pathspecs []string,
 	filters LogFilters,
+	useMailmap bool,
 ) (*Subprocess, error) {
 	if len(revs) == 0 {
 		return nil, errors.New("git rev-list requires revision spec")
 	}
 
 	baseArgs := []string{
-		"rev-list",
+		"log",
+		"--pretty=format:%H",
 		"--reverse",
+		"--no-show-signature",
+	}
+
+	if useMailmap {
+		baseArgs = append(baseArgs, "--use-mailmap")
+	} else {
+		baseArgs = append(baseArgs, "--no-mailmap")
 	}
 
 	filterArgs := filters.ToArgs()
diff --git a/internal/git/git.go b/internal/git/git.go
index de4a515..34502e3 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -119,6 +119,7 @@ func RevList(
 	revranges []string,
 	pathspecs []string,
 	filters cmd.LogFilters,
+	useMailmap bool,
 ) (_ []string, err error) {
 	defer func() {
 		if err != nil {
@@ -128,7 +129,13 @@ func RevList(
 
 	revs := []string{}
 
-	subprocess, err := cmd.RunRevList(ctx, revranges, pathspecs, filters)
+	subprocess, err := cmd.RunRevList(
+		ctx,
+		revranges,
+		pathspecs,
+		filters,
+		useMailmap,
+	)
 	if err != nil {
 		return revs, err
 	}
-- 
2.43.0


From b31ed83362c261ef8be9bfa1b883365dd1c85b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 18/60] fix: separate paths from options when running git
 ls-files

tree failed for a path starting with a dash.
---
 internal/git/cmd/cmd.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index be0371f..9c6696b 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -217,12 +217,7 @@ func RunLsFiles(ctx context.Context, pathspecs []string) (*Subprocess, error) {
 		"-z",
 	}
 
-	var args []string
-	if len(pathspecs) > 0 {
-		args = slices.Concat(baseArgs, pathspecs)
-	} else {
-		args = slices.Concat(baseArgs, []string{"--"}, pathspecs)
-	}
+	args := slices.Concat(baseArgs, []string{"--"}, pathspecs)
 
 	needStdin := false
 	subprocess, err := run(ctx, args, needStdin)
-- 
2.43.0


From aa76928025ddd90f1b6e7845fd7f92d9631b80ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 19/60] fix: always separate revisions from paths when running
 git log

git log refused to run in a directory containing a file called HEAD.
---
 internal/git/cmd/cmd.go | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 9c6696b..1c299b5 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -54,18 +54,13 @@ func RunLog(
 
 	filterArgs := filters.ToArgs()
 
-	var args []string
-	if len(pathspecs) > 0 {
-		args = slices.Concat(
-			baseArgs,
-			filterArgs,
-			revs,
-			[]string{"--"},
-			pathspecs,
-		)
-	} else {
-		args = slices.Concat(baseArgs, filterArgs, revs)
-	}
+	args := slices.Concat(
+		baseArgs,
+		filterArgs,
+		revs,
+		[]string{"--"},
+		pathspecs,
+	)
 
 	needStdin := false
 	subprocess, err := run(ctx, args, needStdin)
@@ -188,18 +183,13 @@ func RunRevList(
 
 	filterArgs := filters.ToArgs()
 
-	var args []string
-	if len(pathspecs) > 0 {
-		args = slices.Concat(
-			baseArgs,
-			filterArgs,
-			revs,
-			[]string{"--"},
-			pathspecs,
-		)
-	} else {
-		args = slices.Concat(baseArgs, filterArgs, revs)
-	}
+	args := slices.Concat(
+		baseArgs,
+		filterArgs,
+		revs,
+		[]string{"--"},
+		pathspecs,
+	)
 
 	needStdin := false
 	subprocess, err := run(ctx, args, needStdin)
-- 
2.43.0


From e6748d953f1bd68a88add89342b64d717d153407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 20/60] fix: accept comments after revisions in
 .git-blame-ignore-revs

git blame also accepts them, as it does uppercase hex digits.
---
 internal/git/config/files.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index bd7789c..555c334 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -84,9 +84,12 @@ func (sf SupplementalFiles) IgnoreRevs() (_ []string, err error) {
 
 	scanner := bufio.NewScanner(f)
 	for scanner.Scan() {
-		line := strings.TrimSpace(scanner.Text())
+		line := scanner.Text()
 
-		// Comments starting with "#" are allowed in the ignore revs file
+		// Comments starting with "#" are allowed in the ignore revs file, also
+		// after a revision
+		line, _, _ = strings.Cut(line, "#")
+		line = strings.ToLower(strings.TrimSpace(line))
 		if rev.IsFullHash(line) {
 			revs = append(revs, line)
 		}
-- 
2.43.0


From db49afbff02c0c7c4f4139592f8cf2c1fc51c7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 21/60] fix: resolve a relative mailmap.file from the
 repository root

In a subdirectory the file was not found and no mailmap was used.
---
 internal/git/config/config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/git/config/config.go b/internal/git/config/config.go
index 56776b0..ec27f56 100644
--- a/internal/git/config/config.go
+++ b/internal/git/config/config.go
@@ -95,6 +95,11 @@ func DetectSupplementalFiles(
 	}
 
 	if len(mailmapPath) > 0 {
+		if !filepath.IsAbs(mailmapPath) {
+			// Git resolves this from the root even when run in a subdirectory
+			mailmapPath = filepath.Join(gitRootPath, mailmapPath)
+		}
+
 		_, err = os.Stat(mailmapPath)
 		if err == nil {
 			files.GlobalMailmapPath = mailmapPath
-- 
2.43.0


From 7a8fd760d542c715c5e39602e8311efcba5ded53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 22/60] fix: report a failure to read mailmap.file from the
 config

git config exits with 1 if the value is not set. If it failed for any other
reason, the mailmap was silently not used.
---
 internal/git/config/config.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/git/config/config.go b/internal/git/config/config.go
index ec27f56..a09a246 100644
--- a/internal/git/config/config.go
+++ b/internal/git/config/config.go
@@ -39,12 +39,8 @@ func globalMailmapPath() (string, error) {
 	err = subprocess.Wait()
 	if err != nil {
 		var subprocessErr *cmd.SubprocessErr
-		if errors.As(err, &subprocessErr) {
-			logger().Debug(
-				"failed to get mailmap path from config or value not present",
-				"exitcode",
-				subprocessErr.ExitCode,
-			)
+		if errors.As(err, &subprocessErr) && subprocessErr.ExitCode == 1 {
+			logger().Debug("no mailmap path in config")
 			p = ""
 		} else {
 			logger().Debug("got unknown error")
-- 
2.43.0


From 687980b4623aa97195cdffbc4621d6748fd2681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 23/60] fix: keep spaces at the end of the repository's path

The root directory was not found if its name ended in a space, so mailmap and
ignore revs files were not used and tree printed nothing.
---
 internal/git/cmd/subprocess.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index 17dd20c..d65aa4b 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -53,7 +53,7 @@ func (s Subprocess) StdoutText() (string, error) {
 		return "", err
 	}
 
-	return strings.TrimSpace(string(b)), nil
+	return strings.TrimRight(string(b), "\r\n"), nil
 }
 
 // Returns a single-use iterator over the output of the command, line by line.
-- 
2.43.0


From fc5dcd02152270fd84858b14fd81bdbf8df09bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 24/60] fix: don't use cached commits after more history is
 fetched

Commits at the boundary of a shallow clone are diffed against nothing. They
were still read from the cache that way after fetching their parents.
---
 internal/cache/cache.go       |  5 +++++
 internal/git/cmd/cmd.go       | 12 ++++++++++++
 internal/git/config/config.go | 37 +++++++++++++++++++++++++++++++++++
 internal/git/config/files.go  | 24 +++++++++++++++++++++++
 4 files changed, 78 insertions(+)

diff --git a/internal/cache/cache.go b/internal/cache/cache.go
index a2b9fdf..197bfe0 100644
--- a/internal/cache/cache.go
+++ b/internal/cache/cache.go
@@ -183,6 +183,11 @@ func repoStateHash(sf config.SupplementalFiles) (string, error) {
 		return "", err
 	}
 
+	err = sf.ShallowHash(h)
+	if err != nil {
+		return "", err
+	}
+
 	return hex.EncodeToString(h.Sum(nil)), nil
 }
 
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 1c299b5..780779d 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -153,6 +153,18 @@ func RunRevParseTopLevel(ctx context.Context) (*Subprocess, error) {
 	return subprocess, nil
 }
 
+func RunRevParseGitPath(ctx context.Context, path string) (*Subprocess, error) {
+	var args = []string{"rev-parse", "--git-path", path}
+
+	needStdin := false
+	subprocess, err := run(ctx, args, needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git rev-parse: %w", err)
+	}
+
+	return subprocess, nil
+}
+
 // Lists the hashes of commits.
 //
 // We use git log rather than git rev-list because --author doesn't respect the
diff --git a/internal/git/config/config.go b/internal/git/config/config.go
index a09a246..aedc79f 100644
--- a/internal/git/config/config.go
+++ b/internal/git/config/config.go
@@ -51,6 +51,30 @@ func globalMailmapPath() (string, error) {
 	return p, nil
 }
 
+// Path to file listing the commits at which a shallow clone's history was cut
+// off. Doesn't exist if the repository isn't shallow.
+func shallowPath() (string, error) {
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	subprocess, err := cmd.RunRevParseGitPath(ctx, "shallow")
+	if err != nil {
+		return "", err
+	}
+
+	p, err := subprocess.StdoutText()
+	if err != nil {
+		return "", err
+	}
+
+	err = subprocess.Wait()
+	if err != nil {
+		return "", err
+	}
+
+	return p, nil
+}
+
 // NOTE: We do NOT respect the blame.ignoreRevsFile option in the git config
 // here, we just assume the conventional path for this file in the repo.
 //
@@ -113,5 +137,18 @@ func DetectSupplementalFiles(
 		return files, err
 	}
 
+	// Boundary of shallow clone
+	shallowPath, err := shallowPath()
+	if err != nil {
+		return files, err
+	}
+
+	_, err = os.Stat(shallowPath)
+	if err == nil {
+		files.ShallowPath = shallowPath
+	} else if !errors.Is(err, os.ErrNotExist) {
+		return files, err
+	}
+
 	return files, nil
 }
diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index 555c334..124ab5b 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -18,6 +18,7 @@ type SupplementalFiles struct {
 	RepoMailmapPath   string
 	GlobalMailmapPath string
 	IgnoreRevsPath    string
+	ShallowPath       string
 }
 
 func (sf SupplementalFiles) HasMailmap() bool {
@@ -62,6 +63,29 @@ func (sf SupplementalFiles) MailmapHash(h hash.Hash32) error {
 	return nil
 }
 
+// The diff of a commit at the boundary of a shallow clone changes when more
+// history is fetched.
+func (sf SupplementalFiles) ShallowHash(h hash.Hash32) error {
+	if len(sf.ShallowPath) == 0 {
+		return nil
+	}
+
+	f, err := os.Open(sf.ShallowPath)
+	if errors.Is(err, fs.ErrNotExist) {
+		return nil
+	} else if err != nil {
+		return fmt.Errorf("could not read shallow file: %v", err)
+	}
+	defer f.Close()
+
+	_, err = io.Copy(h, f)
+	if err != nil {
+		return fmt.Errorf("error hashing shallow file: %v", err)
+	}
+
+	return nil
+}
+
 // Get git blame ignored revisions
 func (sf SupplementalFiles) IgnoreRevs() (_ []string, err error) {
 	defer func() {
-- 
2.43.0


From 54a1d54516f06f8a1be249ffa4b2615bec79bcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 25/60] fix: print exactly one thousand with a thousands
 separator

---
 internal/format/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/format/format.go b/internal/format/format.go
index 98c3a5d..0ea8f85 100644
--- a/internal/format/format.go
+++ b/internal/format/format.go
@@ -96,7 +96,7 @@ func Number(num int) string {
 		return fmt.Sprintf("%.1fm", mils)
 	}
 
-	if num > 1_000 {
+	if num >= 1_000 {
 		ones := num % 1_000
 		thousands := num / 1_000
 		return fmt.Sprintf("%d,%03d", thousands, ones)
-- 
2.43.0


From ae3b6eaf96a1f1b6e136dab09721855bb3f9d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 26/60] fix: abbreviate exactly one million

It was printed as 1000,000.
---
 internal/format/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/format/format.go b/internal/format/format.go
index 0ea8f85..1510932 100644
--- a/internal/format/format.go
+++ b/internal/format/format.go
@@ -91,7 +91,7 @@ func Number(num int) string {
 		return ">99m"
 	}
 
-	if num > 1_000_000 {
+	if num >= 1_000_000 {
 		mils := float32(num) / 1_000_000
 		return fmt.Sprintf("%.1fm", mils)
 	}
-- 
2.43.0


From 8eb8ecfc5bff8fd0a8e45071f91e743538e4c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 27/60] fix: don't count commits as files in hist -f

A period in which an author only made commits without a diff counted each of
them as a file. Drawing the bar could even panic, as the winner's count could
exceed the total.
---
 internal/tally/tally.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 6125247..1e7138f 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -139,7 +139,7 @@ func (t Tally) Final() FinalTally {
 	}
 
 	files := t.numTallied // Not using fileset? Fallback to numTallied
-	if len(t.fileset) > 0 {
+	if t.fileset != nil {
 		files = len(t.fileset)
 	}
 
-- 
2.43.0


From 3d21d60839379ad769ac93e9e63559cb33863f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 28/60] fix: rank tied authors in a fixed order

Authors with equal counts and equal last edits came out in a random order, so
the rows kept by -n and the authors named by tree and hist varied between
runs.
---
 internal/tally/tally.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 1e7138f..465fb72 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -2,8 +2,10 @@
 package tally
 
 import (
+	"cmp"
 	"iter"
 	"slices"
+	"strings"
 	"time"
 
 	"github.com/sinclairtarget/git-who/internal/git"
@@ -77,7 +79,15 @@ func (a FinalTally) Compare(b FinalTally, mode TallyMode) int {
 	}
 
 	// Break ties with last edited
-	return a.LastCommitTime.Compare(b.LastCommitTime)
+	if c := a.LastCommitTime.Compare(b.LastCommitTime); c != 0 {
+		return c
+	}
+
+	// Otherwise just make sure that the order is always the same
+	return cmp.Or(
+		strings.Compare(b.AuthorName, a.AuthorName),
+		strings.Compare(b.AuthorEmail, a.AuthorEmail),
+	)
 }
 
 // A non-final tally that can be combined with other tallies and then finalized
-- 
2.43.0


From d08e2cbb46a368c1fdad23bfbb7ab2e5b630941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 29/60] fix: always print the same name for an email address

With -e, the name shown for an author using several names was that of
whichever tally was combined first, which varied between runs and with the
number of CPUs. Use the name of the earliest commit.
---
 internal/tally/bucket.go |  9 +++++++++
 internal/tally/tally.go  | 35 +++++++++++++++++++++++++++--------
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/internal/tally/bucket.go b/internal/tally/bucket.go
index 72416e4..f7517a4 100644
--- a/internal/tally/bucket.go
+++ b/internal/tally/bucket.go
@@ -9,6 +9,7 @@ import (
 	"time"
 
 	"github.com/sinclairtarget/git-who/internal/git"
+	"github.com/sinclairtarget/git-who/internal/utils/timeutils"
 )
 
 type TimeBucket struct {
@@ -80,6 +81,7 @@ func (b TimeBucket) Rank(mode TallyMode) TimeBucket {
 		b.Tally = Rank(b.tallies, mode)[0]
 
 		var runningTally Tally
+		runningTally.firstCommitTime = time.Unix(1<<62, 0)
 		for _, tally := range b.tallies {
 			runningTally = runningTally.Combine(tally)
 		}
@@ -236,9 +238,16 @@ func TallyCommitsByDate(
 			if !ok {
 				tally.name = commit.AuthorName
 				tally.email = commit.AuthorEmail
+				tally.firstCommitTime = commit.Date
 				tally.fileset = map[string]bool{}
 			}
 
+			tally = tally.withIdentity(commit)
+			tally.firstCommitTime = timeutils.Min(
+				tally.firstCommitTime,
+				commit.Date,
+			)
+
 			tally.numTallied += 1
 
 			if !commit.IsMerge {
diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 465fb72..865f4c6 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -104,14 +104,28 @@ type Tally struct {
 	numTallied int
 }
 
-func or(a, b string) string {
-	if a == "" {
-		return b
-	} else if b == "" {
-		return a
+// An author might go by several names (or have several email addresses). We
+// always use those of their earliest commit.
+func firstIdentity(a, b Tally) (name string, email string) {
+	c := cmp.Or(
+		a.firstCommitTime.Compare(b.firstCommitTime),
+		strings.Compare(a.name, b.name),
+		strings.Compare(a.email, b.email),
+	)
+	if c <= 0 {
+		return a.name, a.email
 	}
 
-	return a
+	return b.name, b.email
+}
+
+func (t Tally) withIdentity(commit git.Commit) Tally {
+	t.name, t.email = firstIdentity(t, Tally{
+		name:            commit.AuthorName,
+		email:           commit.AuthorEmail,
+		firstCommitTime: commit.Date,
+	})
+	return t
 }
 
 func unionInPlace(a, b map[string]bool) map[string]bool {
@@ -129,9 +143,11 @@ func unionInPlace(a, b map[string]bool) map[string]bool {
 }
 
 func (a Tally) Combine(b Tally) Tally {
+	name, email := firstIdentity(a, b)
+
 	return Tally{
-		name:            or(a.name, b.name),
-		email:           or(a.email, b.email),
+		name:            name,
+		email:           email,
 		commitset:       unionInPlace(a.commitset, b.commitset),
 		added:           a.added + b.added,
 		removed:         a.removed + b.removed,
@@ -245,6 +261,7 @@ func TallyCommits(
 			}
 
 			tally.numTallied += 1
+			tally = tally.withIdentity(commit)
 			tally.firstCommitTime = timeutils.Min(
 				commit.Date,
 				tally.firstCommitTime,
@@ -309,6 +326,7 @@ func TallyCommitsByPath(
 			}
 
 			tally.commitset[commit.ShortHash] = true
+			tally = tally.withIdentity(commit)
 			tally.firstCommitTime = timeutils.Min(
 				tally.firstCommitTime,
 				commit.Date,
@@ -330,6 +348,7 @@ func TallyCommitsByPath(
 				}
 
 				tally.commitset[commit.ShortHash] = true
+				tally = tally.withIdentity(commit)
 				tally.firstCommitTime = timeutils.Min(
 					tally.firstCommitTime,
 					commit.Date,
-- 
2.43.0


From b7394545d3a39f62b79d0f81dc68cd9ae10cd959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 30/60] fix: tree should work when run through a symlinked
 directory

Nothing was printed, because no path seemed to be in the working directory.
---
 internal/tally/tree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/tally/tree.go b/internal/tally/tree.go
index 7dbfbd2..25bedfc 100644
--- a/internal/tally/tree.go
+++ b/internal/tally/tree.go
@@ -123,6 +123,12 @@ func TallyCommitsTreeFromPaths(
 		return root, err
 	}
 
+	// Git gives us the root directory with symlinks resolved
+	wd, err = filepath.EvalSymlinks(wd)
+	if err != nil {
+		return root, err
+	}
+
 	// Build tree
 	for key, pathTallies := range talliesByPath {
 		for p, tally := range pathTallies {
-- 
2.43.0


From 7ece88ab33194d94006f8a9324d7ec75942baa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 31/60] fix: match paths containing glob characters as Git does

Files like app/[slug]/page.tsx or a{b} given as a path were not counted and
an incomplete pattern like "foo[" made every command panic. Git also takes
pathspecs literally and knows no brace expansion.
---
 internal/git/pathspec.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index afc1faa..3fb7822 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -4,12 +4,14 @@ import (
 	"fmt"
 	"path"
 	"regexp"
+	"strings"
 
 	"github.com/bmatcuk/doublestar/v4"
 )
 
 var excludePathspecRegexp *regexp.Regexp
 var excludeStripRegexp *regexp.Regexp
+var braceRegexp *regexp.Regexp
 
 func init() {
 	excludePathspecRegexp = regexp.MustCompile(
@@ -18,6 +20,7 @@ func init() {
 	excludeStripRegexp = regexp.MustCompile(
 		`^(:[!\^]:?|:\(exclude\))`,
 	)
+	braceRegexp = regexp.MustCompile(`\\.|[{}]`)
 }
 
 /*
@@ -54,13 +57,36 @@ func SplitPathspecs(pathspecs []string) (includes []string, excludes []string) {
 	return includes, excludes
 }
 
-// Function might panic if passed an invalid pathspec. We validate these
-// elsewhere.
+func escapeBrace(s string) string {
+	if s == "{" || s == "}" {
+		return `\` + s
+	}
+
+	return s // Already escaped
+}
+
 func PathspecMatch(pathspec string, p string) bool {
 	if len(pathspec) == 0 {
 		panic("empty string is not valid pathspec")
 	}
 
+	// Git first of all tries to match the pathspec literally, as a file or
+	// directory
+	if p == pathspec ||
+		strings.HasPrefix(p, strings.TrimSuffix(pathspec, "/")+"/") {
+		return true
+	}
+
+	if !strings.ContainsAny(pathspec, "*?[\\") {
+		return false
+	}
+
+	// Braces aren't special to Git
+	pathspec = braceRegexp.ReplaceAllStringFunc(pathspec, escapeBrace)
+	if !doublestar.ValidatePattern(pathspec) {
+		return false
+	}
+
 	// Note: Git uses fnmatch(). This match may differ. Hopefully only rarely.
 	didMatch, err := doublestar.Match(pathspec, p)
 	if err != nil {
-- 
2.43.0


From de158248465885f5cab7f5ca83ffc566ca0a38f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 32/60] fix: wildcards in patterns without a slash match like
 Git

Git's wildcards also match slashes, so "*foo" matches "a/xfoo/b".
---
 internal/git/pathspec.go | 96 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 96 insertions(+)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 3fb7822..deebd4a 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -81,6 +81,11 @@ func PathspecMatch(pathspec string, p string) bool {
 		return false
 	}
 
+	// In Git, wildcards also match slashes
+	if !strings.Contains(pathspec, "/") {
+		return wildcardMatch(pathspec, p)
+	}
+
 	// Braces aren't special to Git
 	pathspec = braceRegexp.ReplaceAllStringFunc(pathspec, escapeBrace)
 	if !doublestar.ValidatePattern(pathspec) {
@@ -123,3 +128,94 @@ func PathspecMatch(pathspec string, p string) bool {
 
 	return false
 }
+
+// Matches like fnmatch() without FNM_PATHNAME, which is what Git uses
+func wildcardMatch(pattern string, s string) bool {
+	// Where to resume if what follows the last "*" doesn't match
+	var starPattern, starS string
+	seenStar := false
+
+	for len(pattern) > 0 || len(s) > 0 {
+		if len(pattern) > 0 && pattern[0] == '*' {
+			pattern = pattern[1:]
+			starPattern, starS, seenStar = pattern, s, true
+			continue
+		}
+
+		if len(pattern) > 0 && len(s) > 0 {
+			rest, ok := wildcardMatchByte(pattern, s[0])
+			if ok {
+				pattern, s = rest, s[1:]
+				continue
+			}
+		}
+
+		if !seenStar || len(starS) == 0 {
+			return false
+		}
+
+		// Have "*" match one more byte
+		starS = starS[1:]
+		pattern, s = starPattern, starS
+	}
+
+	return true
+}
+
+// Matches a single byte against the start of the pattern. Returns what is left
+// of the pattern.
+func wildcardMatchByte(pattern string, b byte) (rest string, matched bool) {
+	c, pattern := pattern[0], pattern[1:]
+
+	switch {
+	case c == '?':
+		return pattern, true
+	case c == '[':
+		return wildcardMatchClass(pattern, b)
+	case c == '\\' && len(pattern) == 0:
+		return "", false
+	case c == '\\':
+		c, pattern = pattern[0], pattern[1:]
+	}
+
+	return pattern, b == c
+}
+
+// Matches a single byte against a bracket expression whose opening bracket has
+// been consumed.
+func wildcardMatchClass(pattern string, b byte) (rest string, matched bool) {
+	negated := false
+	if len(pattern) > 0 && (pattern[0] == '!' || pattern[0] == '^') {
+		negated = true
+		pattern = pattern[1:]
+	}
+
+	next := func() (c byte, ok bool) {
+		if len(pattern) > 1 && pattern[0] == '\\' {
+			pattern = pattern[1:]
+		}
+		if len(pattern) == 0 {
+			return 0, false
+		}
+
+		c, pattern = pattern[0], pattern[1:]
+		return c, true
+	}
+
+	for first := true; first || !strings.HasPrefix(pattern, "]"); first = false {
+		low, ok := next()
+		if !ok {
+			return "", false // Bracket expression has no end
+		}
+
+		high := low
+		if len(pattern) > 1 && pattern[0] == '-' && pattern[1] != ']' {
+			pattern = pattern[1:]
+			high, _ = next()
+		}
+
+		matched = matched || (low <= b && b <= high)
+	}
+
+	return pattern[1:], matched != negated
+}
-- 
2.43.0


From 7812dbbbfe5e8fca989427656f1bdc8d65aaa986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 33/60] fix: respect the working directory when limiting diffs
 by path

Pathspecs are relative to the working directory, while the paths in diffs are
relative to the root of the repository. Also, don't let git log limit the diffs
when running sequentially, or renames into a path are seen as additions.
---
 internal/concurrent/concurrent.go | 12 +++++-
 internal/concurrent/worker.go     |  6 ++-
 internal/git/cmd/cmd.go           | 17 +++++++-
 internal/git/git.go               | 72 +++++++++++++++++++++++++++++--
 internal/git/pathspec.go          | 67 ++++++++++++++++++++++++++++
 5 files changed, 167 insertions(+), 7 deletions(-)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 6d9ecd8..9b73568 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -59,6 +59,7 @@ type combinable[T any] interface {
 type whoperation[T combinable[T]] struct {
 	revspec    []string
 	pathspecs  []string
+	workDir    git.WorkDir
 	filters    cmd.LogFilters
 	useMailmap bool
 	ignoreRevs []string
@@ -101,7 +102,7 @@ func accumulateCached[T combinable[T]](
 	var none T
 
 	commits, finish := c.Get(revs)
-	commits, err := git.LimitDiffsByPathspec(commits, whop.pathspecs)
+	commits, err := git.LimitDiffsFromDir(commits, whop.pathspecs, whop.workDir)
 	if err != nil {
 		return none, revs, err
 	}
@@ -152,6 +153,15 @@ func tallyFanOutFanIn[T combinable[T]](
 
 	var accumulator T
 
+	if len(whop.pathspecs) > 0 {
+		workDir, err := git.GetWorkDir()
+		if err != nil {
+			return accumulator, err
+		}
+
+		whop.workDir = workDir
+	}
+
 	// -- Get rev list ---------------------------------------------------------
 	revs, err := git.RevList(
 		ctx,
diff --git a/internal/concurrent/worker.go b/internal/concurrent/worker.go
index 73b12c7..313ed88 100644
--- a/internal/concurrent/worker.go
+++ b/internal/concurrent/worker.go
@@ -235,7 +235,11 @@ loop:
 
 				// Now that we're tallying, we DO care to only look at the file
 				// diffs under the given paths
-				commits, err = git.LimitDiffsByPathspec(commits, whop.pathspecs)
+				commits, err = git.LimitDiffsFromDir(
+					commits,
+					whop.pathspecs,
+					whop.workDir,
+				)
 				if err != nil {
 					return result, err
 				}
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 780779d..0fa2ca4 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -49,7 +49,10 @@ func RunLog(
 	}
 
 	if needDiffs {
-		baseArgs = append(baseArgs, "--numstat")
+		// Get the whole diff even if we are only looking for commits that
+		// touched certain paths. Otherwise Git won't detect renames from
+		// elsewhere.
+		baseArgs = append(baseArgs, "--numstat", "--full-diff")
 	}
 
 	filterArgs := filters.ToArgs()
@@ -153,6 +156,18 @@ func RunRevParseTopLevel(ctx context.Context) (*Subprocess, error) {
 	return subprocess, nil
 }
 
+func RunRevParsePrefix(ctx context.Context) (*Subprocess, error) {
+	var args = []string{"rev-parse", "--show-prefix"}
+
+	needStdin := false
+	subprocess, err := run(ctx, args, needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git rev-parse: %w", err)
+	}
+
+	return subprocess, nil
+}
+
 func RunRevParseGitPath(ctx context.Context, path string) (*Subprocess, error) {
 	var args = []string{"rev-parse", "--git-path", path}
 
diff --git a/internal/git/git.go b/internal/git/git.go
index 34502e3..dee48cf 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -85,6 +85,14 @@ func CommitsWithOpts(
 		return empty, func() error { return err }
 	}
 
+	workDir := WorkDir{}
+	if populateDiffs && len(pathspecs) > 0 {
+		workDir, err = GetWorkDir()
+		if err != nil {
+			return empty, func() error { return err }
+		}
+	}
+
 	subprocess, err := cmd.RunLog(
 		ctx,
 		revs,
@@ -101,9 +109,14 @@ func CommitsWithOpts(
 	commits, finishCommits := ParseCommits(lines)
 	commits = SkipIgnored(commits, ignoreRevs)
 
+	var limitErr error
+	if populateDiffs {
+		commits, limitErr = LimitDiffsFromDir(commits, pathspecs, workDir)
+	}
+
 	finish := func() error {
 		iterErr := finishCommits()
-		iterErr = errors.Join(iterErr, finishLines())
+		iterErr = errors.Join(limitErr, iterErr, finishLines())
 		if iterErr != nil {
 			return fmt.Errorf("error iterating commits: %v", iterErr)
 		}
@@ -186,6 +199,45 @@ func GetRoot() (_ string, err error) {
 	return root, nil
 }
 
+// The working directory's place in the repository.
+type WorkDir struct {
+	Root   string // Absolute path to root of the repository
+	Prefix string // Path from root, ending with a slash. Empty for root
+}
+
+func GetWorkDir() (_ WorkDir, err error) {
+	defer func() {
+		if err != nil {
+			err = fmt.Errorf("failed to get place in Git repository: %w", err)
+		}
+	}()
+
+	root, err := GetRoot()
+	if err != nil {
+		return WorkDir{}, err
+	}
+
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	subprocess, err := cmd.RunRevParsePrefix(ctx)
+	if err != nil {
+		return WorkDir{}, err
+	}
+
+	prefix, err := subprocess.StdoutText()
+	if err != nil {
+		return WorkDir{}, err
+	}
+
+	err = subprocess.Wait()
+	if err != nil {
+		return WorkDir{}, err
+	}
+
+	return WorkDir{Root: root, Prefix: prefix}, nil
+}
+
 // Returns all paths in the working tree under the given pathspecs.
 func WorkingTreeFiles(pathspecs []string) (_ map[string]bool, err error) {
 	defer func() {
@@ -227,6 +279,16 @@ func WorkingTreeFiles(pathspecs []string) (_ map[string]bool, err error) {
 func LimitDiffsByPathspec(
 	commits iter.Seq[Commit],
 	pathspecs []string,
+) (iter.Seq[Commit], error) {
+	return LimitDiffsFromDir(commits, pathspecs, WorkDir{})
+}
+
+// As LimitDiffsByPathspec(), for pathspecs given in the working directory. The
+// paths in file diffs are always relative to the root of the repository.
+func LimitDiffsFromDir(
+	commits iter.Seq[Commit],
+	pathspecs []string,
+	workDir WorkDir,
 ) (iter.Seq[Commit], error) {
 	if len(pathspecs) == 0 {
 		return commits, nil
@@ -241,7 +303,9 @@ func LimitDiffsByPathspec(
 	}
 
 	return func(yield func(Commit) bool) {
-		includes, excludes := SplitPathspecs(pathspecs)
+		includePathspecs, excludePathspecs := SplitPathspecs(pathspecs)
+		includes := rootPathspecs(includePathspecs, workDir)
+		excludes := rootPathspecs(excludePathspecs, workDir)
 
 		for commit := range commits {
 			filtered := []FileDiff{}
@@ -250,7 +314,7 @@ func LimitDiffsByPathspec(
 				// included.
 				shouldInclude := len(includes) == 0
 				for _, p := range includes {
-					if PathspecMatch(p, diff.Path) {
+					if p.match(diff.Path) {
 						shouldInclude = true
 						break
 					}
@@ -258,7 +322,7 @@ func LimitDiffsByPathspec(
 
 				shouldExclude := false
 				for _, p := range excludes {
-					if PathspecMatch(p, diff.Path) {
+					if p.match(diff.Path) {
 						shouldExclude = true
 						break
 					}
diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index deebd4a..fbe8115 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -3,6 +3,7 @@ package git
 import (
 	"fmt"
 	"path"
+	"path/filepath"
 	"regexp"
 	"strings"
 
@@ -129,6 +130,72 @@ func PathspecMatch(pathspec string, p string) bool {
 	return false
 }
 
+// Pathspec that is relative to a directory.
+type rootedPathspec struct {
+	dir      string // Path from root, ending with a slash. Empty for root
+	pathspec string // If empty, matches everything in dir
+}
+
+func rootPathspecs(pathspecs []string, workDir WorkDir) []rootedPathspec {
+	rooted := []rootedPathspec{}
+	for _, p := range pathspecs {
+		rooted = append(rooted, rootPathspec(p, workDir))
+	}
+
+	return rooted
+}
+
+func rootPathspec(pathspec string, workDir WorkDir) rootedPathspec {
+	dir := workDir.Prefix
+
+	if workDir.Root != "" && filepath.IsAbs(pathspec) {
+		dir = ""
+		pathspec = relToRoot(pathspec, workDir.Root)
+	}
+
+	// Git resolves "." and ".." before it looks for wildcards
+	cleaned := path.Clean(pathspec)
+	for cleaned == ".." || strings.HasPrefix(cleaned, "../") {
+		cleaned = strings.TrimPrefix(strings.TrimPrefix(cleaned, ".."), "/")
+
+		dir = path.Dir(strings.TrimSuffix(dir, "/")) + "/"
+		if dir == "./" {
+			dir = ""
+		}
+	}
+
+	if cleaned == "." {
+		cleaned = ""
+	} else if cleaned != "" && strings.HasSuffix(pathspec, "/") {
+		cleaned += "/"
+	}
+
+	return rootedPathspec{dir: dir, pathspec: cleaned}
+}
+
+func relToRoot(p string, root string) string {
+	rel, err := filepath.Rel(root, p)
+	if err != nil || !filepath.IsLocal(rel) {
+		// Git gives us the root directory with symlinks resolved
+		resolved, err := filepath.EvalSymlinks(p)
+		if err != nil {
+			return p
+		}
+
+		rel, err = filepath.Rel(root, resolved)
+		if err != nil {
+			return p
+		}
+	}
+
+	return filepath.ToSlash(rel)
+}
+
+func (r rootedPathspec) match(p string) bool {
+	p, inDir := strings.CutPrefix(p, r.dir)
+	return inDir && (r.pathspec == "" || PathspecMatch(r.pathspec, p))
+}
+
 // Matches like fnmatch() without FNM_PATHNAME, which is what Git uses
 func wildcardMatch(pattern string, s string) bool {
 	// Where to resume if what follows the last "*" doesn't match
-- 
2.43.0


From 9e3ef7bbb6724852524f5e7672be218af3281fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 34/60] fix: hist hangs if a day without midnight is in range

When daylight saving time starts at midnight, as it does or did in e.g. Brazil,
time.Date() gives us a time on the day before, so we never got to the next
day.
---
 internal/tally/bucket.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/internal/tally/bucket.go b/internal/tally/bucket.go
index f7517a4..a99e932 100644
--- a/internal/tally/bucket.go
+++ b/internal/tally/bucket.go
@@ -128,9 +128,22 @@ type Resolution struct {
 	next  func(time.Time) time.Time
 }
 
+// Returns the first instant of the given date in the local time zone. This isn't
+// always midnight, since daylight saving time can start at midnight.
+func startOfDay(year int, month time.Month, day int) time.Time {
+	t := time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+
+	noon := time.Date(year, month, day, 12, 0, 0, 0, time.Local)
+	if t.Day() != noon.Day() {
+		_, t = t.ZoneBounds()
+	}
+
+	return t
+}
+
 func applyDaily(t time.Time) time.Time {
 	year, month, day := t.Date()
-	return time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+	return startOfDay(year, month, day)
 }
 
 var daily = Resolution{
@@ -138,7 +151,7 @@ var daily = Resolution{
 	next: func(t time.Time) time.Time {
 		t = applyDaily(t)
 		year, month, day := t.Date()
-		return time.Date(year, month, day+1, 0, 0, 0, 0, time.Local)
+		return startOfDay(year, month, day+1)
 	},
 	label: func(t time.Time) string {
 		return applyDaily(t).Format(time.DateOnly)
@@ -154,14 +167,14 @@ func CalcResolution(start time.Time, end time.Time) Resolution {
 		// Yearly buckets
 		apply := func(t time.Time) time.Time {
 			year, _, _ := t.Date()
-			return time.Date(year, 1, 1, 0, 0, 0, 0, time.Local)
+			return startOfDay(year, 1, 1)
 		}
 		return Resolution{
 			apply: apply,
 			next: func(t time.Time) time.Time {
 				t = apply(t)
 				year, _, _ := t.Date()
-				return time.Date(year+1, 1, 1, 0, 0, 0, 0, time.Local)
+				return startOfDay(year+1, 1, 1)
 			},
 			label: func(t time.Time) string {
 				return apply(t).Format("2006")
@@ -171,14 +184,14 @@ func CalcResolution(start time.Time, end time.Time) Resolution {
 		// Monthly buckets
 		apply := func(t time.Time) time.Time {
 			year, month, _ := t.Date()
-			return time.Date(year, month, 1, 0, 0, 0, 0, time.Local)
+			return startOfDay(year, month, 1)
 		}
 		return Resolution{
 			apply: apply,
 			next: func(t time.Time) time.Time {
 				t = apply(t)
 				year, month, _ := t.Date()
-				return time.Date(year, month+1, 1, 0, 0, 0, 0, time.Local)
+				return startOfDay(year, month+1, 1)
 			},
 			label: func(t time.Time) string {
 				return apply(t).Format("Jan 2006")
-- 
2.43.0


From d55df598c43e03b9003f2022a3dc6211c2696837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 35/60] fix: draw connector for last file in tree correctly

Commits without any diff have a child in the tree that is never shown but was
taken to be the last one with -a.
---
 internal/subcommands/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index 9b45edc..ee29ca9 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -288,6 +288,10 @@ func toLines(
 	// Find last non-hidden child
 	finalChildIndex := 0
 	for i, p := range childPaths {
+		if p == tally.NoDiffPathname {
+			continue // Never shown
+		}
+
 		child := node.Children[p]
 		if child.InWorkTree || opts.showHidden {
 			finalChildIndex = i
-- 
2.43.0


From e47e6343e60488d2b502def6c2491e6f7c95ef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 36/60] fix: show files in tree whose path used to be a
 directory

They were taken for a directory, or not shown at all if only one file had been
in the directory.
---
 internal/subcommands/tree.go | 16 ++++++++--------
 internal/tally/tree.go       |  8 ++++++++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index ee29ca9..6de6238 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -215,7 +215,7 @@ func toLines(
 		return lines
 	}
 
-	if depth < opts.maxDepth && len(node.Children) == 1 {
+	if depth < opts.maxDepth && node.IsDir() && len(node.Children) == 1 {
 		// Path ellision
 		for k, v := range node.Children {
 			lines = toLines(
@@ -252,7 +252,7 @@ func toLines(
 	line.indent = indentBuilder.String()
 
 	line.path = path
-	if len(node.Children) > 0 {
+	if node.IsDir() {
 		// Have a directory
 		line.path = path + string(os.PathSeparator)
 	}
@@ -260,11 +260,11 @@ func toLines(
 	line.tally = node.Tally
 	line.metric = fmtTallyMetric(node.Tally, opts)
 	line.showLine = node.InWorkTree || opts.showHidden
-	line.dimTally = len(node.Children) > 0
+	line.dimTally = node.IsDir()
 	line.dimPath = !node.InWorkTree
 
 	newAuthor := opts.key(node.Tally) != lastAuthor
-	line.showTally = opts.showHidden || newAuthor || len(node.Children) > 0
+	line.showTally = opts.showHidden || newAuthor || node.IsDir()
 
 	lines = append(lines, line)
 
@@ -272,12 +272,12 @@ func toLines(
 		maps.Keys(node.Children),
 		func(a, b string) int {
 			// Show directories first
-			aHasChildren := len(node.Children[a].Children) > 0
-			bHasChildren := len(node.Children[b].Children) > 0
+			aIsDir := node.Children[a].IsDir()
+			bIsDir := node.Children[b].IsDir()
 
-			if aHasChildren == bHasChildren {
+			if aIsDir == bIsDir {
 				return strings.Compare(a, b) // Sort alphabetically
-			} else if aHasChildren {
+			} else if aIsDir {
 				return -1
 			} else {
 				return 1
diff --git a/internal/tally/tree.go b/internal/tally/tree.go
index 25bedfc..26409f9 100644
--- a/internal/tally/tree.go
+++ b/internal/tally/tree.go
@@ -20,6 +20,7 @@ type TreeNode struct {
 	Tally      FinalTally
 	Children   map[string]*TreeNode
 	InWorkTree bool // In git working tree/directory
+	IsFile     bool // Is a file (not a directory) in git working tree/directory
 	tallies    map[string]Tally
 }
 
@@ -45,10 +46,17 @@ func splitPath(path string) (string, string) {
 	return dir, subpath
 }
 
+// Files in the working tree can have children too, namely the files that used
+// to be in a directory of the same name.
+func (t *TreeNode) IsDir() bool {
+	return len(t.Children) > 0 && !t.IsFile
+}
+
 func (t *TreeNode) insert(path string, key string, tally Tally, inWTree bool) {
 	if path == "" {
 		// Leaf
 		t.tallies[key] = tally
+		t.IsFile = t.IsFile || inWTree
 		return
 	}
 
-- 
2.43.0


From e5407f7a152dcae76c4a68f451efe4098db1fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 37/60] fix: tree shows nothing for a directory with an exclude
 pathspec

git ls-files gets the combination wrong if the exclude pathspec isn't below the
included path.
---
 internal/subcommands/tree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index 6de6238..0ce7c97 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -86,7 +86,10 @@ func Tree(
 		nauthors,
 	)
 
-	wtreeset, err := git.WorkingTreeFiles(pathspecs)
+	// We only tally the given paths anyway. No need to have git ls-files limit
+	// them too, which lists nothing if there is an exclude pathspec that isn't
+	// under a directory to be included.
+	wtreeset, err := git.WorkingTreeFiles([]string{})
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 67edee2b9aceed2d735735429060e6418dff847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 38/60] fix: tree in a directory that used to be a file

The file was listed without a name rather than counted toward the directory.
---
 internal/tally/tree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/tally/tree.go b/internal/tally/tree.go
index 26409f9..5c20afa 100644
--- a/internal/tally/tree.go
+++ b/internal/tally/tree.go
@@ -153,6 +153,12 @@ func TallyCommitsTreeFromPaths(
 
 			// Okay, back to all paths using forward-slash separator
 			relPath = filepath.ToSlash(relPath)
+			if relPath == "." {
+				// Working dir used to be a file
+				root.insert("", key, tally, false)
+				continue
+			}
+
 			inWTree := worktreePaths[relPath]
 			root.insert(relPath, key, tally, inWTree)
 		}
-- 
2.43.0


From 1f5099de58a86ef8e0690671b5b109a3e8c0a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 39/60] fix: character classes in wildcards match like Git

---
 internal/git/pathspec.go | 55 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index fbe8115..dff7a8c 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -248,6 +248,34 @@ func wildcardMatchByte(pattern string, b byte) (rest string, matched bool) {
 	return pattern, b == c
 }
 
+var charClasses = map[string]func(b byte) bool{
+	"alnum":  func(b byte) bool { return isAlpha(b) || isDigit(b) },
+	"alpha":  isAlpha,
+	"blank":  func(b byte) bool { return b == ' ' || b == '\t' },
+	"cntrl":  func(b byte) bool { return b < ' ' || b == 0x7f },
+	"digit":  isDigit,
+	"graph":  func(b byte) bool { return ' ' < b && b < 0x7f },
+	"lower":  isLower,
+	"print":  func(b byte) bool { return ' ' <= b && b < 0x7f },
+	"punct":  isPunct,
+	"space":  func(b byte) bool { return b == ' ' || '\t' <= b && b <= '\r' },
+	"upper":  isUpper,
+	"xdigit": isHexDigit,
+}
+
+func isDigit(b byte) bool { return '0' <= b && b <= '9' }
+func isLower(b byte) bool { return 'a' <= b && b <= 'z' }
+func isUpper(b byte) bool { return 'A' <= b && b <= 'Z' }
+func isAlpha(b byte) bool { return isLower(b) || isUpper(b) }
+
+func isPunct(b byte) bool {
+	return ' ' < b && b < 0x7f && !isAlpha(b) && !isDigit(b)
+}
+
+func isHexDigit(b byte) bool {
+	return isDigit(b) || 'a' <= b && b <= 'f' || 'A' <= b && b <= 'F'
+}
+
 // Matches a single byte against a bracket expression whose opening bracket has
 // been consumed.
 func wildcardMatchClass(pattern string, b byte) (rest string, matched bool) {
@@ -270,18 +298,37 @@ func wildcardMatchClass(pattern string, b byte) (rest string, matched bool) {
 	}
 
 	for first := true; first || !strings.HasPrefix(pattern, "]"); first = false {
+		// Character class, like "[:digit:]"
+		if strings.HasPrefix(pattern, "[:") {
+			end := strings.IndexByte(pattern[2:], ']') + 2
+			if end < 2 {
+				return "", false // Bracket expression has no end
+			}
+
+			if end > 2 && pattern[end-1] == ':' {
+				inClass, ok := charClasses[pattern[2:end-1]]
+				if !ok {
+					return "", false // Git doesn't match anything either
+				}
+
+				matched = matched || inClass(b)
+				pattern = pattern[end+1:]
+				continue
+			}
+		}
+
 		low, ok := next()
 		if !ok {
 			return "", false // Bracket expression has no end
 		}
 
-		high := low
+		// Git counts the start of a range, even if it goes backwards
+		matched = matched || b == low
 		if len(pattern) > 1 && pattern[0] == '-' && pattern[1] != ']' {
 			pattern = pattern[1:]
-			high, _ = next()
+			high, _ := next()
+			matched = matched || (low <= b && b <= high)
 		}
-
-		matched = matched || (low <= b && b <= high)
 	}
 
 	return pattern[1:], matched != negated
-- 
2.43.0


From 4e763ba9cf577dc5a206fa3c63af07569dfc3b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 40/60] fix: absolute directory pathspec with trailing slash
 matched a file

---
 internal/git/pathspec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index dff7a8c..2330315 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -147,6 +147,7 @@ func rootPathspecs(pathspecs []string, workDir WorkDir) []rootedPathspec {
 
 func rootPathspec(pathspec string, workDir WorkDir) rootedPathspec {
 	dir := workDir.Prefix
+	dirOnly := strings.HasSuffix(pathspec, "/")
 
 	if workDir.Root != "" && filepath.IsAbs(pathspec) {
 		dir = ""
@@ -166,7 +167,7 @@ func rootPathspec(pathspec string, workDir WorkDir) rootedPathspec {
 
 	if cleaned == "." {
 		cleaned = ""
-	} else if cleaned != "" && strings.HasSuffix(pathspec, "/") {
+	} else if cleaned != "" && dirOnly {
 		cleaned += "/"
 	}
 
-- 
2.43.0


From 672866f16b4757115f0df54958b848d1254f3035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 41/60] fix: long line in .git-blame-ignore-revs made every
 command fail

---
 internal/git/config/files.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index 124ab5b..f131943 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -7,6 +7,7 @@ import (
 	"hash"
 	"io"
 	"io/fs"
+	"math"
 	"os"
 	"strings"
 
@@ -107,6 +108,7 @@ func (sf SupplementalFiles) IgnoreRevs() (_ []string, err error) {
 	defer f.Close()
 
 	scanner := bufio.NewScanner(f)
+	scanner.Buffer(nil, math.MaxInt32)
 	for scanner.Scan() {
 		line := scanner.Text()
 
-- 
2.43.0


From 5ea6710cd5d602fbf426ac42fd59e33f0f25bd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 42/60] fix: tree annotations not aligned for paths with wide
 characters

---
 internal/subcommands/tree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index 0ce7c97..bf4a9c8 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -11,6 +11,8 @@ import (
 	"strings"
 	"unicode/utf8"
 
+	runewidth "github.com/mattn/go-runewidth"
+
 	"github.com/sinclairtarget/git-who/internal/cache"
 	"github.com/sinclairtarget/git-who/internal/concurrent"
 	"github.com/sinclairtarget/git-who/internal/format"
@@ -352,7 +354,7 @@ func printTree(lines []treeOutputLine, showEmail bool) {
 	longest := 0
 	for _, line := range lines {
 		indentLen := utf8.RuneCountInString(line.indent)
-		pathLen := utf8.RuneCountInString(line.path)
+		pathLen := runewidth.StringWidth(line.path)
 		if indentLen+pathLen > longest {
 			longest = indentLen + pathLen
 		}
@@ -385,7 +387,7 @@ func printTree(lines []treeOutputLine, showEmail bool) {
 		}
 
 		indentLen := utf8.RuneCountInString(line.indent)
-		pathLen := utf8.RuneCountInString(line.path)
+		pathLen := runewidth.StringWidth(line.path)
 		separator := strings.Repeat(".", tallyStart-indentLen-pathLen)
 
 		if line.dimTally {
-- 
2.43.0


From deffe5cc0f4731fef3e5987fa4fcf82e0e12002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:59 +0000
Subject: [PATCH 43/60] fix: two repositories (or mailmaps) with the same
 32-bit hash shared a cache

Repositories whose paths collide removed each other's cache data, and a
mailmap colliding with an earlier one kept the earlier one's names.
---
 internal/cache/backends/gob.go | 4 ++--
 internal/cache/cache.go        | 2 +-
 internal/git/config/files.go   | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 3209b35..c5720f3 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -299,11 +299,11 @@ func (b *GobBackend) Clear() error {
 func GobCacheDir(prefix string, gitRootPath string) string {
 	// Filename includes hash of path to repo so we don't collide with other
 	// git-who caches for other repos.
-	h := fnv.New32()
+	h := fnv.New128a()
 	h.Write([]byte(gitRootPath))
 
 	base := filepath.Base(gitRootPath)
-	dirname := fmt.Sprintf("%s-%x", base, h.Sum32())
+	dirname := fmt.Sprintf("%s-%x", base, h.Sum(nil))
 	repoDir := filepath.Join(prefix, dirname)
 	return repoDir
 }
diff --git a/internal/cache/cache.go b/internal/cache/cache.go
index 197bfe0..9af7a68 100644
--- a/internal/cache/cache.go
+++ b/internal/cache/cache.go
@@ -177,7 +177,7 @@ func cacheStorageDir(name string) (_ string, err error) {
 
 // Hash of all the state in the repo that affects the validity of our cache
 func repoStateHash(sf config.SupplementalFiles) (string, error) {
-	h := fnv.New32()
+	h := fnv.New128a()
 	err := sf.MailmapHash(h)
 	if err != nil {
 		return "", err
diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index f131943..f3e5dec 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -30,7 +30,7 @@ func (sf SupplementalFiles) HasIgnoreRevs() bool {
 	return len(sf.IgnoreRevsPath) > 0
 }
 
-func (sf SupplementalFiles) MailmapHash(h hash.Hash32) error {
+func (sf SupplementalFiles) MailmapHash(h hash.Hash) error {
 	if len(sf.RepoMailmapPath) > 0 {
 		f, err := os.Open(sf.RepoMailmapPath)
 		if !errors.Is(err, fs.ErrNotExist) {
@@ -66,7 +66,7 @@ func (sf SupplementalFiles) MailmapHash(h hash.Hash32) error {
 
 // The diff of a commit at the boundary of a shallow clone changes when more
 // history is fetched.
-func (sf SupplementalFiles) ShallowHash(h hash.Hash32) error {
+func (sf SupplementalFiles) ShallowHash(h hash.Hash) error {
 	if len(sf.ShallowPath) == 0 {
 		return nil
 	}
-- 
2.43.0


From 7bf8e5aebe1112b5c8d7086928793f1c622cd293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 44/60] fix: relative XDG_CACHE_HOME made git-who write into
 the working directory

---
 internal/cache/cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/cache/cache.go b/internal/cache/cache.go
index 9af7a68..02aa3db 100644
--- a/internal/cache/cache.go
+++ b/internal/cache/cache.go
@@ -162,7 +162,8 @@ func cacheStorageDir(name string) (_ string, err error) {
 	}
 
 	cacheHome := filepath.Join(usr.HomeDir, ".cache")
-	if len(os.Getenv("XDG_CACHE_HOME")) > 0 {
+	// A relative path is to be ignored, says the XDG specification
+	if filepath.IsAbs(os.Getenv("XDG_CACHE_HOME")) {
 		cacheHome = os.Getenv("XDG_CACHE_HOME")
 	}
 
-- 
2.43.0


From d43c516f44b8d6d8bc0a2e310ceba6094247f2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:34 +0000
Subject: [PATCH 45/60] fix: diff.relative=true dropped everything outside the
 working directory

---
 internal/git/cmd/cmd.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 0fa2ca4..94bb898 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -15,6 +15,10 @@ const (
 	mailmapLogFormat = "--pretty=format:%H%x00%h%x00%p%x00%aN%x00%aE%x00%ad%x00"
 )
 
+// We always want all file diffs with paths relative to the root of the
+// repository, wherever we are. (The --no-relative option needs Git 2.28.)
+const noRelativeConfig = "diff.relative=false"
+
 // Runs git log
 func RunLog(
 	ctx context.Context,
@@ -28,6 +32,8 @@ func RunLog(
 
 	if useMailmap {
 		baseArgs = []string{
+			"-c",
+			noRelativeConfig,
 			"log",
 			mailmapLogFormat,
 			"-z",
@@ -38,6 +44,8 @@ func RunLog(
 		}
 	} else {
 		baseArgs = []string{
+			"-c",
+			noRelativeConfig,
 			"log",
 			logFormat,
 			"-z",
@@ -85,6 +93,8 @@ func RunStdinLog(
 
 	if useMailmap {
 		baseArgs = []string{
+			"-c",
+			noRelativeConfig,
 			"log",
 			mailmapLogFormat,
 			"-z",
@@ -96,6 +106,8 @@ func RunStdinLog(
 		}
 	} else {
 		baseArgs = []string{
+			"-c",
+			noRelativeConfig,
 			"log",
 			logFormat,
 			"-z",
-- 
2.43.0


From b74defad79e70d4c98a92077986f24f400740e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 46/60] fix: tree left out paths more than 100 levels deep

---
 internal/subcommands/tree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index bf4a9c8..eff47e6 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"maps"
+	"math"
 	"os"
 	"path/filepath"
 	"runtime"
@@ -23,7 +24,7 @@ import (
 	"github.com/sinclairtarget/git-who/internal/tally"
 )
 
-const defaultMaxDepth = 100
+const defaultMaxDepth = math.MaxInt
 
 type printTreeOpts struct {
 	mode       tally.TallyMode
-- 
2.43.0


From 045459d774bc772b5a6126783cbadfaa2cc14860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:07 +0000
Subject: [PATCH 47/60] fix: progress left on the screen when reading commits
 failed

---
 internal/concurrent/concurrent.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 9b73568..6892247 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -294,6 +294,12 @@ func tallyFanOutFanIn[T combinable[T]](
 
 	if showProgress {
 		fmt.Printf("  0%% (0/%s commits)", format.Number(len(remainingRevs)))
+
+		defer func() {
+			if _err != nil {
+				fmt.Printf("%s\r", pretty.EraseLine)
+			}
+		}()
 	}
 
 loop:
-- 
2.43.0


From 30e2df2a4be74eb560db45271bbdd49f4bd4d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 48/60] fix: file with the name reserved for commits without a
 diff was left out of the tree

---
 internal/tally/tally.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 865f4c6..b448501 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -23,7 +23,8 @@ const (
 	FirstModifiedMode
 )
 
-const NoDiffPathname = ".git-who-no-diff-commits"
+// A path can't contain NUL, so this is never the name of an actual file
+const NoDiffPathname = "\x00git-who-no-diff-commits"
 
 type TallyOpts struct {
 	Mode        TallyMode
@@ -314,7 +315,7 @@ func TallyCommitsByPath(
 			// first parent. Have also seen this happen with an SVN-imported
 			// commit.
 			//
-			// We count these commits under a special pathname we hope never
+			// We count these commits under a special pathname that never
 			// collides.
 			tally, ok := pathTallies[NoDiffPathname]
 			if !ok {
-- 
2.43.0


From 86277a30ab40aace1f4cb62288707e8634709706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:11 +0000
Subject: [PATCH 49/60] fix: paths with line breaks in their names were split
 or cut short

A path argument containing a newline was taken for several paths, and a
carriage return at its end was lost.
---
 internal/git/args.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/internal/git/args.go b/internal/git/args.go
index 6f58b1b..ca46c91 100644
--- a/internal/git/args.go
+++ b/internal/git/args.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"path/filepath"
+	"strings"
 
 	"github.com/sinclairtarget/git-who/internal/git/cmd"
 	rev "github.com/sinclairtarget/git-who/internal/git/revision"
@@ -27,17 +28,13 @@ func ParseArgs(args []string) (revs []string, pathspecs []string, err error) {
 	pathspecs = []string{}
 
 	pastRevs := false
+	pathLines := []string{}
 	for line := range lines {
 		if !pastRevs && rev.IsFullHash(line) {
 			revs = append(revs, line)
 		} else {
 			pastRevs = true
-
-			if line != "--" {
-				// If user used backslashes as path separator on windows,
-				// we want to turn into forward slashes
-				pathspecs = append(pathspecs, filepath.ToSlash(line))
-			}
+			pathLines = append(pathLines, line)
 		}
 	}
 
@@ -52,6 +49,16 @@ func ParseArgs(args []string) (revs []string, pathspecs []string, err error) {
 		return nil, nil, err
 	}
 
+	for i, path := range originalPaths(args, pathLines) {
+		if i == 0 && path == "--" {
+			continue
+		}
+
+		// If user used backslashes as path separator on windows,
+		// we want to turn into forward slashes
+		pathspecs = append(pathspecs, filepath.ToSlash(path))
+	}
+
 	if len(revs) == 0 {
 		// Default rev
 		revs = append(revs, "HEAD")
@@ -59,3 +66,20 @@ func ParseArgs(args []string) (revs []string, pathspecs []string, err error) {
 
 	return revs, pathspecs, nil
 }
+
+// Returns the trailing args that git rev-parse printed as the given lines.
+//
+// These differ from the lines only if there are line breaks in a path.
+func originalPaths(args []string, lines []string) []string {
+	for i := range args {
+		output := strings.Join(args[i:], "\n") + "\n"
+
+		// How we read lines from a subprocess
+		output = strings.ReplaceAll(output, "\r\n", "\n")
+		if output == strings.Join(lines, "\n")+"\n" {
+			return args[i:]
+		}
+	}
+
+	return lines
+}
-- 
2.43.0


From 958bb3eb1c714ef9c25cdc3d1abd8a7d2c7b7e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:46 +0000
Subject: [PATCH 50/60] fix: log.follow made answers depend on the number of
 CPUs

With log.follow set and a single path given, git log follows renames, but only
with one CPU did we count the diffs of the file's former path.
---
 internal/git/cmd/cmd.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 94bb898..2f4ed55 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -19,6 +19,11 @@ const (
 // repository, wherever we are. (The --no-relative option needs Git 2.28.)
 const noRelativeConfig = "diff.relative=false"
 
+// When given a single path, we want the commits for that path only, as we get
+// for several paths. We can't tell which of the diffs of the other commits are
+// those of the file before it was renamed.
+const noFollowConfig = "log.follow=false"
+
 // Runs git log
 func RunLog(
 	ctx context.Context,
@@ -34,6 +39,8 @@ func RunLog(
 		baseArgs = []string{
 			"-c",
 			noRelativeConfig,
+			"-c",
+			noFollowConfig,
 			"log",
 			mailmapLogFormat,
 			"-z",
@@ -46,6 +53,8 @@ func RunLog(
 		baseArgs = []string{
 			"-c",
 			noRelativeConfig,
+			"-c",
+			noFollowConfig,
 			"log",
 			logFormat,
 			"-z",
@@ -208,6 +217,8 @@ func RunRevList(
 	}
 
 	baseArgs := []string{
+		"-c",
+		noFollowConfig,
 		"log",
 		"--pretty=format:%H",
 		"--reverse",
-- 
2.43.0


From e09ba2ffc73a1917839592fb220f73c6b88c77e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:49 +0000
Subject: [PATCH 51/60] fix: files and lines of root commits weren't counted
 with log.showRoot=false

---
 internal/git/cmd/cmd.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 2f4ed55..ca3cb19 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -19,6 +19,9 @@ const (
 // repository, wherever we are. (The --no-relative option needs Git 2.28.)
 const noRelativeConfig = "diff.relative=false"
 
+// We always want the file diffs of root commits.
+const showRootConfig = "log.showRoot=true"
+
 // When given a single path, we want the commits for that path only, as we get
 // for several paths. We can't tell which of the diffs of the other commits are
 // those of the file before it was renamed.
@@ -40,6 +43,8 @@ func RunLog(
 			"-c",
 			noRelativeConfig,
 			"-c",
+			showRootConfig,
+			"-c",
 			noFollowConfig,
 			"log",
 			mailmapLogFormat,
@@ -54,6 +59,8 @@ func RunLog(
 			"-c",
 			noRelativeConfig,
 			"-c",
+			showRootConfig,
+			"-c",
 			noFollowConfig,
 			"log",
 			logFormat,
@@ -104,6 +111,8 @@ func RunStdinLog(
 		baseArgs = []string{
 			"-c",
 			noRelativeConfig,
+			"-c",
+			showRootConfig,
 			"log",
 			mailmapLogFormat,
 			"-z",
@@ -117,6 +126,8 @@ func RunStdinLog(
 		baseArgs = []string{
 			"-c",
 			noRelativeConfig,
+			"-c",
+			showRootConfig,
 			"log",
 			logFormat,
 			"-z",
-- 
2.43.0


From 6830a4459374a9ea552a69e50fb3ab1c40eb6713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 52/60] fix: changes to the object mailmap.blob names went
 unnoticed by the cache

---
 internal/git/config/config.go | 43 +++++++++++++++++++++++++++++++++++
 internal/git/config/files.go  |  7 ++++++
 2 files changed, 50 insertions(+)

diff --git a/internal/git/config/config.go b/internal/git/config/config.go
index aedc79f..d6f352b 100644
--- a/internal/git/config/config.go
+++ b/internal/git/config/config.go
@@ -51,6 +51,43 @@ func globalMailmapPath() (string, error) {
 	return p, nil
 }
 
+// Looks up the object that the mailmap.blob setting in the git config names. The
+// hash is empty if there isn't any.
+func mailmapBlobHash() (string, error) {
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	name, err := optionalText(cmd.RunConfigGet(ctx, []string{"mailmap.blob"}))
+	if err != nil || name == "" {
+		return "", err
+	}
+
+	return optionalText(
+		cmd.RunRevParse(ctx, []string{"--verify", "--quiet", name}),
+	)
+}
+
+// Returns the output of a subprocess that exits with 1 if what we asked for
+// doesn't exist. The output is empty then.
+func optionalText(subprocess *cmd.Subprocess, err error) (string, error) {
+	if err != nil {
+		return "", err
+	}
+
+	text, err := subprocess.StdoutText()
+	if err != nil {
+		return "", err
+	}
+
+	err = subprocess.Wait()
+	var subprocessErr *cmd.SubprocessErr
+	if errors.As(err, &subprocessErr) && subprocessErr.ExitCode == 1 {
+		return "", nil
+	}
+
+	return text, err
+}
+
 // Path to file listing the commits at which a shallow clone's history was cut
 // off. Doesn't exist if the repository isn't shallow.
 func shallowPath() (string, error) {
@@ -128,6 +165,12 @@ func DetectSupplementalFiles(
 		}
 	}
 
+	// Git config mailmap in the object database
+	files.MailmapBlobHash, err = mailmapBlobHash()
+	if err != nil {
+		return files, err
+	}
+
 	// Repo-local git blame ignore revs file
 	ignoreRevsPath := ignoreRevsPath(gitRootPath)
 	_, err = os.Stat(ignoreRevsPath)
diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index f3e5dec..87f011f 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -18,6 +18,7 @@ import (
 type SupplementalFiles struct {
 	RepoMailmapPath   string
 	GlobalMailmapPath string
+	MailmapBlobHash   string
 	IgnoreRevsPath    string
 	ShallowPath       string
 }
@@ -61,6 +62,12 @@ func (sf SupplementalFiles) MailmapHash(h hash.Hash) error {
 		}
 	}
 
+	// Git reads this too when there is one of the above
+	_, err := io.WriteString(h, sf.MailmapBlobHash)
+	if err != nil {
+		return fmt.Errorf("error hashing mailmap blob: %v", err)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 1ce56abcb2b900e39e5a2f34166803cf238d02ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:47 +0000
Subject: [PATCH 53/60] fix: columns weren't aligned in East Asian locales

Accented letters and the ellipsis were taken to be two columns wide.
---
 internal/format/format.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/format/format.go b/internal/format/format.go
index 1510932..7bacd4b 100644
--- a/internal/format/format.go
+++ b/internal/format/format.go
@@ -11,6 +11,12 @@ import (
 	runewidth "github.com/mattn/go-runewidth"
 )
 
+func init() {
+	// The layout of our output relies on characters of ambiguous width, like the
+	// lines around tables, being narrow. Don't let this depend on the locale.
+	runewidth.DefaultCondition.EastAsianWidth = false
+}
+
 // Print string with max length, truncating with ellipsis.
 func Abbrev(s string, max int) string {
 	tail := "…"
-- 
2.43.0


From f9b2ebe3c8e16f2a27af1ca71fa0de807cd3fb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:19 +0000
Subject: [PATCH 54/60] fix: moving mappings between mailmap files could go
 unnoticed by the cache

---
 internal/git/config/files.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index 87f011f..8d04113 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -47,6 +47,13 @@ func (sf SupplementalFiles) MailmapHash(h hash.Hash) error {
 		}
 	}
 
+	// Git reads the mailmap blob, if any, between the two files. What is mapped
+	// to what depends on the order, so keep what is in each of them apart.
+	_, err := fmt.Fprintf(h, "\x00%s\x00", sf.MailmapBlobHash)
+	if err != nil {
+		return fmt.Errorf("error hashing mailmap blob: %v", err)
+	}
+
 	if len(sf.GlobalMailmapPath) > 0 {
 		f, err := os.Open(sf.GlobalMailmapPath)
 		if !errors.Is(err, fs.ErrNotExist) {
@@ -62,12 +69,6 @@ func (sf SupplementalFiles) MailmapHash(h hash.Hash) error {
 		}
 	}
 
-	// Git reads this too when there is one of the above
-	_, err := io.WriteString(h, sf.MailmapBlobHash)
-	if err != nil {
-		return fmt.Errorf("error hashing mailmap blob: %v", err)
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 6759afb92445876d12ec290047097cecb33e4666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 55/60] fix: no author shown for a lone file whose author has
 an empty name

---
 internal/subcommands/tree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index eff47e6..3ccd9ae 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -269,7 +269,8 @@ func toLines(
 	line.dimTally = node.IsDir()
 	line.dimPath = !node.InWorkTree
 
-	newAuthor := opts.key(node.Tally) != lastAuthor
+	isTop := len(isFinalChild) == 0 // No line above this one, so no last author
+	newAuthor := isTop || opts.key(node.Tally) != lastAuthor
 	line.showTally = opts.showHidden || newAuthor || node.IsDir()
 
 	lines = append(lines, line)
-- 
2.43.0


From 0ceefd780285c9478966c7d839afff8cb47e7cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 56/60] fix: tree prints nothing when run from outside the
 working tree

---
 internal/tally/tree.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/tally/tree.go b/internal/tally/tree.go
index 5c20afa..cfb30da 100644
--- a/internal/tally/tree.go
+++ b/internal/tally/tree.go
@@ -137,6 +137,15 @@ func TallyCommitsTreeFromPaths(
 		return root, err
 	}
 
+	if gitRootPath != "" {
+		rel, err := filepath.Rel(filepath.FromSlash(gitRootPath), wd)
+		if err != nil || !filepath.IsLocal(rel) {
+			// Not in the working tree (as when GIT_WORK_TREE is set), so we
+			// start from the top of it like Git does
+			wd = filepath.FromSlash(gitRootPath)
+		}
+	}
+
 	// Build tree
 	for key, pathTallies := range talliesByPath {
 		for p, tally := range pathTallies {
-- 
2.43.0


From 3f15c53a9f7a10fad6ef42a470ba50fa9b96b378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 57/60] fix: file named ^-- was taken for the separator of
 revisions and paths

---
 main.go | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/main.go b/main.go
index ad0ba62..5703ebc 100644
--- a/main.go
+++ b/main.go
@@ -104,11 +104,8 @@ loop:
 		}
 	}
 
-	args = escapeTerminator(args)
-
 	cmd.flagSet.Parse(args)
-	subargs := cmd.flagSet.Args()
-	subargs = unescapeTerminator(subargs)
+	subargs := keepTerminator(args, cmd.flagSet.Args())
 
 	if err := cmd.run(subargs); err != nil {
 		fmt.Fprintf(os.Stderr, "%s\n", err)
@@ -466,33 +463,16 @@ Exclude commits by these authors. Can be specified multiple times
 /*
 * The "flag" package treats `--` as a terminator and doesn't return it as an
 * arg. We aren't really using it as a terminator though; we want to use it like
-* Git does, to separate revisions from paths. So we escape it so the "flag"
-* package treats it like any other arg.
+* Git does, to separate revisions from paths. So we put it back in front of the
+* remaining args.
  */
-func escapeTerminator(args []string) []string {
-	newArgs := []string{}
-	for _, arg := range args {
-		if arg == "--" {
-			newArgs = append(newArgs, "^--") // Seems unlikely to be used?
-		} else {
-			newArgs = append(newArgs, arg)
-		}
-	}
-
-	return newArgs
-}
-
-func unescapeTerminator(args []string) []string {
-	newArgs := []string{}
-	for _, arg := range args {
-		if arg == "^--" {
-			newArgs = append(newArgs, "--")
-		} else {
-			newArgs = append(newArgs, arg)
-		}
+func keepTerminator(args []string, remaining []string) []string {
+	parsed := args[:len(args)-len(remaining)]
+	if len(parsed) > 0 && parsed[len(parsed)-1] == "--" {
+		return append([]string{"--"}, remaining...)
 	}
 
-	return newArgs
+	return remaining
 }
 
 func checkPathspecs(pathspecs []string) error {
-- 
2.43.0


From 1cd5fe9068628cc1e72c09e148cd111ff72f9494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:42 +0000
Subject: [PATCH 58/60] fix: commits whose abbreviated hashes were the same
 when cached were counted once

An abbreviated hash is unique only among the objects there are at the time. The
cache holds those of commits read at different times.
---
 internal/tally/tally.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index b448501..9773dfd 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -326,7 +326,7 @@ func TallyCommitsByPath(
 				tally.numTallied = 0 // Don't count toward files changed
 			}
 
-			tally.commitset[commit.ShortHash] = true
+			tally.commitset[commit.Hash] = true
 			tally = tally.withIdentity(commit)
 			tally.firstCommitTime = timeutils.Min(
 				tally.firstCommitTime,
@@ -348,7 +348,7 @@ func TallyCommitsByPath(
 					tally.commitset = map[string]bool{}
 				}
 
-				tally.commitset[commit.ShortHash] = true
+				tally.commitset[commit.Hash] = true
 				tally = tally.withIdentity(commit)
 				tally.firstCommitTime = timeutils.Min(
 					tally.firstCommitTime,
-- 
2.43.0


From 4e699e7a1a04c6f2106bb18d76772437ef131437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:06 +0000
Subject: [PATCH 59/60] fix: a commit with a malformed date made every command
 fail

---
 internal/git/parse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/git/parse.go b/internal/git/parse.go
index 5ae1977..9e3af8d 100644
--- a/internal/git/parse.go
+++ b/internal/git/parse.go
@@ -104,6 +104,11 @@ func ParseCommits(lines iter.Seq[string]) (iter.Seq[Commit], func() error) {
 			case linesThisCommit == 4:
 				commit.AuthorEmail = line
 			case linesThisCommit == 5:
+				if len(line) == 0 {
+					// Commit is malformed. Same date that git log would show
+					line = "0"
+				}
+
 				i, err := strconv.Atoi(line)
 				if err != nil {
 					iterErr = fmt.Errorf(
-- 
2.43.0


From 79153aec02d76a75c7cf4d1d2689e2fe3acf4b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:26 +0000
Subject: [PATCH 60/60] fix: a path pattern starting with * missed what is in
 the directories it matches further down

---
 internal/git/pathspec.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 2330315..5167fff 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -125,6 +125,17 @@ func PathspecMatch(pathspec string, p string) bool {
 		if didMatch {
 			return true
 		}
+
+		// What matches might be a directory here, too
+		subdirPathspec = path.Join(toplevelPathspec, "**")
+		didMatch, err = doublestar.Match(subdirPathspec, p)
+		if err != nil {
+			panic(fmt.Sprintf("error calling doublestar.Match(): %v", err))
+		}
+
+		if didMatch {
+			return true
+		}
 	}
 
 	return false
-- 
2.43.0

