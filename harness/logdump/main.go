// Prints, without loss, every commit git-who reads from git log.
//
// logdump log|log-nodiffs|stdin ROOT [REV...]
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"iter"
	"os"

	"github.com/sinclairtarget/git-who/internal/git"
	"github.com/sinclairtarget/git-who/internal/git/cmd"
	"github.com/sinclairtarget/git-who/internal/git/config"
)

type diff struct {
	Path           []byte
	Added, Removed int
}

type commit struct {
	Hash, Short, Name, Email []byte
	Merge                    bool
	Date                     int64
	Nanos                    int
	Diffs                    []diff
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(3)
	}
}

func main() {
	ctx := context.Background()
	mode, root, revs := os.Args[1], os.Args[2], os.Args[3:]
	files, err := config.DetectSupplementalFiles(root)
	die(err)

	var commits iter.Seq[git.Commit]
	var finish func() error
	if mode == "stdin" {
		all, err := git.RevList(ctx, revs, nil, cmd.LogFilters{}, files.HasMailmap())
		die(err)
		sub, err := cmd.RunStdinLog(ctx, nil, true, files.HasMailmap())
		die(err)
		w, closer := sub.StdinWriter()
		go func() {
			for _, r := range all {
				fmt.Fprintln(w, r)
			}
			w.Flush()
			closer()
		}()
		lines, finishLines := sub.StdoutNullDelimitedLines()
		cs, finishCommits := git.ParseCommits(lines)
		commits = cs
		finish = func() error {
			if err := finishCommits(); err != nil {
				return err
			}
			if err := finishLines(); err != nil {
				return err
			}
			return sub.Wait()
		}
	} else {
		commits, finish = git.CommitsWithOpts(ctx, revs, nil, cmd.LogFilters{}, mode == "log", files)
	}

	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	for c := range commits {
		o := commit{Hash: []byte(c.Hash), Short: []byte(c.ShortHash), Name: []byte(c.AuthorName), Email: []byte(c.AuthorEmail),
			Merge: c.IsMerge, Date: c.Date.Unix(), Nanos: c.Date.Nanosecond()}
		for _, d := range c.FileDiffs {
			o.Diffs = append(o.Diffs, diff{[]byte(d.Path), d.LinesAdded, d.LinesRemoved})
		}
		enc.Encode(o)
	}
	out.Flush()
	die(finish())
}
