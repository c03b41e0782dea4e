// Splits lists of commits into parts, tallies each part on its own, combines
// the partial tallies in some order, and compares with tallying everything at
// once and with totals computed here.
//
// tallyfold SEED TRIALS
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"iter"
	"math/rand"
	"os"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/sinclairtarget/git-who/internal/git"
	"github.com/sinclairtarget/git-who/internal/tally"
)

type report struct {
	Trials, Combines, Empty, Values, Nonempty int
	Sigs                                      map[string]bool
	Bad                                       []string
}

var rep = report{Sigs: map[string]bool{}}

func bad(f string, a ...any) {
	if len(rep.Bad) < 5 {
		rep.Bad = append(rep.Bad, fmt.Sprintf(f, a...))
	}
}

func sig(a ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, a...)
	rep.Sigs[strconv.FormatUint(h.Sum64(), 36)] = true
}

type who struct{ name, email string }

func gen(r *rand.Rand) []git.Commit {
	n := []int{0, 1, 2, 3, 8, 20, 60, 200}[r.Intn(8)]
	names := []string{"Ann", "Bob", "Cy", "Ann", "dé", ".dot", "Zed", ""}
	mails := []string{"a@x", "b@x", "c@x", "a2@x", "", "z"}
	var ids []who
	for range 1 + r.Intn(6) {
		w := who{names[r.Intn(len(names))], mails[r.Intn(len(mails))]}
		if w.name == "" && w.email == "" {
			w.name = "Anon"
		}
		ids = append(ids, w)
	}
	var paths []string
	for range 1 + r.Intn(12) {
		p := []string{"a", "b", "src", "x.go", ".git", "é", "l.txt"}[r.Intn(7)]
		for r.Intn(2) == 0 && strings.Count(p, "/") < 4 {
			p += "/" + []string{"a", "b", "q.go", "z"}[r.Intn(4)]
		}
		paths = append(paths, p)
	}
	slices.Sort(paths)
	paths = slices.Compact(paths)
	span := []int64{0, 3600, 3 * 86400, 50 * 86400, 59 * 86400, 61 * 86400, 300 * 86400, 4 * 365 * 86400, 9 * 365 * 86400}[r.Intn(9)]
	base := 1_300_000_000 + r.Int63n(200_000_000)
	ties := r.Float64()
	var last int64
	var cs []git.Commit
	for i := range n {
		id := ids[r.Intn(len(ids))]
		t := base
		if span > 0 {
			t += r.Int63n(span)
		}
		if i > 0 && r.Float64() < ties {
			t = last
		}
		last = t
		h := fmt.Sprintf("%08x%032x", r.Uint32(), i)
		c := git.Commit{Hash: h, ShortHash: fmt.Sprintf("%x%06x", i, r.Intn(1<<20)), IsMerge: r.Intn(5) == 0,
			AuthorName: id.name, AuthorEmail: id.email, Date: time.Unix(t, 0)}
		if !c.IsMerge && r.Intn(6) > 0 {
			seen := map[string]bool{}
			for range 1 + r.Intn(5) {
				p := paths[r.Intn(len(paths))]
				if !seen[p] {
					seen[p] = true
					c.FileDiffs = append(c.FileDiffs, git.FileDiff{Path: p, LinesAdded: r.Intn(4), LinesRemoved: r.Intn(3) * r.Intn(500)})
				}
			}
		}
		cs = append(cs, c)
	}
	return cs
}

// Consecutive or shuffled parts, some of them empty
func split(r *rand.Rand, cs []git.Commit) ([][]git.Commit, string) {
	all := slices.Clone(cs)
	how := "consecutive"
	if r.Intn(2) == 0 {
		how = "shuffled"
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	}
	k := 1 + r.Intn(7)
	if r.Intn(5) == 0 {
		k = len(all) + 1
	}
	cuts := []int{0, len(all)}
	for range k - 1 {
		cuts = append(cuts, r.Intn(len(all)+1))
	}
	sort.Ints(cuts)
	var parts [][]git.Commit
	for i := 1; i < len(cuts); i++ {
		parts = append(parts, all[cuts[i-1]:cuts[i]])
		if cuts[i-1] == cuts[i] {
			rep.Empty++
		}
	}
	return parts, how
}

type combinable[T any] interface{ Combine(T) T }

// Tallies parts at the same time and combines the results in a random order.
func fold[T combinable[T]](r *rand.Rand, parts [][]git.Commit, f func(iter.Seq[git.Commit]) (T, error)) T {
	res := make([]T, len(parts))
	errs := make([]error, len(parts))
	var wg sync.WaitGroup
	for i := range parts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res[i], errs[i] = f(slices.Values(parts[i]))
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			bad("tallying a part failed: %v", err)
		}
	}
	switch r.Intn(3) {
	case 0: // as they come in
		var acc T
		for _, i := range r.Perm(len(res)) {
			acc = acc.Combine(res[i])
			rep.Combines++
		}
		return acc
	case 1: // from the end
		acc := res[len(res)-1]
		for i := len(res) - 2; i >= 0; i-- {
			acc = res[i].Combine(acc)
			rep.Combines++
		}
		return acc
	}
	for len(res) > 1 { // any which way
		i, j := r.Intn(len(res)), r.Intn(len(res)-1)
		if j >= i {
			j++
		}
		x := res[i].Combine(res[j])
		rep.Combines++
		var next []T
		for k := range res {
			if k != i && k != j {
				next = append(next, res[k])
			}
		}
		res = append(next, x)
	}
	return res[0]
}

// What an author's totals should be
type row struct {
	commits          map[string]bool
	added, removed   int
	files            map[string]bool
	first, last      time.Time
	name, email      string
	identityDisputed bool
}

func reference(cs []git.Commit, opts tally.TallyOpts) map[string]*row {
	rows := map[string]*row{}
	for _, c := range cs {
		if c.IsMerge && !opts.CountMerges {
			continue
		}
		k := opts.Key(c)
		x := rows[k]
		if x == nil {
			x = &row{commits: map[string]bool{}, files: map[string]bool{}, first: c.Date, last: c.Date}
			rows[k] = x
		}
		x.commits[c.Hash] = true
		if c.Date.Before(x.first) {
			x.first = c.Date
		}
		if c.Date.After(x.last) {
			x.last = c.Date
		}
		for _, d := range c.FileDiffs {
			if !c.IsMerge {
				x.added += d.LinesAdded
				x.removed += d.LinesRemoved
				x.files[d.Path] = true
			}
		}
	}
	return rows
}

func show(f tally.FinalTally) string {
	return fmt.Sprintf("%q <%s> commits %d +%d -%d files %d %d..%d", f.AuthorName, f.AuthorEmail, f.Commits, f.LinesAdded, f.LinesRemoved, f.FileCount,
		f.FirstCommitTime.Unix(), f.LastCommitTime.Unix())
}

func finals(m map[string]tally.Tally) map[string]tally.FinalTally {
	res := map[string]tally.FinalTally{}
	for k, t := range m {
		res[k] = t.Final()
	}
	return res
}

func same(a, b tally.FinalTally) bool { return show(a) == show(b) }

func compare(what string, whole, parts map[string]tally.FinalTally, ref map[string]*row, diffs bool) {
	for k := range whole {
		if _, ok := parts[k]; !ok {
			bad("%s: author %q is missing from the combined parts", what, k)
		}
	}
	for k, p := range parts {
		w, ok := whole[k]
		if !ok {
			bad("%s: author %q only in the combined parts", what, k)
			continue
		}
		rep.Values++
		if !same(w, p) {
			bad("%s: author %q: combined %s, at once %s", what, k, show(p), show(w))
		}
		x := ref[k]
		if x == nil {
			bad("%s: author %q has nothing to be counted", what, k)
			continue
		}
		okr := p.Commits == len(x.commits) && p.FirstCommitTime.Equal(x.first) && p.LastCommitTime.Equal(x.last)
		if diffs {
			okr = okr && p.LinesAdded == x.added && p.LinesRemoved == x.removed && p.FileCount == len(x.files)
		}
		if !okr {
			bad("%s: author %q: %s, want commits %d +%d -%d files %d %d..%d", what, k, show(p), len(x.commits), x.added, x.removed, len(x.files), x.first.Unix(), x.last.Unix())
		}
	}
	for k := range ref {
		if _, ok := parts[k]; !ok {
			bad("%s: author %q missing", what, k)
		}
	}
}

func tree(what string, a, b *tally.TreeNode, at string) {
	rep.Values++
	if !same(a.Tally, b.Tally) || a.InWorkTree != b.InWorkTree || len(a.Children) != len(b.Children) {
		bad("%s: node %q: combined %s %v %d, at once %s %v %d", what, at, show(b.Tally), b.InWorkTree, len(b.Children), show(a.Tally), a.InWorkTree, len(a.Children))
		return
	}
	for p, x := range a.Children {
		y, ok := b.Children[p]
		if !ok {
			bad("%s: node %q has no child %q", what, at, p)
			continue
		}
		tree(what, x, y, at+"/"+p)
	}
}

// Directory totals worked out here: the winner's numbers at each node
func treeRef(what string, cs []git.Commit, opts tally.TallyOpts, root *tally.TreeNode) {
	nodes := map[string][]git.Commit{}
	for _, c := range cs {
		by := map[string][]git.FileDiff{}
		for _, d := range c.FileDiffs {
			comps := strings.Split(d.Path, "/")
			for i := 0; i <= len(comps); i++ {
				k := strings.Join(comps[:i], "/")
				by[k] = append(by[k], d)
			}
		}
		if len(c.FileDiffs) == 0 {
			by[""] = nil
		}
		for k, ds := range by {
			x := c
			x.FileDiffs = ds
			nodes[k] = append(nodes[k], x)
		}
	}
	var walk func(n *tally.TreeNode, at string)
	walk = func(n *tally.TreeNode, at string) {
		ref := reference(nodes[at], opts)
		if at == tally.NoDiffPathname {
			return
		}
		metric := func(x *row) int64 {
			switch opts.Mode {
			case tally.CommitMode:
				return int64(len(x.commits))
			case tally.LinesMode:
				return int64(x.added + x.removed)
			case tally.FilesMode:
				return int64(len(x.files))
			case tally.LastModifiedMode:
				return x.last.Unix()
			}
			return -x.first.Unix()
		}
		var best int64 = -1 << 62
		for _, x := range ref {
			best = max(best, metric(x))
		}
		if len(ref) == 0 || n.Tally.SortKey(opts.Mode) != best {
			bad("%s: node %q goes to %s, want a metric of %d", what, at, show(n.Tally), best)
		}
		for p, x := range n.Children {
			walk(x, strings.TrimPrefix(at+"/"+p, "/"))
		}
	}
	walk(root, "")
}

type day struct {
	name                   string
	commits, added, removed int
	files                  map[string]bool
}

func series(what string, s tally.TimeSeries, mode tally.TallyMode) map[string]string {
	res := map[string]string{}
	var prev time.Time
	for i, b := range s {
		if i > 0 && !b.Time.After(prev) {
			bad("%s: bucket %q out of order", what, b.Name)
		}
		prev = b.Time
		b = b.Rank(mode)
		t := b.TotalTally
		if t.Commits == 0 {
			continue
		}
		res[b.Name] = fmt.Sprintf("%d: %q %d +%d -%d %d of %d +%d -%d %d", b.Time.Unix(), b.Tally.AuthorName+"<"+b.Tally.AuthorEmail, b.Tally.Commits, b.Tally.LinesAdded,
			b.Tally.LinesRemoved, b.Tally.FileCount, t.Commits, t.LinesAdded, t.LinesRemoved, t.FileCount)
	}
	return res
}

func eqSeries(what string, a, b map[string]string) {
	for k, v := range a {
		rep.Values++
		if b[k] != v {
			bad("%s: %s: combined %q, at once %q", what, k, b[k], v)
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			bad("%s: %s: combined %q, at once nothing", what, k, v)
		}
	}
}

func main() {
	seed, _ := strconv.ParseInt(os.Args[1], 10, 64)
	n, _ := strconv.Atoi(os.Args[2])
	for trial := range n {
		if len(rep.Bad) >= 5 {
			break
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					bad("trial %d: panic: %v", trial, e)
				}
			}()
			one(rand.New(rand.NewSource(seed*1_000_003+int64(trial))), trial)
		}()
		rep.Trials++
	}
	json.NewEncoder(os.Stdout).Encode(rep)
}

func one(r *rand.Rand, trial int) {
	cs := gen(r)
	byEmail := r.Intn(2) == 0
	opts := tally.TallyOpts{CountMerges: r.Intn(2) == 0, Key: func(c git.Commit) string {
		if byEmail {
			return c.AuthorEmail
		}
		return c.AuthorName
	}}
	parts, how := split(r, cs)
	ctx := fmt.Sprintf("trial %d (%d commits in %d parts, %s)", trial, len(cs), len(parts), how)
	if len(cs) > 0 {
		rep.Nonempty++
	}

	// per author and path
	opts.Mode = []tally.TallyMode{tally.LinesMode, tally.FilesMode}[r.Intn(2)]
	bypath := func(s iter.Seq[git.Commit]) (tally.TalliesByPath, error) { return tally.TallyCommitsByPath(s, opts) }
	whole, err := tally.TallyCommits(slices.Values(cs), opts)
	if err != nil {
		bad("%s: %v", ctx, err)
	}
	comb := fold(r, parts, bypath)
	ref := reference(cs, opts)
	got := comb.Reduce()
	compare(ctx+" by path", finals(whole), finals(got), ref, true)
	a, b := tally.Rank(whole, opts.Mode), tally.Rank(got, opts.Mode)
	for i := range a {
		if i < len(b) && !same(a[i], b[i]) {
			bad("%s: rank %d is %s combined, %s at once", ctx, i, show(b[i]), show(a[i]))
		}
	}
	sig("path", len(cs), len(parts), how, len(ref), opts.Mode, opts.CountMerges, byEmail)

	// per path alone: path by path
	once, _ := bypath(slices.Values(cs))
	again := fold(r, parts, bypath)
	for k, m := range once {
		for p, t := range m {
			rep.Values++
			u, ok := again[k][p]
			if !ok || !same(t.Final(), u.Final()) {
				bad("%s: author %q path %q: combined %s, at once %s", ctx, k, p, show(u.Final()), show(t.Final()))
			}
		}
	}
	for k, m := range again {
		for p := range m {
			if _, ok := once[k][p]; !ok {
				bad("%s: author %q path %q only in the combined parts", ctx, k, p)
			}
		}
	}

	// per author without diffs
	opts.Mode = []tally.TallyMode{tally.CommitMode, tally.FirstModifiedMode, tally.LastModifiedMode}[r.Intn(3)]
	whole, _ = tally.TallyCommits(slices.Values(cs), opts)
	sum := map[string]tally.Tally{}
	for _, i := range r.Perm(len(parts)) {
		m, err := tally.TallyCommits(slices.Values(parts[i]), opts)
		if err != nil {
			bad("%s: %v", ctx, err)
		}
		for k, t := range m {
			if old, ok := sum[k]; !ok {
				sum[k] = t
			} else if r.Intn(2) == 0 {
				sum[k] = old.Combine(t)
			} else {
				sum[k] = t.Combine(old)
			}
		}
	}
	compare(ctx+" without diffs", finals(whole), finals(sum), reference(cs, opts), false)
	sig("flat", len(cs), len(parts), how, opts.Mode, opts.CountMerges, byEmail)

	// per directory
	opts.Mode = tally.TallyMode(r.Intn(5))
	wt := map[string]bool{}
	for _, c := range cs {
		for _, d := range c.FileDiffs {
			if r.Intn(3) > 0 {
				wt[d.Path] = true
			}
		}
	}
	t1, err1 := tally.TallyCommitsTree(slices.Values(cs), opts, wt, "")
	t2, err2 := tally.TallyCommitsTreeFromPaths(fold(r, parts, bypath), wt, "")
	if (err1 == nil) != (err2 == nil) {
		bad("%s: tree: at once %v, combined %v", ctx, err1, err2)
	} else if err1 == nil {
		t1, t2 = t1.Rank(opts.Mode), t2.Rank(opts.Mode)
		tree(ctx+" tree", t1, t2, "")
		treeRef(ctx+" tree", cs, opts, t2)
		sig("tree", len(cs), len(parts), how, opts.Mode, opts.CountMerges, byEmail, len(t1.Children))
	}

	// per day, month, year
	opts.Mode = []tally.TallyMode{tally.CommitMode, tally.LinesMode, tally.FilesMode}[r.Intn(3)]
	bydate := func(s iter.Seq[git.Commit]) (tally.TimeSeries, error) {
		b, err := tally.TallyCommitsByDate(s, opts)
		return b, err
	}
	if len(cs) == 0 {
		return
	}
	days1, err := bydate(slices.Values(cs))
	if err != nil {
		bad("%s: %v", ctx, err)
	}
	eqSeries(ctx+" by day", series(ctx, days1, opts.Mode), series(ctx, fold(r, parts, bydate), opts.Mode))
	days := map[string]*day{}
	for _, c := range cs {
		if c.IsMerge && !opts.CountMerges {
			continue
		}
		k := c.Date.Local().Format("2006-01-02")
		d := days[k]
		if d == nil {
			d = &day{name: k, files: map[string]bool{}}
			days[k] = d
		}
		d.commits++
		for _, f := range c.FileDiffs {
			d.added += f.LinesAdded
			d.removed += f.LinesRemoved
			d.files[f.Path] = true
		}
	}
	for _, b := range fold(r, parts, bydate) {
		t := b.Rank(opts.Mode).TotalTally
		d := days[b.Name]
		if d == nil {
			if t.Commits != 0 {
				bad("%s: %s has %s", ctx, b.Name, show(t))
			}
			continue
		}
		if t.Commits != d.commits || t.LinesAdded != d.added || t.LinesRemoved != d.removed || t.FileCount != len(d.files) {
			bad("%s: %s totals %s, want commits %d +%d -%d files %d", ctx, b.Name, show(t), d.commits, d.added, d.removed, len(d.files))
		}
		delete(days, b.Name)
	}
	for k := range days {
		bad("%s: no bucket for %s", ctx, k)
	}
	first, last := cs[0].Date, cs[0].Date
	for _, c := range cs {
		if c.Date.Before(first) {
			first = c.Date
		}
		if c.Date.After(last) {
			last = c.Date
		}
	}
	var end time.Time
	if r.Intn(2) == 0 {
		end = last.Add(time.Duration(r.Int63n(int64(400 * 24 * time.Hour))))
	}
	l1, err := tally.TallyCommitsTimeline(slices.Values(cs), opts, end)
	if err != nil {
		bad("%s: %v", ctx, err)
	}
	c2 := fold(r, parts, bydate)
	if end.IsZero() {
		end = c2[len(c2)-1].Time
	}
	l2 := tally.Rebucket(c2, tally.CalcResolution(c2[0].Time, end), end)
	if len(l1) != len(l2) {
		bad("%s: timeline has %d periods combined, %d at once", ctx, len(l2), len(l1))
	}
	for i := range l1 {
		if i < len(l2) && (l1[i].Name != l2[i].Name || !l1[i].Time.Equal(l2[i].Time)) {
			bad("%s: period %d is %s combined, %s at once", ctx, i, l2[i].Name, l1[i].Name)
		}
	}
	eqSeries(ctx+" timeline", series(ctx, l1, opts.Mode), series(ctx, l2, opts.Mode))
	sig("time", len(cs), len(parts), how, opts.Mode, opts.CountMerges, byEmail, len(l1))
}
