// Drives cache stores through random sequences of operations, with damage,
// and compares everything that comes out with what was put in.
//
// cachestore DIR SEED TRIALS
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/sinclairtarget/git-who/internal/cache"
	"github.com/sinclairtarget/git-who/internal/cache/backends"
	"github.com/sinclairtarget/git-who/internal/git"
)

type report struct {
	Trials, Gets, Returned, Stored, Reopened, Damaged, Detected, Harmless, Frames int
	Sigs                                                                          map[string]bool
	Bad                                                                           []string
}

var rep = report{Sigs: map[string]bool{}}

func bad(f string, a ...any) {
	if len(rep.Bad) < 5 {
		rep.Bad = append(rep.Bad, fmt.Sprintf(f, a...))
	}
}

func sig(a ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, a...)
	rep.Sigs[strconv.FormatUint(h.Sum64(), 36)] = true
}

func text(r *rand.Rand, utf8 bool) string {
	pool := []string{"", "a", "Ann Lee", "a@b", "é", "李", "\n", "\t", "\"", "\\", "x\x00y", " lead", "trail ", strings.Repeat("q", 3000), "{}", "[1,2]", "\u2028", "<&>"}
	if !utf8 {
		pool = append(pool, "\xff\xfe", "\xc3", "\x80abc", string([]byte{0, 1, 2, 255}))
	}
	s := pool[r.Intn(len(pool))]
	if r.Intn(3) == 0 {
		s += pool[r.Intn(len(pool))]
	}
	return s
}

func num(r *rand.Rand) int {
	return []int{0, 1, 2, 127, 128, 255, 256, 65535, 65536, 1 << 31, 1<<31 - 1, 1 << 40, r.Intn(1000)}[r.Intn(13)]
}

func commit(r *rand.Rand, n int, utf8 bool) git.Commit {
	h := fmt.Sprintf("%08x%032x", r.Uint32(), n)
	if r.Intn(10) == 0 {
		h = fmt.Sprintf("%032x%08x", n, r.Uint32())
	}
	if r.Intn(12) == 0 {
		h += fmt.Sprintf("%024x", n)
	}
	c := git.Commit{Hash: h, ShortHash: h[:7+r.Intn(6)], IsMerge: r.Intn(4) == 0, AuthorName: text(r, utf8), AuthorEmail: text(r, utf8)}
	t := []int64{0, 1, -1, -86400 * 365 * 20, 1 << 31, 1<<31 - 1, 1 << 33, 1_500_000_000 + r.Int63n(1e8), 253402300799 - 2*86400}[r.Intn(9)]
	c.Date = time.Unix(t, 0)
	switch r.Intn(3) {
	case 0:
		c.Date = c.Date.UTC()
	case 1:
		c.Date = c.Date.In(time.FixedZone("x", (r.Intn(27)-12)*3600+r.Intn(2)*1800))
	}
	k := []int{0, 0, 1, 2, 5}[r.Intn(5)]
	if r.Intn(200) == 0 {
		k = 5000
	}
	for range k {
		c.FileDiffs = append(c.FileDiffs, git.FileDiff{Path: text(r, utf8), LinesAdded: num(r), LinesRemoved: num(r)})
	}
	return c
}

func same(a, b git.Commit) bool {
	return a.Hash == b.Hash && a.ShortHash == b.ShortHash && a.IsMerge == b.IsMerge && a.AuthorName == b.AuthorName && a.AuthorEmail == b.AuthorEmail &&
		a.Date.Equal(b.Date) && slices.Equal(a.FileDiffs, b.FileDiffs)
}

type store struct {
	kind, dir, path string
}

func (s store) make() cache.Backend {
	if s.kind == "json" {
		return backends.JSONBackend{Path: s.path}
	}
	return &backends.GobBackend{Dir: s.dir, Path: s.path}
}

// Looks up revisions and judges the answer. must: have to be there; may: could be there as well
func get(what string, b cache.Backend, revs []string, must, may map[string]git.Commit, tolerate bool) (failed bool) {
	seq, finish := b.Get(revs)
	asked := map[string]bool{}
	for _, h := range revs {
		asked[h] = true
	}
	got := map[string]bool{}
	for c := range seq {
		rep.Returned++
		want, ok := must[c.Hash]
		if !ok {
			want, ok = may[c.Hash]
		}
		if !ok {
			bad("%s: returns %v, which was never stored", what, c)
		} else if !same(c, want) {
			bad("%s: stored %#v, got back %#v", what, want, c)
		}
		if !asked[c.Hash] {
			bad("%s: returns %s, which wasn't asked for", what, c.Hash)
		}
		if got[c.Hash] {
			bad("%s: returns %s twice", what, c.Hash)
		}
		got[c.Hash] = true
	}
	rep.Gets++
	err := finish()
	if err != nil {
		if !tolerate {
			bad("%s: looking up failed: %v", what, err)
		}
		return true
	}
	for h := range asked {
		if _, ok := must[h]; ok && !got[h] {
			bad("%s: %s was stored but isn't returned", what, h)
		}
	}
	return false
}

func pick(r *rand.Rand, all map[string]git.Commit) []string {
	var hs []string
	for h := range all {
		hs = append(hs, h)
	}
	slices.Sort(hs)
	r.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
	switch r.Intn(4) {
	case 0:
		hs = hs[:r.Intn(len(hs)+1)]
	case 1:
		hs = hs[:min(len(hs), 1)]
	}
	for range r.Intn(3) {
		hs = append(hs, fmt.Sprintf("%040x", r.Uint64()))
	}
	if len(hs) > 0 && r.Intn(4) == 0 {
		hs = append(hs, hs[r.Intn(len(hs))], hs[0][:7], "", strings.ToUpper(hs[0])+"x")
	}
	return hs
}

func files(dir string) (res []string) {
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() {
			res = append(res, p)
		}
		return nil
	})
	return
}

func main() {
	seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
	n, _ := strconv.Atoi(os.Args[3])
	for trial := range n {
		if len(rep.Bad) >= 5 {
			break
		}
		dir := filepath.Join(os.Args[1], fmt.Sprint("t", trial))
		if err := os.MkdirAll(dir, 0o700); err != nil {
			panic(err)
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					bad("trial %d: panic: %v", trial, e)
				}
			}()
			one(rand.New(rand.NewSource(seed*1_000_003+int64(trial))), trial, dir)
		}()
		os.RemoveAll(dir)
		rep.Trials++
	}
	json.NewEncoder(os.Stdout).Encode(rep)
}

func one(r *rand.Rand, trial int, dir string) {
	s := store{kind: "gob", dir: dir}
	if r.Intn(6) == 0 {
		s.kind = "json"
	}
	s.path = filepath.Join(dir, []string{"commits.gobs", "x.gob", "cafe0123.gobs", "a b"}[r.Intn(4)])
	if r.Intn(12) == 0 {
		noop(r, trial)
		return
	}
	all := map[string]git.Commit{}
	b := s.make()
	if err := b.Open(); err != nil {
		bad("trial %d: can't open a new store: %v", trial, err)
		return
	}
	var ops []string
	serial := 0
	steps := 2 + r.Intn(14)
	if r.Intn(40) == 0 {
		steps = 400
	}
	for step := range steps {
		what := fmt.Sprintf("trial %d (%s, after %s)", trial, s.kind, strings.Join(ops, " "))
		if len(what) > 300 {
			what = what[:300]
		}
		switch x := r.Intn(20); {
		case x < 7:
			k := []int{0, 1, 1, 2, 5, 20, 100}[r.Intn(7)]
			if steps > 100 {
				k = r.Intn(4)
			} else if r.Intn(60) == 0 {
				k = 2500
			}
			var cs []git.Commit
			for range k {
				serial++
				cs = append(cs, commit(r, serial, s.kind == "json"))
			}
			if err := b.Add(cs); err != nil {
				bad("%s: storing %d commits failed: %v", what, k, err)
				return
			}
			for _, c := range cs {
				all[c.Hash] = c
			}
			rep.Stored += k
			rep.Frames++
			ops = append(ops, fmt.Sprint("add", k))
			// what the caller does with its slice afterwards is its own business
			for i := range cs {
				cs[i] = git.Commit{Hash: "gone"}
			}
		case x < 13:
			get(what, b, pick(r, all), all, nil, false)
			ops = append(ops, "get")
		case x < 14:
			// gives up half-way
			seq, finish := b.Get(pick(r, all))
			k := r.Intn(5)
			for range seq {
				if k--; k < 0 {
					break
				}
			}
			finish()
			ops = append(ops, "get…")
		case x < 18:
			if err := b.Close(); err != nil {
				bad("%s: closing failed: %v", what, err)
				return
			}
			b = s.make()
			if r.Intn(4) == 0 && s.kind == "gob" {
				// leftovers of other states and other processes
				os.WriteFile(filepath.Join(dir, "0ld.gobs"), []byte("x"), 0o600)
				os.WriteFile(s.path+".123.tmp", []byte("torn"), 0o600)
			}
			if err := b.Open(); err != nil {
				bad("%s: opening again failed: %v", what, err)
				return
			}
			rep.Reopened++
			ops = append(ops, "reopen")
		case x < 19:
			if steps > 100 && r.Intn(5) > 0 {
				continue
			}
			if err := b.Clear(); err != nil && !(s.kind == "json" && len(all) == 0) {
				bad("%s: clearing failed: %v", what, err)
				return
			}
			all = map[string]git.Commit{}
			ops = append(ops, "clear")
		default:
			if s.kind != "gob" {
				continue
			}
			// another process has the same store open for a while
			o := s.make()
			if err := o.Open(); err != nil {
				bad("%s: opening twice failed: %v", what, err)
				return
			}
			get(what+" second", o, pick(r, all), nil, all, false)
			serial++
			c := commit(r, serial, false)
			if err := o.Add([]git.Commit{c}); err != nil {
				bad("%s: storing in a second one failed: %v", what, err)
				return
			}
			// The first doesn't know of it, and remains unharmed
			if r.Intn(2) == 0 {
				get(what+" beside second", b, pick(r, all), all, nil, false)
			}
			if err := o.Close(); err != nil {
				bad("%s: closing the second failed: %v", what, err)
				return
			}
			get(what+" after second", b, append(pick(r, all), c.Hash), all, nil, false)
			// The one that is closed last wins
			b.Add(nil)
			ops = append(ops, "second")
		}
		sig(s.kind, strings.Join(ops, " "), step)
	}
	what := fmt.Sprintf("trial %d (%s, after %s)", trial, s.kind, strings.Join(ops, " "))
	if len(what) > 300 {
		what = what[:300]
	}
	get(what, b, pick(r, all), all, nil, false)
	if err := b.Close(); err != nil {
		bad("%s: closing failed: %v", what, err)
		return
	}
	if s.kind != "gob" {
		return
	}

	// Damage
	fl := files(dir)
	fl = slices.DeleteFunc(fl, func(p string) bool { return strings.HasSuffix(p, ".tmp") })
	if len(fl) == 0 || len(all) == 0 {
		return
	}
	fl[0] = fl[r.Intn(len(fl))]
	good, err := os.ReadFile(fl[0])
	if err != nil || len(good) == 0 {
		return
	}
	for range 6 {
		d := slices.Clone(good)
		how := ""
		switch r.Intn(8) {
		case 6, 7:
			// well-formed on the outside
			d, how = inside(r, good)
			if d == nil {
				continue
			}
		case 0:
			k := r.Intn(len(d))
			d, how = d[:k], fmt.Sprintf("cut to %d of %d", k, len(good))
		case 1:
			k := r.Intn(min(len(d), 12))
			d, how = d[:len(d)-1-k], fmt.Sprintf("last %d cut", k+1)
		case 2:
			how = "flip"
			for range 1 + r.Intn(3) {
				k := r.Intn(len(d))
				d[k] ^= 1 << r.Intn(8)
				how += fmt.Sprint(" ", k)
			}
		case 3:
			a, z := r.Intn(len(d)), r.Intn(len(d))
			if a > z {
				a, z = z, a
			}
			for k := a; k <= z; k++ {
				d[k] = byte(r.Intn(256))
			}
			how = fmt.Sprintf("bytes %d to %d overwritten", a, z)
		case 4:
			x := make([]byte, 1+r.Intn(40))
			r.Read(x)
			d, how = append(d, x...), "appended to"
		case 5:
			k := r.Intn(len(d))
			d, how = append(slices.Clone(d[:k]), d[min(len(d), k+1+r.Intn(4)):]...), fmt.Sprintf("bytes missing at %d", k)
		}
		if err := os.WriteFile(fl[0], d, 0o600); err != nil {
			return
		}
		rep.Damaged++
		b := s.make()
		failed := b.Open() != nil
		if !failed {
			failed = get(what+" damaged: "+how, b, pick(r, all), all, nil, true)
		}
		if failed {
			rep.Detected++
			// carries on without what was there
			if err := b.Clear(); err != nil {
				bad("%s: damaged (%s): can't be cleared: %v", what, how, err)
				return
			}
			get(what+" damaged and cleared: "+how, b, pick(r, all), nil, nil, false)
			serial++
			c := commit(r, serial, false)
			if err := b.Add([]git.Commit{c}); err != nil {
				bad("%s: damaged (%s) and cleared: can't store: %v", what, how, err)
				return
			}
			now := map[string]git.Commit{c.Hash: c}
			get(what+" damaged, cleared and stored: "+how, b, append(pick(r, all), c.Hash), now, nil, false)
			if err := b.Close(); err != nil {
				bad("%s: damaged (%s) and cleared: can't close: %v", what, how, err)
				return
			}
			b = s.make()
			if err := b.Open(); err != nil {
				bad("%s: damaged (%s) and cleared: can't reopen: %v", what, how, err)
				return
			}
			get(what+" damaged, cleared, stored and reopened: "+how, b, append(pick(r, all), c.Hash), now, nil, false)
			b.Close()
		} else {
			rep.Harmless++
			b.Close()
		}
		sig("damage", how, failed)
	}
}

// Changes what is in a compressed file
func inside(r *rand.Rand, good []byte) ([]byte, string) {
	zr, err := gzip.NewReader(bytes.NewReader(good))
	if err != nil {
		return nil, ""
	}
	in, err := io.ReadAll(zr)
	if err != nil || len(in) == 0 {
		return nil, ""
	}
	// Additions, each with its length in front (none if it's something else)
	var ends []int
	for at := 0; at < len(in); {
		if at+4 > len(in) {
			return nil, ""
		}
		at += 4 + int(binary.LittleEndian.Uint32(in[at:]))
		if at > len(in) {
			return nil, ""
		}
		ends = append(ends, at)
	}
	how := ""
	switch r.Intn(3) {
	case 0:
		in, how = append(in, in...), "everything in it twice"
	case 1:
		k := r.Intn(len(ends))
		from := 0
		if k > 0 {
			from = ends[k-1]
		}
		in, how = append(in, in[from:ends[k]]...), "an addition in it twice"
	case 2:
		k := r.Intn(len(in)-1) + 1
		for slices.Contains(ends, k) {
			k--
		}
		if k == 0 {
			return nil, ""
		}
		in, how = in[:k], fmt.Sprintf("what is in it cut to %d", k)
	}
	var b bytes.Buffer
	zw := gzip.NewWriter(&b)
	zw.Write(in)
	zw.Close()
	return b.Bytes(), how
}

func noop(r *rand.Rand, trial int) {
	b := backends.NoopBackend{}
	b.Open()
	c := commit(r, 1, false)
	if err := b.Add([]git.Commit{c}); err != nil {
		bad("trial %d: the store that stores nothing fails: %v", trial, err)
	}
	get(fmt.Sprintf("trial %d (noop)", trial), b, []string{c.Hash}, nil, nil, false)
	b.Close()
}
