#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (one place to edit)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "The table attributes every commit, line and file exactly once",
 "For any repository, each row of `git who table` (in every sort mode, as table or as CSV) shows exactly the number of distinct selected non-merge commits by that author, the lines those commits added and removed, the number of distinct file paths they changed, and the author times of the earliest and latest of them. An author is a name, or an email address when -e is given. No selected commit, line or file is dropped, counted twice or credited to someone else, and every author with at least one counted commit has exactly one row when -n 0 is given.",
 ["inputs","configurations"], "every commit graph, authorship pattern, file-change pattern and sort/email flag combination",
 "Unit tests tally three or four hand-built commit values; nothing runs the table subcommand on a repository with a known answer (the functional suite needs an absent submodule).",
 ["internal/tally/tally.go","internal/subcommands/table.go","internal/git/git.go","internal/concurrent/concurrent.go"],
 [("per-author, per-path tallies and their reduction","internal/tally/tally.go"),("record writing","internal/subcommands/table.go")],
 ["stdout of `git-who table [--csv]`"])
prop("C02", "CPU count and work splitting never change an answer",
 "For a given repository and command line, table, tree and hist report the same authors, numbers and paths whatever the number of CPUs available, however many commits there are relative to the internal batch size, and in whatever order parallel batches complete. In particular using a single CPU gives the same answer as using many.",
 ["schedules","inputs","configurations"], "every GOMAXPROCS, commit count around batch boundaries, and completion order of parallel git processes",
 "No test runs the concurrent package at all; batch boundaries (1024 commits) and completion orders are never exercised.",
 ["internal/concurrent/concurrent.go","internal/concurrent/worker.go","internal/tally/tally.go","internal/tally/bucket.go"],
 [("writer/spawner/worker/waiter pipeline and Combine","internal/concurrent/concurrent.go"),("chunking","internal/concurrent/worker.go")],
 ["stdout of table -l/-f, tree and hist -l/-f under a git stand-in that delays individual git processes"])
prop("C03", "The cache is invisible in results",
 "For any sequence of git-who commands interleaved with changes to the repository (new commits, branches, rebases, mailmap edits, ignore-file edits, time-zone changes, fetching more history), a command run with the cache enabled reports exactly what it reports with GIT_WHO_DISABLE_CACHE=1. Reading commits from the cache instead of from git never changes authors, counts, paths, dates or the order of rows.",
 ["histories","inputs","configurations"], "every interleaving of commands (any subcommand, flags, paths, filters, revisions) with repository and configuration edits between them",
 "The backend unit tests add and read back one or two commits in one process; no test runs two commands over one cache with a repository change in between.",
 ["internal/cache/cache.go","internal/cache/backends/gob.go","internal/concurrent/concurrent.go","internal/concurrent/cache.go","internal/git/config/files.go"],
 [("commits cached whole, before path limiting","internal/concurrent/worker.go"),("cache file named by a hash of the state that affects it","internal/cache/cache.go")],
 ["stdout with and without the cache after each step of a history"])
prop("C04", "Damaged or unusable cache storage never changes or prevents an answer",
 "If the cache storage is truncated, overwritten, left behind by a process killed at any moment, or cannot be read or written, a git-who command still exits successfully with exactly the uncached answer. The following run gives that answer too, without needing any manual cleanup.",
 ["crash_points","fault_sequences","inputs"], "every truncation point and corruption of the stored files, every kill point during a run, and every storage error (disk full, not a directory, no permission)",
 "No test opens a damaged cache, kills the program, or makes a cache write fail.",
 ["internal/cache/backends/gob.go","internal/cache/cache.go","internal/concurrent/concurrent.go"],
 [("graceful cache failure: wipe and move on","internal/concurrent/concurrent.go"),("framing, compression, clearing","internal/cache/backends/gob.go")],
 ["exit status, stdout of the run after the fault and of the next run"])
prop("C05", "A failing git is always reported and never half-counted",
 "If any git process that git-who starts exits with an unexpected failure status or is killed, whether before, during or after writing its output, the command exits with a nonzero status and an error message, and prints no table, tree or timeline of partial results. The failure leaves nothing behind that changes the answer of a later successful run.",
 ["fault_sequences","crash_points","schedules"], "every git invocation of a run, every failure point in its output, at every degree of parallelism",
 "No test makes a git subprocess fail; the error paths between worker, waiter and main are never run.",
 ["internal/concurrent/worker.go","internal/concurrent/concurrent.go","internal/git/cmd/subprocess.go","internal/git/git.go","internal/concurrent/cache.go"],
 [("worker error forwarding","internal/concurrent/worker.go"),("subprocess Wait and exit codes","internal/git/cmd/subprocess.go")],
 ["exit status, stdout and stderr under a git stand-in that fails chosen invocations; stdout of the next clean run"])
prop("C06", "Every tree node names the true top contributor at or under it",
 "For every file or directory `git who tree` prints, the named author is one whose contribution to the files at or under that path is the greatest by the chosen metric (commits counted once per directory, lines added plus removed, distinct files, most recent or earliest edit), and the printed number is exactly that author's contribution there. Edits to files no longer in the working tree still count toward their ancestor directories.",
 ["inputs","configurations"], "every history, directory shape and ranking mode, with or without -e, -a, --merges and -d",
 "The tree unit tests build two or three commits by hand and look at one mode; no test reads the printed tree.",
 ["internal/tally/tree.go","internal/subcommands/tree.go","internal/tally/tally.go"],
 [("tree insertion and recursive ranking","internal/tally/tree.go")],
 ["stdout of `git-who tree`"])
prop("C07", "The timeline accounts for every commit in its own period",
 "In the output of `git who hist`, every selected, counted commit falls in the period of its author date in the local time zone, the author named for a period is one with the greatest contribution in it by the chosen metric, and the number shown is exactly that author's contribution in that period. The bar lengths follow the period's winning and total contributions in proportion (a file that several authors changed is one file in the total), so that summing over periods loses and duplicates nothing.",
 ["inputs","configurations"], "every history, time zone, metric and range of dates",
 "Unit tests combine two hand-built series and check the empty case; totals, winners and period assignment over real histories are not tested.",
 ["internal/tally/bucket.go","internal/subcommands/hist.go","internal/concurrent/concurrent.go"],
 [("daily buckets, rebucketing, ranking","internal/tally/bucket.go"),("bar plot","internal/subcommands/hist.go")],
 ["stdout of `git-who hist`"])
prop("C08", "Path arguments limit what is counted exactly as given",
 "When paths are given, git-who counts the commits git log selects for those paths, and counts toward lines, files and tree nodes exactly the changes to files that are under an included path and not under an excluded one. This holds for plain file and directory paths (including names containing spaces or glob characters), wildcard patterns with no directory part, and the exclude forms `:!`, `:^` and `:(exclude)`; any other pathspec magic is refused with an error.",
 ["inputs"], "every set of include and exclude pathspecs of those forms over every set of file names",
 "Pathspec unit tests cover a dozen fixed pattern/path pairs, none with special characters, and never compare with what git itself selects.",
 ["internal/git/pathspec.go","internal/git/git.go","internal/git/cmd/cmd.go","internal/concurrent/worker.go"],
 [("diff limiting by pathspec","internal/git/git.go"),("pathspec matching","internal/git/pathspec.go")],
 ["stdout of table -l/-f --csv and tree -a with path arguments"])
prop("C09", "Revision and filter arguments select the commits git would select",
 "For any revisions, ranges, --since, --until and --author arguments, every subcommand counts the commits `git log` lists for them, excluding only commits whose author date is in the future or that carry no author identity at all; --nauthor removes the commits whose author matches any of its patterns, also when combined with --author. Table, tree and hist in all metrics agree on this set, and `--` separates revisions from paths as it does in git.",
 ["inputs","configurations"], "every combination of revisions, ranges and filter options over every commit graph",
 "Argument parsing is tested only in an integration test that cannot run here; filters and ranges are not tested for the commits they select.",
 ["internal/git/args.go","internal/git/cmd/filters.go","internal/git/cmd/cmd.go","main.go"],
 [("rev-parse splitting","internal/git/args.go"),("filter arguments","internal/git/cmd/filters.go")],
 ["stdout of table/tree/hist with revision and filter arguments, compared with git rev-list"])
prop("C10", "Mailmap identities are honoured everywhere",
 "If the repository has a .mailmap file or mailmap.file is configured, every subcommand and metric counts contributions under the mapped name and email, and --author matches the mapped identity; without either, the raw identity in the commit is used. Changing, adding or removing a mailmap takes effect on the very next command.",
 ["inputs","configurations","histories"], "every mailmap content and placement, subcommand, metric and author filter, with any earlier cache contents",
 "The mailmap tests need an absent submodule and look at the commit count of one author in the table.",
 ["internal/git/config/config.go","internal/git/config/files.go","internal/git/cmd/cmd.go","internal/cache/cache.go"],
 [("mailmap detection and hashing","internal/git/config/files.go"),("log format with mapped names","internal/git/cmd/cmd.go")],
 ["stdout of every subcommand with -e under different mailmaps"])
prop("C11", "Ignored revisions are skipped everywhere and nothing else is",
 "Every commit named in a .git-blame-ignore-revs file at the repository root (in the format git blame --ignore-revs-file accepts: full hashes, with comments, blank lines and surrounding whitespace) is left out of every metric of every subcommand, and no other commit is. Editing the file takes effect on the next command, and commits once skipped are counted again when removed from it.",
 ["inputs","histories"], "every subset of commits and every legal layout of the file, in every subcommand and metric, with any earlier cache contents",
 "No test uses an ignore-revs file.",
 ["internal/git/config/files.go","internal/git/git.go","internal/concurrent/concurrent.go"],
 [("ignore file parsing","internal/git/config/files.go"),("skipping","internal/git/git.go")],
 ["stdout of table/tree/hist with an ignore-revs file"])
prop("C12", "The same question always gets the same answer",
 "Running the same command twice on an unchanged repository prints byte-identical output (apart from relative ages), including when several authors tie on every ranking metric and when one email address appears under several names. Which rows a -n limit keeps, and which author a tree node or timeline period names, never varies from run to run.",
 ["schedules","inputs"], "every repository with ties, every subcommand and mode, and every order in which maps are walked and batches complete",
 "A test that runs once cannot see variation between runs; no test has tied authors.",
 ["internal/tally/tally.go","internal/tally/tree.go","internal/tally/bucket.go"],
 [("ranking and tie-breaking","internal/tally/tally.go"),("choice of displayed name","internal/tally/tally.go")],
 ["stdout over repeated runs"])
prop("C13", "Rows are in rank order and -n keeps exactly the best",
 "Table rows are ordered by the chosen metric (commits, lines added plus removed, files, most recent edit first, or earliest first edit first) with ties broken by more recent last edit. With -n N exactly the first N rows of the full ranking are printed and the table says how many more there are; with -n 0, or when N is not smaller than the number of authors, all rows are printed and nothing more is claimed.",
 ["inputs","configurations"], "every distribution of contributions, sort mode and limit",
 "No test checks row order or the limit.",
 ["internal/tally/tally.go","internal/subcommands/table.go"],
 [("Rank / Compare","internal/tally/tally.go"),("limit","internal/subcommands/table.go")],
 ["stdout of table with each sort flag and -n"])
prop("C14", "CSV output is well formed and complete for any author identity",
 "`git who table --csv` prints a header and one record per row that any CSV reader parses back to the exact author name and email (whatever quotes, commas, spaces or non-ASCII characters they contain), exact integers, and RFC 3339 times equal to the first and last author times. The columns are the same in number and order for every record and match the header for every flag combination. If the output can't be written in full, the exit status says so.",
 ["inputs","configurations"], "every author name/email git accepts and every flag combination",
 "The CSV test needs an absent submodule and only looks at which columns exist.",
 ["internal/subcommands/table.go"],
 [("writeCsv / toRecord","internal/subcommands/table.go")],
 ["stdout of `git-who table --csv`"])
prop("C15", "Printed tables, trees and numbers stay aligned and truthful",
 "Every line of the printed table has the same display width for any author identity (wide, combining and accented characters included) and for any counts; author text too long for its column is cut with an ellipsis and never overflows. Numbers are printed exactly with thousands separators below one million and rounded from there on, relative ages never overstate the elapsed whole units, and in the tree every annotation starts in the same column.",
 ["inputs"], "every author string, every count, every age, every tree shape",
 "Formatting tests try nine numbers and one date; alignment with wide characters is not tested.",
 ["internal/format/format.go","internal/subcommands/table.go","internal/subcommands/tree.go"],
 [("Abbrev / Number / RelativeTime","internal/format/format.go"),("writeTable","internal/subcommands/table.go"),("printTree","internal/subcommands/tree.go")],
 ["stdout of table, tree and hist; the formatting functions' results"])
prop("C16", "Any commit git can log is read back exactly",
 "For any history git can represent (renames, copies, binary files, submodules, symlinks, mode changes, empty commits, root and octopus merges, empty author names or emails, and file names made of any bytes git allows), each commit's hash, author, date, merge status and list of (path, lines added, lines removed) is read from git's output exactly. One commit's odd content never corrupts, hides or splits another commit.",
 ["inputs"], "every sequence of commits with any legal metadata and file names",
 "The parser tests feed four fixed line lists with ordinary names.",
 ["internal/git/parse.go","internal/git/cmd/subprocess.go","internal/git/cmd/cmd.go"],
 [("line state machine","internal/git/parse.go"),("NUL splitting","internal/git/cmd/subprocess.go")],
 ["stdout of `git-who parse`, table -l --csv and tree -a, compared with the raw objects"])
prop("C17", "No run crashes, races or hangs",
 "Every invocation on a valid repository terminates with either a result or an ordinary error message: no panic, no data race between its goroutines and no deadlock or endless loop, whatever the selection (including an empty one), number of CPUs, directory names, time zone, amount of output git writes on stderr, or way in which git processes fail.",
 ["schedules","inputs","fault_sequences","configurations"], "every command, repository shape, CPU count, completion order and failure of git processes",
 "No test runs the concurrent code or the program itself beyond --version, and none runs under the race detector.",
 ["internal/concurrent/concurrent.go","internal/concurrent/worker.go","internal/git/cmd/subprocess.go","internal/subcommands/hist.go","internal/subcommands/tree.go","internal/cache/backends/gob.go","internal/tally/bucket.go"],
 [("channel protocol and cancellation","internal/concurrent/concurrent.go"),("subprocess pipes","internal/git/cmd/subprocess.go")],
 ["exit status, stderr, race detector reports and CPU/blocked state of the process"])
prop("C18", "git-who only reads the repository and only writes its own cache",
 "No git-who command creates, changes or deletes anything in the working tree, the .git directory or any configuration file, and the only place it writes is its own directory for that repository under XDG_CACHE_HOME (or ~/.cache). With GIT_WHO_DISABLE_CACHE set it writes nothing at all, and it never removes cache data belonging to another repository or files outside its cache directory.",
 ["inputs","configurations","fault_sequences"], "every command, repository and cache state, including a damaged cache that gets wiped",
 "No test looks at what the program writes.",
 ["internal/cache/cache.go","internal/cache/backends/gob.go","internal/git/cmd/cmd.go"],
 [("cache location","internal/cache/cache.go"),("Clear / Close removing files","internal/cache/backends/gob.go")],
 ["file-system snapshots before and after; traced file-modifying system calls"])
prop("C19", "Concurrent git-who processes do not disturb each other",
 "Any number of git-who processes run at the same time on the same repository, or on different ones, sharing one cache location all succeed and each prints exactly the answer it would print alone. Afterwards a further run also prints that answer.",
 ["schedules","histories"], "every interleaving of several processes' cache reads, writes, wipes and removals",
 "No test starts two processes.",
 ["internal/cache/backends/gob.go","internal/cache/cache.go"],
 [("working file and compressed file","internal/cache/backends/gob.go")],
 ["exit status and stdout of each process and of a later run"])
prop("C20", "Merging partial tallies equals tallying everything at once",
 "For any list of commits, splitting it into any number of consecutive or shuffled parts, tallying each part separately and combining the partial results in any order gives the same per-author, per-path and per-day totals as tallying the whole list at once. Combining with an empty part changes nothing.",
 ["inputs","schedules"], "every commit list, every partition of it and every combination order, for table, tree and timeline tallies",
 "One unit test combines two one-day series; combination of per-path tallies is never tested.",
 ["internal/tally/tally.go","internal/tally/bucket.go","internal/tally/tree.go"],
 [("Tally.Combine, TalliesByPath.Combine, TimeSeries.Combine","internal/tally/tally.go")],
 ["results of the exported tally functions in process"])
prop("C21", "The cache store returns exactly what was put in, once",
 "For any sequence of store, look-up, close and reopen operations on a cache store, looking up a set of revisions returns each stored commit among them exactly once with every field unchanged (author, email, merge flag, instant of the date, every path and line count), and returns nothing for revisions never stored. A damaged store is reported as an error, never as altered commits.",
 ["inputs","histories","fault_sequences"], "every sequence of operations, commit contents and damage to the file, for each storage format",
 "Backend tests do two adds of one ordinary commit and never close and reopen, or damage the file.",
 ["internal/cache/backends/gob.go","internal/cache/backends/json.go","internal/cache/backends/noop.go"],
 [("framing, encode/decode, compress/uncompress","internal/cache/backends/gob.go")],
 ["results of the backend operations in process"])
prop("C22", "The answer does not depend on how the working directory is reached",
 "Running git-who from a subdirectory, or through a symbolic link to the repository or subdirectory, gives the same table and timeline as running at the top level with the same revisions, with path arguments interpreted relative to the current directory as git does. The tree from a subdirectory shows that subdirectory's part of the full tree. So does naming the repository with git's -C, --git-dir and --work-tree or with GIT_DIR and GIT_WORK_TREE.",
 ["inputs","configurations"], "every directory of every repository, reached directly or through links, with any path arguments",
 "No test changes directory within a repository or uses a symbolic link.",
 ["internal/tally/tree.go","internal/git/git.go","internal/git/args.go","internal/git/pathspec.go"],
 [("working-directory-relative tree paths","internal/tally/tree.go"),("path arguments relative to the current directory","internal/git/git.go")],
 ["stdout of table -l, tree -a and hist -l run from different directories"])
prop("C23", "Merge commits count only when asked for, and only as commits",
 "Without --merges, a merge commit contributes nothing to any number, date or ranking of any subcommand. With --merges each selected merge commit adds exactly one to its author's commit count (where it has no file changes in a path-limited view it still counts once) and extends that author's first/last times, and adds nothing to lines or files.",
 ["inputs","configurations"], "every commit graph with two-parent and octopus merges, clean or conflicted, in every subcommand and metric",
 "One field is_merge appears in unit-test data; no test compares results with and without --merges.",
 ["internal/tally/tally.go","internal/tally/bucket.go","internal/git/parse.go"],
 [("CountMerges handling","internal/tally/tally.go")],
 ["stdout of every subcommand with and without --merges"])
prop("C24", "The tree shows each touched path exactly once, and hides only what it should",
 "Without -a the tree lists exactly the working-tree files (and their directories) touched by counted commits, each once under its true parent; with -a it also lists every path touched that no longer exists, and annotates every line. With -d N nothing deeper than N levels is printed, directories come before files in name order, only directories end in a slash, and a chain of single-child directories may be joined on one line.",
 ["inputs","configurations"], "every history and working tree, with every combination of -a, -d and path arguments",
 "The tree printer has no test.",
 ["internal/subcommands/tree.go","internal/tally/tree.go","internal/git/git.go"],
 [("toLines / printTree","internal/subcommands/tree.go"),("InWorkTree marking","internal/tally/tree.go")],
 ["stdout of `git-who tree` with -a and -d"])
prop("C25", "The timeline axis is gapless, ordered and ends where it should",
 "The periods printed by `git who hist` are consecutive calendar days, months or years in the local time zone with no gap, repetition or disorder, starting at the period of the earliest selected commit. They end at the present when neither revisions nor --until are given, and at the period of the last selected commit otherwise, in every time zone and across daylight-saving changes. They are days when these ends are up to two months apart, months up to five years, and years beyond.",
 ["inputs","configurations"], "every range of commit dates, every time zone including ones that skip midnight or whole days",
 "The only timeline tests use one or two dates in the test machine's own zone.",
 ["internal/tally/bucket.go","internal/subcommands/hist.go"],
 [("Resolution apply/next/label","internal/tally/bucket.go")],
 ["labels in the stdout of `git-who hist` under different TZ values"])
prop("C26", "Showing progress never alters what ends up on the screen",
 "When standard output is a terminal and progress is displayed while a large repository is read, what remains on the screen at the end is exactly what a non-terminal run prints, and the progress shown on the way never goes backwards nor past the whole. When standard output is not a terminal, no progress text or erase sequence is ever written to it.",
 ["schedules","configurations"], "every repository size and number of CPUs, with and without cached commits",
 "No test runs the program on a terminal.",
 ["internal/concurrent/concurrent.go","internal/pretty/pretty.go","internal/pretty/ansi.go"],
 [("progress line with erase","internal/concurrent/concurrent.go")],
 ["bytes written to a pseudo-terminal, interpreted by a small terminal emulator"])
prop("C27", "A command line means what the usage says, however it is spelled",
 "Leaving out the subcommand is the same as `table`. Options may come in any order before the revisions, with one dash or two, with the value after a space or an equals sign; -v in front only adds messages on stderr; HEAD may be spelled out in table and tree, `--` may be left out where it isn't needed, and `git who` is git-who. All such spellings print the same bytes. --author and --nauthor accumulate, and the last of several -n, -d, --since or --until counts. A command line with contradictory sort flags, an unknown option, revision or path, a missing or malformed value, a negative limit or unsupported pathspec magic, or one outside any repository, ends with a nonzero status and a message on stderr and prints no results. Version and help need no repository.",
 ["inputs","configurations"], "every command line of table, tree and hist, in every equivalent spelling, and every kind of mistake in every position",
 "No test runs the main program; argument handling has unit tests for pathspecs only.",
 ["main.go","internal/git/args.go","internal/utils/flagutils/flags.go"],
 [("subcommand and flag handling","main.go"),("telling revisions from paths","internal/git/args.go")],
 ["exit status, stdout and stderr of equivalent and of mistaken command lines"])
prop("C28", "What the cache holds is not read again",
 "A commit whose changes a successful command has read and cached (two CPUs or more, cache enabled) is not asked from git again by any later command, whatever its subcommand, metric, paths, filters or order: such a command answers exactly even where git could no longer supply those changes. Commits that came since are the only ones read, and are cached in turn, also by a command that shows or counts only some of them. With GIT_WHO_DISABLE_CACHE set to anything but the empty string the cache is neither used nor changed.",
 ["histories","configurations"], "every sequence of commands and new commits, every amount and order of commits already cached",
 "The only cache tests add and get a commit in one backend; none runs two commands one after the other.",
 ["internal/cache/cache.go","internal/cache/backends/gob.go","internal/concurrent/concurrent.go","internal/concurrent/worker.go"],
 [("cacheable results saved when a command succeeds","internal/concurrent/concurrent.go"),("looking up what is cached","internal/cache/cache.go")],
 ["exit status and stdout of later commands on a repository whose contents for cached commits are gone; bytes of the cache"])
prop("C29", "Resources stay bounded and are given back",
 "git-who runs no more commands that read the history at a time than GOMAXPROCS allows, besides the one that lists it, and its open descriptors and unwaited-for children don't grow with the size of the history: it works under a small limit on open files however many commits there are. When a command has succeeded none of its processes is still running, nothing is left in TMPDIR, and the cache of a repository is a single file: older states and what killed runs left behind more than a day ago are gone.",
 ["schedules","inputs","histories"], "every size of history, number of CPUs, limit on descriptors, and delay of each process",
 "No test starts more than one git process or looks at processes, descriptors or files left behind.",
 ["internal/concurrent/worker.go","internal/concurrent/concurrent.go","internal/git/cmd/subprocess.go","internal/cache/backends/gob.go"],
 [("worker count and waiting","internal/concurrent/concurrent.go"),("removing old files","internal/cache/backends/gob.go")],
 ["start and end of every git process, open descriptors and children of git-who, files in its cache and TMPDIR"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
