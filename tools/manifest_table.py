NA = {}
TAIL = " Held on the executions observed, not proved; trusts git's plumbing and this oracle."
def m(id, technique, note):
    c(id, "runtime monitoring: " + technique, note + TAIL, "fault_enumeration" if id in ("C04", "C05") else "exploration")

m("C01", "reference-model oracle over real runs on generated repositories",
  "Table cells compared with totals computed from raw commit objects and diff-tree, over generated histories (merges, renames, binaries, "
  "submodules, odd identities, sizes around the batch limit).")
m("C02", "differential oracle over CPU counts, forced batch orders and cache modes (git stand-in injects delays)",
  "Byte equality between the one-CPU run and concurrent runs with 2-16 CPUs under injected delays; evidence counts distinct completion "
  "orders of the git log batches.")
m("C03", "history checker: sequences of repository changes and queries, cached against uncached runs and the reference model",
  "Histories of commits, amends, fetches, mailmap/ignore edits, shallow changes and cache wipes; four known findings listed.")
m("C04", "fault injection: damaged, truncated and foreign cache files, kills at file-system calls (seccomp/ptrace cage), full and read-only disks",
  "After each fault the next answers are compared with uncached ones, and the cache must heal.")
m("C05", "fault injection: a git stand-in fails, is killed or truncates output at each subprocess; monitor of exit status, stderr and stdout",
  "Every git call of every command made to fail in several ways; afterwards the cache must not hold anything wrong.")
m("C06", "reference-model oracle over every printed tree node", "Author and number of every node against tallies over raw commits.")
m("C07", "reference-model oracle over every printed timeline period", "Winner, number and bar of each period against per-period tallies.")
m("C08", "reference-model oracle that asks git which paths a path argument matches",
  "Names and arguments chosen around git's pathspec grammar, in every subcommand, directory and cache state.")
m("C09", "reference-model oracle for revisions, dates, --author and --nauthor", "Selections compared with git's own; --nauthor with an independent filter.")
m("C10", "reference-model oracle with mailmaps from every source, before and after they change", "Identities compared with git check-mailmap.")
m("C11", "reference-model oracle with ignore files in many layouts, changing between runs", "Ignored commits subtracted independently.")
m("C12", "repeatability monitor: many repeats of one command on histories full of ties, under injected delays", "All outputs of a command must be identical.")
m("C13", "order checker on printed rows, with and without -n", "Row order checked against the metric, and -n against the full listing.")
m("C14", "strict RFC 4180 reader over CSV output with hostile identities", "Cells read back must equal the reference model's values exactly. Also run with outputs that can't take it all (/dev/full, a file size limit, a closed pipe).")
m("C15", "in-process Go harness over format functions plus layout checks on real output",
  "Numbers, ages and abbreviations swept over wide ranges; columns measured with wcwidth over real tables and trees.")
m("C16", "record/replay oracle: the parser's commits against raw objects, in-process and at the command line",
  "Generated commits with hostile names, messages, paths, encodings, object formats.")
m("C17", "Go race detector, crash and hang monitors under random command lines, faults, signals and cancellation",
  "Plain and -race builds; hang decided on the state of the process tree, not on elapsed time.")
m("C18", "system-call monitor (seccomp/ptrace cage) recording every mutation, plus before/after snapshots", "Every file-system mutation must be a cache file.")
m("C19", "stress with concurrent processes on one cache, under injected delays; every answer compared with an uncached one; race detector",
  "2-12 processes at a time; evidence counts overlapping cache accesses.")
m("C20", "in-process algebra monitor over partial tallies (random splits and orders, race detector)", "Any split and order of combination must equal the direct tally.")
m("C21", "in-process model-based monitor of the cache store (random operation sequences, race detector)", "Sequences of add/get/clear/reopen/damage against a map.")
m("C22", "differential oracle over ways of reaching a directory, plus the reference model",
  "Links, PWD values, linked worktrees, relative path arguments; byte equality with the direct and top-level runs.")
m("C23", "differential and reference-model oracle with and without --merges", "Octopus, evil, plumbing-made and shallow merges.")
m("C24", "structural checker of printed trees against touched and tracked paths", "All lines parsed back to paths; histories that turn files into directories; odd indexes.")
m("C25", "axis checker against the calendar of each time zone", "Dates around offset changes, midnights and resolution limits in all tz database zones.")
m("C26", "terminal emulator on a pseudo-terminal compared with piped output", "Screens compared under varying CPUs, delays, failures and cache states; the terminal is wide enough for the progress text.")
m("C27", "metamorphic monitor over spellings of one command, the base form judged by the reference model; refusal monitor over mistaken ones",
  "Order, dashes, =, defaults, omitted subcommand and --, `git who`; contradictory, unknown or malformed options, revisions, paths and magic.")
m("C28", "withdrawal monitor: the contents cached commits need are taken out of the repository; answers judged by the reference model",
  "Random sequences of commands and new commits; what git can no longer supply shows whether it was asked.")
m("C29", "resource monitor over process starts and ends, /proc descriptors and children, descriptor limits, files left behind",
  "Many batches under random CPUs, delays and limits; leftovers of killed runs planted beforehand.")
