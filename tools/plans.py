"""What each check builds and runs, and how its evidence is described."""
INST = ["inst", "plain"]
BOTH = ["scale", "inst", "plain"]
MANY = ["scale", "inst", "small", "plain"]
PLANS = {}

ENVMODEL = "the modelled file system, locks and scheduler behave as the real ones (a part of the cases is replayed on real files and goroutines in every run, with equal observations)"
BOUNDED = "exhaustive within the listed spaces only; nothing is claimed about larger histories or inputs"


def plan(id, rule, kinds=INST, level="model_checking", technique="", note="", **kw):
    kw.setdefault("assumes", ([ENVMODEL] if kinds != ["plain"] else []) + [BOUNDED])
    PLANS[id] = dict(rule=rule, kinds=kinds, level=level, technique=technique, note=note, **kw)


ENUM = "explicit enumeration of operation histories on the real code in a modelled environment, compared with a reference model; replay on the plain build"

plan("C01", "every case of the listed spaces; a case is one index built and looked up under all of its blots; distinct: different observations",
     kinds=MANY, confirm={"scale": "inst", "small": "plain"}, replay_re="^(?!many shards)", share={"inst": 0.8}, quick=35, confirm_s=200,
     technique=ENUM, note="All texts over small alphabets, all short document sequences and the counts around chunk and flush boundaries, on several shard layouts.")
plan("C02", "a case is one history of adds, closes and reopenings and the full comparison of the result with a one-session reference; distinct: different observations",
     kinds=BOTH, confirm={"scale": "inst"},
     technique=ENUM, note="All add/reopen sequences to a depth, at flush rates that put boundaries everywhere, and around posting-chunk and record-flush boundaries.")
plan("C03", "a case is one pipeline scenario, explored under all its schedules (up to partial-order equivalence, or to a preemption bound); an evaluation is one lookup compared after one schedule; also under the race detector; distinct: different observations",
     kinds=["scale", "scale-race", "plain"], confirm={"scale": "inst", "scale-race": "inst-race"},
     technique="stateless model checking (DPOR with sleep sets; preemption-bounded search) of the real pipeline under a controlled scheduler",
     note="Every schedule of the listed scenarios (up to equivalence or the bound). Shard tables are scaled to 256 blots for speed; a failure counts only if the same schedule fails on the unscaled build.")
plan("C04", "a case is one set of concurrent queries, explored under all schedules of their file operations; distinct: different observations",
     kinds=["scale", "scale-race", "plain"], confirm={"scale": "inst", "scale-race": "inst-race"},
     technique="stateless model checking (DPOR; preemption-bounded) of concurrent queries, with the race detector under the same schedules",
     note="Every interleaving at file operations of the listed query mixes (up to equivalence or the bound), race detector on.")
plan("C34", "a case is one order of the steps of several users, or one set of users that work at the same time, explored under all schedules (up to partial-order equivalence, or to a preemption bound); then every index is compared with what its user did; distinct: different observations",
     kinds=["scale", "scale-race", "plain"], confirm={"scale": "inst", "scale-race": "inst-race"}, replay={"quick": 16, "thorough": 200},
     technique=ENUM + "; stateless model checking (DPOR; preemption-bounded) of users of several indexes, with the race detector under the same schedules",
     note="Every order of the steps of the listed users, each with an index of its own, and every schedule (up to equivalence or the bound) of users at the same time. Shard tables are scaled to 256 blots; a failure counts only if it happens on the unscaled build too.")
plan("C05", "a case is one index content (incidence relation of documents and blots, layout), iterated under every batch scheme of a list; distinct: different observations",
     kinds=MANY, confirm={"scale": "inst", "small": "plain"}, replay_re="^(?!many shards)", share={"inst": 0.8}, quick=35, confirm_s=200,
     technique=ENUM, note="All incidence relations of few documents and blots over all shard layouts listed, all batch schemes.")
plan("C06", "a case is one index content iterated under every batch scheme of a list, with the order of counts checked; distinct: different observations",
     kinds=MANY, confirm={"scale": "inst", "small": "plain"}, replay_re="^(?!many shards)", share={"inst": 0.8}, quick=35, confirm_s=200,
     technique=ENUM, note="All incidence relations of few documents and blots over all shard layouts listed, all batch schemes.")
plan("C07", "a case is one index content queried with every combination of room, prefill and batch of a list; distinct: different observations",
     kinds=BOTH, confirm={"scale": "inst"},
     technique=ENUM, note="All capacities around the document counts, all prefill states, all batch sizes, stale contents in spare capacity.")
plan("C08", "a case is a block of strings; an evaluation is one tokenized string compared with a reference splitter; distinct: different observations of blocks",
     technique="explicit enumeration of all strings to a length over rune classes, every rune, and boundary lengths; compared with a reference splitter",
     note="All strings up to the listed length over all character classes, and every Unicode code point.")
plan("C09", "a case is a block of word sequences for one window; an evaluation is one blotted word compared with the XOR of FNV-1 hashes",
     technique="explicit-state enumeration of all word sequences to a depth for every window and interleaving, compared with a reference",
     note="All sequences to the listed depth, on new blotters and after other histories.")
plan("C10", "a case is one index or layout; an evaluation is one comparison of a query blot with the lookup; distinct: different observations",
     technique=ENUM, note="All texts over small alphabets; every blot of every shard count listed is split, joined and located.")
plan("C11", "a case is one history of additions and reopenings; an evaluation is one record read back; distinct: different observations",
     kinds=BOTH, confirm={"scale": "inst"},
     technique=ENUM, note="All add/reopen sequences to a depth at small flush rates; session sizes around the real flush rate.")
plan("C12", "a case is one set of paths added in an order with read-backs between; an evaluation is one path read back; distinct: different observations",
     technique=ENUM, note="All ordered pairs of odd paths, all small trees, sizes around encoding limits.")
plan("C13", "a case is one block of texts; an evaluation is one blot located or matched, compared with brute force; distinct: different observations",
     technique=ENUM, note="All texts over small alphabets, separators and starts; every blot of the text and others.")
plan("C14", "a case is one index content with session splits; evaluated once after each session against recomputed figures; distinct: different observations",
     kinds=["inst", "small", "plain"], confirm={"small": "plain"}, replay_re="^(?!many shards)", share={"inst": 0.8}, quick=35, confirm_s=200,
     technique=ENUM, note="All incidence relations of few documents and blots over session splits and layouts.")
plan("C15", "a case is one combination of configuration fields read from a file, passed to NewConfig or to CreateIndexer; distinct: different observations",
     kinds=["inst", "small", "plain"], confirm={"small": "plain"},
     technique=ENUM, note="All combinations of boundary values of all fields; all replacements of one configuration by another; damaged files.")
plan("C19", "a case is one full shard (65536 blots, each with its own list) written under one interleaving and one set of session cuts, and read back completely; an evaluation is one stored id compared; distinct: different observations",
     replay={"quick": 8, "thorough": 40},
     technique=ENUM, note="All list lengths and gap classes around every chunk boundary, with all listed session cuts.")
plan("C25", "a case is one file length; an evaluation is one load of a range; distinct: different observations",
     technique=ENUM, note="All ranges over boundary positions of files of boundary lengths.")
plan("C26", "a case is one filter shape; an evaluation is one membership, union or intersection compared with a set; distinct: different observations",
     kinds=["plain"], tags=["zzattic"], extra={"attic/zz_verif_export.go": "rt/export/attic.go.txt"},
     technique="explicit enumeration of all addition sequences to a depth on the real filters, compared with sets",
     note="All sequences to a depth over number alphabets for every shape listed.")
plan("C27", "a case is a block of characters or texts; an evaluation is one trigram compared with a reference",
     kinds=["plain"],
     technique="explicit enumeration of the complete trigram state space and of all token sequences to a depth, compared with a reference",
     note="Every trigram x every character (complete), every rune, all token sequences to a depth.")
plan("C28", "a case is one history; all files of the index are compared byte by byte with an independent encoder, and files from the encoder are read and appended to; distinct: different observations",
     technique=ENUM + "; the format as an independent executable model",
     note="All short histories and boundary list lengths, in both directions.")
plan("C16", "a case is one set of processes, each a sequence of sessions, explored under all schedules of their file and lock operations up to a preemption bound, or one block of operation sequences on lock files; distinct: different observations",
     kinds=["scale", "plain"], confirm={"scale": "inst"},
     technique="stateless model checking (preemption-bounded) of concurrent sessions at file and lock operations with an exclusion monitor; exhaustive operation sequences on lock files against a model of flock",
     note="All schedules of the listed session mixes with at most the stated number of preemptions at file operations; all lock operation sequences to a depth.")
plan("C17", "a case is a block of damages of an index (or one refused configuration); an evaluation is one failing open or create, after which files, locks and open handles are compared; distinct: different observations",
     kinds=["scale", "plain"], confirm={"scale": "inst"}, replay={"quick": 24, "thorough": 100},
     technique=ENUM, note="Every missing file, every truncation of the files read at opening (all lengths of the small ones), refused and unreadable configurations; all sequences of up to two failing operations, followed by a working one.")
plan("C20", "a case is one session (creating, appending or reading) with one file operation failing, once or from then on, without effect or after half a write; distinct: different outcomes",
     kinds=["scale", "inst", "plain"], confirm={"scale": "inst"}, share={"scale": 0.7, "inst": 0.6}, replay_re="without failures$",
     technique="exhaustive fault injection: every file operation of every session of an alphabet fails in turn, on the real code over a modelled file system; the outcome is compared with a reference model",
     note="Every open, read, write, seek, stat, mkdir and flock of the listed sessions fails in turn (close is not failed). Shard tables are scaled to 256 blots; a failure counts only if it happens on the unscaled build too.")
plan("C21", "a case is one session that is killed; a state is one distinct content of the files that a kill can leave, opened and queried completely; distinct: different contents",
     kinds=["scale", "plain"], confirm={"scale": "inst"}, replay_re="without a kill$",
     technique="exhaustive enumeration of crash states (all prefixes of the logged file modifications, the last write cut at every length, in the default schedule and under all schedules with a bounded number of departures from the default), on the real code over a modelled file system",
     note="Every state a kill of the process can leave, for the listed sessions; writes reach the files in the order they are made (no power loss). Shard tables are scaled to 256 blots; a failure counts only if it happens on the unscaled build too.")
plan("C33", "a case is one session that is killed or fails, followed by two that append; a state is one distinct content of the files that a kill can leave, opened for appending, appended to twice and queried completely; distinct: different outcomes",
     kinds=["scale", "plain"], confirm={"scale": "inst"}, replay_re="session (cut off before it is closed|that was killed)$",
     technique="exhaustive enumeration of crash states (all prefixes of the logged file modifications, the last write cut at every length; also of the session after a killed one) and of single failing operations, each followed by appending sessions on the real code over a modelled file system, compared with a reference",
     note="Every state a kill of the process can leave (in the middle of the blot tables: a stride), and every failing operation, for the listed sessions; writes reach the files in the order they are made (no power loss). Shard tables are scaled to 256 blots; a failure counts only if it happens on the unscaled build too.")
plan("C18", "a case is one sequence of sessions, moves, copies and changes of directory, or one pair of spellings contending for an index; distinct: different observations",
     kinds=["scale", "plain"], confirm={"scale": "inst"},
     technique=ENUM, note="All pairs of spellings for creating and appending (read by all), all pairs for holding and wanting, all sequences to a depth with moves, copies and changes of directory.")
plan("C22", "a case is one sequence of operations on an index in populated surroundings, with everything outside of the index compared after every operation; distinct: different observations",
     kinds=["scale", "plain"], confirm={"scale": "inst"}, drop=True, replay={"quick": 30, "thorough": 200},
     technique=ENUM, note="All sequences of writes, reads and removals to a depth; all sets of foreign files and links in the index.")
plan("C23", "a case is one directory tree with one or several runs of the built command on it; an evaluation is one blot of the resulting index compared with what the tree holds; distinct: different observations",
     kinds=["small", "plain"], confirm={"small": "plain"}, quick=33, dupi=True, drop=True, replay={"quick": 24, "thorough": 300},
     technique="explicit enumeration of all small directory trees, spellings, flags and sequences of runs, on the real command and real files, compared with a reference",
     note="All directories of up to 3 (thorough: 4) entries over 18 kinds of entries, alone and below others; all sequences of up to 3 runs.")
plan("C24", "a case is one set of indexed files and queried files with all query commands run on them; an evaluation is one output compared with a reference; distinct: different observations",
     kinds=["small", "plain"], confirm={"small": "plain"}, quick=33, dupi=True, drop=True, replay={"quick": 24, "thorough": 300},
     technique="explicit enumeration of all small sets of files over a vocabulary, with every query command and flag, on the real command and real files, compared with a reference",
     note="All pairs of short texts, all multisets of up to 4 files with every cut-off, odd files.")

plan("C29", "a case is one way to name the index (flag, variable, home) with all verbs, one damaged index with all commands, one refused command line, or one configuration file; an evaluation is one command run and compared; distinct: different observations",
     kinds=["small", "plain"], confirm={"small": "plain"}, dupi=True, drop=True, replay={"quick": 12, "thorough": 300},
     technique="explicit enumeration of all combinations of flag, environment and home with all verbs, of bad indexes and refused command lines, on the real command and real files, compared with a reference",
     note="All combinations of the ways to name an index (including the names of verbs), with indexes at all other places; all verbs on bad indexes; all listed refused command lines; all listed configuration files.")

plan("C35", "a case is one query command on one index, run once for each number of bytes its output takes before it fails; an evaluation is one such run; distinct: different lengths of output",
     kinds=["small", "plain"], confirm={"small": "plain"}, dupi=True, drop=True, replay={"quick": 8, "thorough": 60},
     technique="exhaustive fault injection: every point at which the output of the real command can fail, with the last write cut short or refused, on real files",
     note="Every number of bytes the output takes, for all query commands and flags on the listed indexes. The output is a file that cannot grow beyond a size; other kinds of failing outputs only fail from the start.")

plan("C30", "a case is one file of messages, indexed and printed, or one file or command line that is refused; an evaluation is one lookup or printed part compared; distinct: different observations",
     kinds=["small", "plain"], confirm={"small": "plain"}, dupi="dupenron", drop=True, replay={"quick": 24, "thorough": 300},
     technique="explicit enumeration of all short files of messages over an alphabet of message kinds, on the real command and real files, compared with a reference",
     note="All sequences of up to 3 messages of 10 kinds, in 4 configurations; refused files and command lines.")

plan("C31", "a case is one sequence of sessions, one session under all schedules, or one session with a failing file operation; after every session the open files, the locks and the goroutines are counted; distinct: different observations",
     kinds=["scale", "plain"], confirm={"scale": "inst"}, replay_re="^sessions ", replay={"quick": 24, "thorough": 200},
     technique=ENUM + "; exhaustive fault injection; stateless model checking (DPOR) of short sessions",
     note="All sequences of sessions to a depth, every failing file operation of the sessions listed, all schedules of short sessions; after each the process holds no file, lock or goroutine.")

plan("C32", "a case is a block of changed files of one index; an evaluation is one changed file, with the index read completely, appended to, and read again; distinct: different observations of blocks",
     kinds=BOTH, confirm={"scale": "inst"}, replay_re="(dmd|files.fnm|pos), block", replay={"quick": 16, "thorough": 100},
     technique="exhaustive enumeration of single damages (bytes, lengths, and all numbers of the format) of small indexes, on the real code in a modelled environment",
     note="All single-byte changes over a set of values, all cuts, and all replacements of the numbers of the format by a list of values, of the indexes listed; not several damages at once.")
