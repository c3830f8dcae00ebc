"""Writes DESIGN.md from the tables of checks and properties; the head up to 'Per property' is kept."""
import json,os,glob,subprocess
head = open('/verif/DESIGN.md').read().split('## How verdicts')[0]
body = r'''## How verdicts are kept sound

* Case k is a function of (seed, k): reports replay with `run_check.py --replay FILE`.
* A crash or sanitizer report is attributed to the case that was running, and is run again alone; a hang is a
  case that makes no progress for `hang_s`.
* Nothing is decided by wall clock, file timestamps, addresses or the order in which threads finish.
* Where the code rounds, oracles sum in long double and allow the rounding of the code's own formula
  (`splitref.h` derives the allowance of a gain from the sums of its two sides). Where two answers are equally good
  (equal gains), both are accepted, and only there.
* Statistical oracles (C13, C19) use exact variances and about seven standard errors, over at most some 10^5 tests a
  run: a false alarm has a probability below 1e-6 a run.
* Each check states what it must have seen at least (`require` in lib/checks.py: counts of events, and numbers of
  distinct states); with less it is inconclusive, not quiet.
* Differences that the property allows are not compared: text of messages, order of keys in JSON, number of buckets
  beyond the stated bounds, internal names.

## Per property

For each: what is monitored and against what; the workload and its bounds; why this sees what the tests cannot.
"q" and "t" are the numbers of cases of the quick and thorough tiers.

'''
import sys
sys.path.insert(0,'/verif/lib')
import checks
props={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
TXT = {
'C01': '''Oracle: the cells the generator wrote, kept apart from the text of the file. Every requested column is compared
cell by cell (strings byte for byte, floats bit for bit with strtof's value), and every injected error by its status code.
The tests read three hand-written files; here block boundaries fall anywhere, blocks may be empty, unterminated or mix
line ends, and a column may be asked for in two roles.''',
'C02': '''Oracle: the raw values. All rows: missing exactly when NaN, enclosed by their bucket's bounds, order and equality
preserved over the sorted rows, buckets disjoint, losslessness within the budget, bounded bucket counts and shares.
Values come in pieces of any size, also after the buckets are fixed. Bounds: up to some 70000 rows, budgets 1 to 70000.
The number of buckets is judged as "at most about twice the budget plus a constant", so another binning rule passes.''',
'C03': '''Oracle: the stored strings. Every row read back, the codes checked dense and one-to-one, lookups of present, absent and
missing strings; each run crosses 256 and 65536 distinct strings by a few, where the code width changes.''',
'C04': '''Oracle: a model (map of name to column and size), stepped with the same operations. After every step the whole
visible state (lookups of every name and type, listings, counts, description) is compared.''',
'C05': '''Oracle: the lines written. Several threads look up the same columns in lockstep or at random; every thread compares
identity and re-reads the content of what it got at the end, so that a column freed or loaded twice is seen by ASan or by
address; the same under TSan.''',
'C06': '''Oracle: an own interpreter of trees over raw values (ref.h). Thresholds at, above and below data values by one ulp, infinite
thresholds, missing on either side, categories unseen in the table; scores are compared with the sum in the same order in
double, within the rounding of float leaves. The same rows are scored again permuted, as a subset, with other thread counts, and
a trained model on other tables where its categories have other codes.''',
'C07': '''Oracle: own prefix sums. The directory is listed: exactly the expected files, exactly one line a row, each number equal up to
the digits printed. Checkpoints are derived from configurations (compared with an own list) or arbitrary.''',
'C08': '''Oracle: byte equality of the wire form before and after. Random bit patterns for every number, odd strings; the texts
that must be refused are derived from valid ones by truncation, unknown fields, wrong types and junk. Known finding: trees
deeper than 62 splits cannot be written (a limit of the protobuf converter), which is reported as an error.''',
'C09': '''Oracle: all divisions of the column enumerated from the raw values with sums in long double; for categories the
order of scores, and without limits all subsets of up to 11 categories. Half the gradients are exactly representable with few bits, so that
equality is exact there. Also: the split's own claim (gain, hessians, what Partition then does) is recomputed.''',
'C10': '''Oracle: replay of the returned tree. Every node's rows are derived from the raw values, its score and gain recomputed; the
best gain of every node is found by enumeration over all features; the growth order is replayed best-first, with ties
accepted in any order.''',
'C11': '''A decorating loss records each call's scores and returns the derivatives of the real loss (or of a script). From the
returned model and the raw rows the scores at each call are recomputed: constant, base model, shrinkage, sampling of rows;
divergence must be reported exactly when the scores of the model can have left the range of floats.''',
'C12': '''Oracle: own derivatives in long double at the same scores; own Newton iteration for the constant, with the
documented stopping rule; loss values as weighted means; equal results across thread counts up to rounding. Scores at scales up
to 1e5, one-sided targets, weights with zeros, tables up to several times a slice, loss functions initialized a second time on other data.''',
'C13': '''Oracle: enumeration of all ordered pairs. Where draws are forced (one pair, or equal contributions) sums are exact;
elsewhere z-tests of the row sums with exact variances, and chi-square on drawn pairs. Ranks, discounts (also beyond the 100
precomputed ones), weights, missing groups, absent partners, refusal of bad requests, and the reported progress are exact. Also: up to 80000 groups at once, a row against
rankings of up to 5000 others (every gradient must be a whole number of draws), and loss functions used again on other data.''',
'C14': '''The same job is trained again from another kind of store, after other work, with random delays put before every
mutex lock (link-time wrap) and inside callbacks made by workers; models are compared bit for bit. With another number of threads:
trees equal up to near-ties. The number of distinct interleavings (which thread evaluated which rows, in what order) is reported.''',
'C15': '''The sanitizers are the oracle (ASan, UBSan including float-cast-overflow and integer division, libstdc++ assertions; memcheck for uninitialized
reads). The harness adds that what is accepted is finite and readable, and that failed loads give back their memory. Workloads:
extreme values everywhere, damaged tables, models and configurations by byte and by structure.''',
'C16': '''ThreadSanitizer is the oracle. Happens-before detection needs the two accesses to run, not to collide, so the workload aims
at having every parallel section executed by several threads: enough rows, groups, features and blocks, lazy loading by workers, delays.
The counters show sections really ran on several threads (`spread`, `lazy_parallel`).''',
'C17': '''Oracle: the log the tasks write. Each task exactly once, start order equal to enqueue order for one enqueuer, concurrency
within the width, all done when the destructor returns, effects visible (plain variables read after the join, TSan watching);
a hang of the destructor is caught by the watchdog and reported.''',
'C18': '''The real tool is run. Its files are judged by an own reader of models and interpreter of trees, over the table in
any of four forms; repeated commands give the same bytes; 79 kinds of single mistakes (flags, configuration, data, model) must exit non-zero and
leave no new file. Exit by signal counts as a crash. The tables of examples/ are trained on with every loss, from three forms, and
the rows kept back must be ranked well (a coarse floor on the area under the curve, far below what is observed).''',
'C19': '''Oracle: exact requirements per call (increasing, range, all at rate 1, same after reseeding, contiguous groups within one of
each other) and binomial statistics per position, pair and total over batches.''',
'C20': '''Oracle: sums over an own walk of the model, in double, compared within float rounding; order descending; names exact.''',
'C21': '''Histories over several stores and held columns are stepped against Python lists, inside a CPython with the package built
under ASan+UBSan (leak checking off, as CPython keeps memory). Trainings are compared with the command-line tool and with an own model
interpreter; about 60 kinds of wrong requests must raise and leave everything usable. After training on a store that stands in a ragged
state (column freed, store dropped) nothing may touch freed memory. Models too deep for a text form must raise or be whole.''',
'C22': '''A limit on file sizes (RLIMIT_FSIZE) cuts each output at every byte (small score files) or at first, last, buffer and random
bytes; a preloaded shim makes the n-th write or the close fail or fall short; /dev/full, directories and dangling links stand in the
way. Models too deep for a text form are trained too. Success status while a file is not whole is the violation; faults that were not delivered are counted apart.''',
'C23': '''Oracle: an own validity predicate over the request. All fields at their boundaries singly and in combination; the
verdict must be the same, and accepted requests return the number of trees asked for.''',
'C24': '''Metamorphic: two trainings compared node by node over the rows they share. Divisions may differ only where recorded gains
are equal up to rounding; from the second tree on a rate of such near-ties is tolerated.''',
'C25': '''Recording stand-ins for pandas, graphviz and matplotlib (which are not installed) take the calls of the helpers. Oracle: the
frame's values by declared type; an own walk of the model (nodes, edges, order, labels); own sums of score differences. The caller's
frame and values are compared before and after.''',
'C26': '''Every operator new and delete is counted (live, peak). Live bytes per column are compared with codes of the
right width plus the distinct values, with slack for containers; growth across repeated work must vanish; the peak above the
model during training must not grow with the number of trees.''',
'C27': '''Each call's result alone is recorded as text; then 2-5 callers make the same calls at once, each compared with its
result alone; also under TSan. Columns are loaded first (`num_rows` of a lazily loading store is not synchronized, and the property
says so), and only one training runs at a time, because the sampling generator is one per process.''',
'C28': '''The scripts are Python 2, and there is no Python 2 here: lib/py2.py runs them under Python 3 with the Python 2 meaning of
print statements, integer division, .next() and the like (a script that is Python 3 runs as it is). Oracle: own conversion, RMSE,
metrics by group and reader of DOT; for conversion and bagging also the tool itself (the same model from table and files; a bag's
model is the one trained with its weights). `dot` is a recording stand-in.''',
}
out=[]
for k in sorted(TXT):
    c=checks.CHECKS[k]
    out.append('### %s %s\n' % (k, props[k]['title']))
    out.append(TXT[k].strip()+'\n')
    for s in c['stages']:
        out.append('- `%s`%s: q %d, t %d' % (s.get('harness') or s.get('py'), ' under '+('valgrind memcheck' if s.get('valgrind') else {'asan':'ASan+UBSan','tsan':'TSan','plain':'no sanitizer'}[s['flavour']]), s['quick'], s['thorough']))
    out.append('- Beyond the tests: '+props[k]['why_tests_cant'])
    if c['assumptions']: out.append('- Assumes: '+' '.join(c['assumptions']))
    out.append('')
body += '\n'.join(out)
body += r'''
## Not applicable

No property is given up. What this family cannot do here: it decides the executions that ran. Schedules come from the system
and injected delays, not from enumeration; statistical properties hold down to a resolution; "for every input" is
approached by generators aimed at the boundaries of the code. Each manifest entry says so.

Not covered: `examples/` (Python 2 programs over sklearn and notebooks); weights of a bagged configuration, which bagging
replaces; the rendering of plots and drawings (the libraries are absent; their calls are judged); speed.

## Defects found and repaired

All `fix:` commits, one line each in KNOWN_FINDINGS.txt. Those with the widest effect: the pair sampling of ranking losses
shared one generator among threads (race, not reproducible; 83679d0); precomputed LambdaMART discounts were all zero (d97c30e);
thresholds between neighboring or huge values did not separate them (7f74573) and values with cancelling gradients were left out of
the split search (4652adb); a constant was counted twice for tiny targets (e840187); diverged models were returned with infinite
scores (32162d3); truncated outputs passed for complete ones (f3bac7f); Python columns dangled when stores went away (b004af2);
the converter script declared a column type the tool refuses, and bagging wrote a configuration it refuses (C28);
flat-file columns loaded by two threads were freed under one (fce29f2); rows with a missing group were written out of bounds (10b64b2).

Recorded, not repaired: **C08 deep-tree**. The JSON converter of protobuf refuses nesting beyond 100 levels or so, which a tree of more than 62
splits in a chain exceeds. Writing reports an error; a repair would be another file format.

Remark, no finding: for pairwise losses with infinite targets, NaN node scores can reach the comparator of `std::sort` in
`Histogram::SortOnNodeScore`. That breaks the comparator's contract by the letter; no execution observed (ASan, libstdc++
assertions) showed an effect, and the split is refused afterwards.

## False alarms met and corrected

* C21 demanded the same trees from Python and the tool even with feature sampling or tied splits, where the order of the features
  decides: the property now says so, and the check compares predictions there.
* C21, C14: repeats compared across different thread counts: bit identity is only promised for the same count.
* C24: near-ties after the first tree (stored scores are rounded); a rate is judged there, the first tree strictly.
* C24/C12: the constant is only searched to within 1e-4, whatever the scale of targets; allowed for.
* C09/C10: categories with equal scores can be ordered either way; cancelling sums leave order open; the rounding allowance
  is derived from the sums, not from the gain.
* C11: divergence is expected from what the model's floats can hold, not from the loss reported.
* C07: printed digits were compared as numbers at full precision; now up to the digits printed.
* C13: discounts of long rankings are computed from single-precision logarithms; the tolerance follows from that, and rows whose
  discounts are too close to tell are counted apart.
* C18: the floor on the area under the curve was first set at what LambdaMART happens not to reach on the flight data.
* C26: limits of narrow codes are not judged within one value of the boundary, as the missing code may or may not count.

## Planted bugs

Each was written from a property and the code, confirmed (builds, stable tests pass, demo separates) and run against the checks.

| id | property | needs | caught by |
|---|---|---|---|
'''
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=d.split('/')[-2]
    body += '| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'].replace('|','/'), m.get('caught_by', m['property']))
body += open('/verif/tools/design_tail.md').read() if os.path.exists('/verif/tools/design_tail.md') else ''
open('/verif/DESIGN.md','w').write(head+body)
