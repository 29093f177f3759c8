"""Writes DESIGN.md: the text below plus tables made from seeded/ and known_findings.txt."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = r'''# Model checking ojmakhura/hdbscan

Technique: bounded exhaustive exploration of the real, compiled code (stateless
model checking of the implementation; for threads, explicit-state exploration
under a scheduler of our own). Every check compiles the library from `/repo`'s
working tree (flags of the project plus AddressSanitizer and
pattern-initialised automatics, asserts on), enumerates *every* element of a
stated finite space (data sets x minPts, operation histories up to a depth,
allocation-failure points, thread schedules, message sequences), and after every
step compares what the public interface shows with an explicit-state reference
model. There is no sampling and no random choice anywhere; a family that is cut
by the time budget makes the evidence say `exhaustive: false`.

The model is bound to the code by construction: each explored model trace is
executed on the implementation and the two are compared after every step, so
`traces_validated_against_impl` is the number of explored traces, not a sample
of them. `states` counts distinct states (hash of the observed contents),
`transitions` the steps executed.

Why this reaches what tests cannot: the repository's stable tests touch the
containers only, with one history each. The guarantees below quantify over tie
patterns, arrival orders, histories, failure points, schedules, shapes and type
configurations; bugs live in particular combinations. Small scopes contain them:
all tie patterns of a clustering run occur with a handful of points, all
boundary relations of a container within a handful of operations. The
complementary families ("sizes", "periodic") enumerate the places where narrow
integers, growth factors and buffers change behaviour, because these do not
show in small scopes.

## Machinery

* `harness/explore.hpp` - explorer: families of cases addressed by an index,
  split over 8 forked workers; crash, sanitizer report, failed assertion or
  hang is attributed to the case; every candidate violation is replayed alone in
  a fresh process before it is reported, so a report always comes with an input
  that reproduces it; distinct-state count; coverage JSON.
* `harness/sut.c/.h/.hpp` - the C API flattened to doubles so that one explorer
  drives every build configuration; live-allocation tracking of everything
  allocated in library calls (leaks are part of most properties).
* `harness/datasets.hpp` - the enumerated data sets: full grids in 1-3
  dimensions, all gap sequences on a line in several point orders, all weight
  matrices realised exactly as Euclidean distances, block compositions, exact
  stability ties, sizes around 128/256/... (names with bounds appear in each
  evidence file). `harness/model.hpp` - the reference model (component
  decomposition level by level, minimum spanning weight, maximum-stability
  antichain, GLOSH), written from the definitions, not from the code.
* `harness/coop.hpp/.cpp/coop_cpp.cpp` - the controlled scheduler (C10, below).
* `lib/build.py` - builds any configuration (18 type combinations, debug) and
  instrumentation from `/repo`'s sources, found by globbing; objects are cached
  by content hash under `build/` (git-ignored). The harness uses only functions
  the public headers declare, so helpers may be added, split, renamed or made
  static without touching the checks.
* `lib/checks.py`, `bin/check <ID>` - one function per property; verdict,
  evidence and replay file. `VERIF_TIER=thorough` or `--thorough` deepens the
  bounds, `VERIF_REPO=dir` checks another tree, `VERIF_KEEP=1` keeps the build.
* `tools/` - generators of `properties.jsonl`, `MANIFEST.json` and this file.

Effects on the system: explorers write only in scratch directories under
`build/<ID>.*` that are removed at the end; nothing under test deletes files.

No hooks are needed in `/repo` (MANIFEST `hooks` is empty): what has to be
observed is either public or seen through compiler instrumentation
(`-fsanitize=address`, `-fsanitize=thread` with our own callbacks) and link-time
wrapping of `malloc`, `memcpy`, ... in the harness.

## Per property: what is enumerated, against what oracle

Times are of the quick tier on the idle 8-core sandbox. Evidence files list every
family with its bounds and counts. "Runs" below are the pipeline families: grids
(n <= 6 in 1-D over 4 values, n <= 5 in 2-D), gap sequences up to 12 points, all
4-point matrices over 4 weights and 5-point over 2, blocks, ties, sizes to 1030 (2050 for C02, C03; thorough 4100)
points - 161 231 runs.

'''
PROPS = [
("C01", "29 s", "Every data set over boundary values of each of the six element types for shapes up to 6 x 1, 2 x 3, 3 x 2, 1 x 4, plus all shapes up to 36 x 12 in three patterns, both layouts. Oracle: long double arithmetic on the elements as given. Every pair, both orders, diagonal, before and after a rerun; the input buffer has its exact size, so reads beyond it are reported. Not judged: squares that overflow or underflow double."),
("C02", "12 s", "Runs; core distances against a sort of the full multiset of distances (self included) for every point; largest number if minPts exceeds n."),
("C03", "14 s", "Runs; spanning (union-find), acyclic, each edge carries the mutual reachability of its ends, total equals an independent Prim, exactly one self edge per point with its core distance, weights non-decreasing. Takes core distances from the library (C02)."),
("C04", "28 s", "Runs; every level compared with the component decomposition of the mutual reachability graph at that weight: a bijection between non-zero labels and components alive, noise = points that fell out, labels persist while a component only loses noise, fresh ones on a split; the set of levels itself."),
("C05", "31 s", "Runs; every record of the cluster tree (parent, birth, death, size, offset, stability at 1e-9, children flag, virtual child) against the reference tree."),
("C06", "33 s", "Runs; maximum total stability over all antichains by dynamic programming; ties between a cluster and its descendants are decided exactly on the dyadic families (all reciprocals exact), elsewhere either choice within 1e-9 is accepted. Labels of every point from the selected antichain."),
("C07", "30 s", "Runs; GLOSH score from the reference tree at 1e-12, in [0,1], list sorted by score then core distance then point; and the order function itself on all 57 600 pairs of 240 scores."),
("C08", "46-70 s", "Runs plus duplicate-rich compositions, run and rerun; warning text on standard output, return value of a further propagation step, infinite stabilities in the tree: all three or none, and exactly when the reference tree has an infinite stability."),
("C09", "106 s", "Every word of 5 operations on one handle (run with data sets of several sizes, types and layouts, rerun with several minPts, clean; allocated handle or caller's memory) and all interleavings of 3 on two handles; after every operation the complete contents equal those of a fresh handle given the same run, allocations balance when the handle is destroyed; size changes between all ordered pairs of 8 sizes up to 300."),
("C10", "90 s", "See 'Threads' below."),
("C11", "43 s", "Small data sets x all permutations (up to 5 points; above that transpositions, rotations, reversal, riffle), translations, mirrors, column permutations and duplications, scalings by powers of two; results mapped back must agree: distances, core distances, spanning weights, levels, partitions, scores. Flat labels are not compared where the model sees stabilities tie."),
("C12", "25 s", "All 18 combinations of label, index and distance types loaded side by side; every data set of the families through all of them, run, rerun, maps, statistics, sorting; every label array over the boundary values of each label type. Float configurations are compared at 3e-6; a stability tie within 1e-4 may fall either way."),
("C13", "7-13 s", "Every label array up to the listed lengths over small alphabets with every sub-range begin..end, long periodic arrays; the map must be the exact partition in ascending order, every key found; allocations balance."),
("C14", "7-13 s", "Every data set of small families x every labelling (or partitions for larger ones): smallest non-zero and largest core and pairwise distances by brute force."),
("C15", "7-13 s", "Every tuple of ranges over an alphabet (zero, equal, extreme) x prior contents of the result object; mean, deviation, variance, maximum, skewness, kurtosis and both confidences from the definitions in long double; the judgement over every sign pattern of its inputs, including not-a-number."),
("C16", "7-13 s", "Every key sequence of the listed lengths over small alphabets and every order of the list given, or none, and every sub-range: result is a permutation in the required order; long periodic sequences for depth and stack use."),
("C17", "13 s", "Runs, and hand-made maps, statistics, graphs, hierarchies and scores with every pair of extreme magnitudes in every pair of fields, level numbers to 2^53, 0-4096 levels x 0-5000 points, every export name length: the numbers in the text (at the precision shown) are the stored ones, in order, and the exported files match; no overrun (AddressSanitizer)."),
("C18", "19 s", "Every multigraph over few vertices, every weight sequence, every sort range, every order of removals: edge list and all adjacency lists against a model after each operation."),
("C19", "21 s", "Every tree shape to 5 clusters x level layouts x detachment sequences x virtual-child words x constraint counts: propagation results, parents' accumulations, lowest death levels."),
("C20", "35 s", "Every word of list operations to the listed depth over several element types and initial capacities, and periodic long words; content, size and order compared after each operation."),
("C21", "35 s", "As C20 for sets, against a sorted duplicate-free model."),
("C22", "35 s", "As C20 for hash tables over key types, bucket counts and colliding keys, against a finite map."),
("C23", "35 s", "As C20 for linked lists, from both ends, every ordered pair of removals of 7 elements, sizes to 70 000."),
("C24", "3 s", "Every argument -5..200 000 and the extremes, against a sieve. find_prime_less_than(x <= 3) = 3 is what the code documents."),
("C25", "7 s", "All triples over boundary values of each comparator (antisymmetry, transitivity, agreement with equality), every key x bucket count for each hash (range, equality)."),
("C26", "3 s", "Every history of the listed depth x every allocation that can fail first x 1, 2, 3 or all later ones failing: the container is as before the failing call or as after it, never in between, and works on afterwards."),
("C27", "25 s", "The real extension module in the real interpreter under AddressSanitizer: every word of calls to depth 4 on one object and 3 on two (core calls 4), every element type x memory layout x value tuple, one invalid call at every place of every word, objects without __init__, limits of integers; results against the C API through a reference library; references and memory balance. Thorough: other type configurations."),
("C28", "20 s", "The real JNI library in the real JVM under AddressSanitizer: every word of calls to depth 5 on one object and 3 on two, invalid calls at every place, sizes; against the C API. Thorough: other type configurations."),
("C29", "40 s", "Every data set of small families through both interfaces, every word of 4 operations on one C++ object and 3 on two; layout of every shared structure; the free functions (maps, statistics, sorting, printing) over hand-made maps and key sequences."),
("C30", "45-130 s", "The address of the cell that is read and written for every pair, by instrumenting every access: distinct, inside the matrix, and the same for reading and writing; every n to 400 and n = 92 683 (where 32-bit cell numbers wrap; 65 535 for short indices), for two index types. The matrix of the large case is address space only, so its 34 GB need not exist."),
("C31", "81 s", "All data sets of 1-5 points over extreme values of six types x minPts, one and two columns, identical and two-valued sets to larger n: success, one label and score per point, all noise below minPts points, no memory error."),
("C32", "45 s", "Runs; on one handle the steps of a run are called one by one with full, compact, compact and full hierarchy, then rerun; also full and compact on handles set up by hand. The significant levels are derived from the full hierarchy (births cross-checked between offsets and the rows that first show a label); everything must agree bit by bit."),
("C33", "12 s", "Ordinary and debug build loaded side by side: every sequence of 1-2 (thorough 3) messages over 5 types x 8 texts (empty, format characters, control and non-ASCII bytes, 70 000 characters), every history of open, close and write to length 7 (9) with 4 earlier file contents, every length to 600 and around powers of two, the clock at every day boundary of several months and all limits; every data set of small families through both builds with all printing and exports compared."),
("C34", "20 s", "Every history of up to 4 (thorough 5) operations over exports of three hierarchies (3, 9, 40 points) to two names, an export without any file descriptor left, one to a missing directory, one without a name, and obstacles: a directory in place of either file, either file on a full disk, longer other contents, removal. After every export the whole directory equals a small model of it, byte for byte; a hierarchy whose file could not be created is on standard output; descriptors, memory and the handle are as before."),
("C35", "40 s", "Data sets (1-4 points x 1-3 columns in 16 patterns, 12 shapes to 300 points in 6 patterns incl. negative zeros and large magnitudes, 6 types, both layouts) in pages that cannot be written, flush with the start or the end of the pages, between unmapped pages; the pages become inaccessible when the run returns, then rerun, a second run and rerun: results equal those from ordinary memory, any write or later read is a fault. Every word of 3 (thorough 4) queries over 15 kinds (maps, ranges, statistics, validity, sorts, all prints) on 4 data sets: after every query the handle, both maps and the statistics are compared with what they were, memory balances, and a repeated query gives the same answer."),
("C36", "30 s", "Two and three (thorough: four) threads under the scheduler of C10, all ordered pairs, triples and quadruples of 16 scripts: handles in C (4 element types; run, queries, rerun, clean, second run), with printing and export, step by step with compact hierarchy; C++ objects; lists and sets; tables, linked lists and primes; graphs and cluster trees. And two or three (thorough: five) threads asking or printing one handle. Every access is watched; when no byte is shared by two threads with a write, and no lock guards common data, all interleavings are equivalent to the one run (on the unchanged tree this is so for all 4472 groups); otherwise the conflicting accesses become switch points and schedules are enumerated with 0, 1, 2 deviations, then all. Each thread's results and output must equal those of the same script run alone."),
]
TAIL = r'''
## Threads (C10)

The library is compiled at -O0 with ThreadSanitizer instrumentation whose
callbacks are ours, and linked against our own implementation of the GOMP/omp
entry points: the threads of a parallel region are coroutines on one OS thread,
and every access, allocation and synchronisation passes through the scheduler.
All memory lives at fixed addresses with one bump arena per thread, never reused
within a run, so states can be compared and replayed; out-of-bounds accesses,
uses after free, deadlocks and crashes are reported with their schedule.

Switch points are synchronisation operations plus every access to a byte on which
two threads conflict without a common lock; this set is found by watching all
accesses and grown to a fixpoint (a region is started again when a new conflict
appears). Per parallel region: all schedules with 0 and 1 deviations from the
default order are always explored; then the whole state graph (state = stacks,
arenas, thread-local data, touched globals, scheduler; visited states are pruned)
up to a limit; if the limit is passed, all schedules with 2, 3, ... deviations as
far as the limit goes. The other regions of the same run go under three fixed
orders (forward, reverse, rotating). Teams of 2 to 7. Oracle: the complete
contents after a one-thread run (1e-9 relative for sums). Quick: 2614 region
instances, 1.2 million states, 22 million transitions, about 90 s. With the
changes of the C10 seeds and nine further planted races (missing critical
sections, shared temporaries, reductions, atomic removed) all observable ones are
reported; the ninth writes the same value from all threads.

Limits: sequentially consistent memory; one region explored at a time.

## Corners deliberately not claimed

* string and pointer hash keys' order; hash of NaN; order of NaN confidences;
* `cluster_virtual_child_contains_point` after release; detaching more points than
  a cluster has; `constraint_init`; parallel self edges added by hand;
* statistics of an empty distance map; sums that overflow;
* short indices with more than 32 768 points; id differences beyond 2^31 in
  `outlier_score_compare`;
* C++ methods declared but not defined; running out of memory inside a run (the
  code does not handle it; C26 covers the containers); the cuda module (no
  compiler here); `logger_write` from several threads (localtime);
* `propagateTree` twice appends descendants twice (C08 uses only its return value).

## False alarms met, and what was corrected

* C27: the enumerated numpy layouts included ones whose meaning is the caller's
  (negative strides of a sub-array) - the oracle now reads what numpy defines.
* C23: index model of a big deque was stale after removals - model corrected.
* C19: the harness' own vector was counted as a leak - counted outside now.
* C18: a hang was the harness' allocation tracker overflowing, and the sort being
  quadratic on sorted input of 70 000 edges - tracker fixed, sizes bounded.
* C17: 65 536 levels made the harness quadratic - bounded at 4096.
* C09: contents were read without distances on one side - both sides read all.
* C30, C10: the library using `omp atomic` failed to link (rc 2) - the callbacks
  for atomics and the wrapped memory functions are complete now.

Behaviour-preserving refactorings tried (helpers extracted, loops rewritten,
statements reordered, static helpers, renamed locals, memcpy for loops, atomics
for critical sections) over distance.c, hdbscan.c, the collections, utils,
cluster, graph, C++, Python and Java code: all checks stay quiet.

'''
def main():
    o = [HEAD]
    for i, t, s in PROPS:
        title = next(json.loads(l)["title"] for l in open(V + "/properties.jsonl") if json.loads(l)["id"] == i)
        o.append("### %s %s (%s)\n\n%s\n\n" % (i, title, t, s))
    o.append(TAIL)
    o.append("## Planted bugs (`seeded/`) and the checks that catch them\n\nEach is caught by the check of its own property (`VIOLATION property=<id>`).\n\n| id | needs | breaks |\n|---|---|---|\n")
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(d)); c = lambda x: re.sub(r"[|\n]", " ", x or "")
        o.append("| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), c(m["needs"]), c(m["what_it_breaks"])))
    o.append("\n## Genuine defects found and repaired in `/repo` (`fix:` commits)\n\nNo defect is left recorded but unrepaired (`known_findings.txt` has no `known:` line).\n\n")
    for l in open(V + "/known_findings.txt"):
        m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
        if m: o.append("* %s `%s` %s\n" % m.groups())
    open(V + "/DESIGN.md", "w").write("".join(o))
main()
