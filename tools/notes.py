
NOTES.update({
 "C01": (T, "all data sets over boundary values of six element types for small shapes, every shape of a sweep, both layouts; every pair of points, before and after a rerun"),
 "C08": (T, "as C02 plus duplicate-rich compositions; captured text and return value against the reference tree"),
 "C09": (H, "all words of handle operations to depth 5 (two handles: 3 after the first runs), contents compared with a fresh handle after every operation, allocations balanced"),
 "C11": (T, "all permutations of up to 5 points, transpositions/rotations/reversal/riffle above, translations, mirrors, column changes, scalings by powers of two, over listed data families"),
 "C20": (H, "all words over the array-list operations to the listed depths and element sizes, plus periodic long histories"),
 "C21": (H, "all words over the set operations to the listed depths, all element types"),
 "C22": (H, "all words over the hash-table operations to the listed depths, key types and bucket counts"),
 "C23": (H, "all words over the linked-list operations to the listed depths"),
 "C24": (T, "every argument of the listed ranges, boundaries of every table entry"),
 "C25": (T, "all triples over boundary values of every comparator, all keys x bucket counts of every hash"),
 "C26": (H, "every history of the listed depths x every position of the first failing allocation x failure durations"),
 "C31": (T, "all data sets over extreme values of six element types x minPts, identical and two-valued sets up to larger n"),
 "C13": (T, "every label array of the listed lengths and alphabets x every sub-range, plus periodic long arrays"),
 "C14": (T, "every data set of the listed families x every labeling or listed partition, brute-force minima and maxima"),
 "C15": (T, "every tuple of ranges over an alphabet x prior contents of the result, every sign pattern of the judgement"),
 "C16": (T, "every key sequence of the listed lengths and alphabets, every range, plus periodic long sequences"),
 "C17": (T, "every run of the listed families, every magnitude pair in every printed field, every export name length; the numbers shown against the stored ones"),
 "C18": (H, "every graph of the listed sizes, weight sequences, sort ranges and removal orders; all adjacency lists compared after every operation"),
 "C19": (H, "every tree shape, level layout, detachment sequence and virtual-child word of the listed sizes"),
})
NOTES["C30"] = (T, "every pair of every n to 400 and of n = 92683 (where 32-bit cell numbers wrap; 65535 for short indices); the address of the cell read and of the cell written is observed for each pair")
NOTES["C12"] = (T, "all 18 configurations loaded side by side, every data set of the listed families, every label array over the boundary values of each label type")
NOTES["C29"] = (H, "every data set of the listed families through both interfaces, every word of operations of the listed depths on one and two objects, the offset of every field the C++ declarations expose")
NOTES["C27"] = (H, "every word of calls to depth 4 on one object and 3 on two (core calls deeper), every element type x memory layout x value tuple, one invalid call at every place of every word; run inside the Python interpreter under the address sanitizer")
NOTES["C28"] = (H, "every word of calls to depth 5 on one object and 3 on two (core calls 4), every data set over four values for small shapes, one invalid call at every place of every word; run inside the JVM under the address sanitizer")
NOTES["C10"] = (T, "the threads of every parallel region run under a scheduler of our own; every schedule is explored (states of the whole program are compared, so a state is entered once) where the limit allows, else every schedule with at most 2 deviations from the default order; accesses to bytes two threads conflict on are the switch points and are found by watching every access")
NOTES["C32"] = (H, "every data set and minPts of the pipeline families x the sequence full, compact, compact, full, rerun of stepwise passes over one handle, and both kinds on handles set up by hand; every level, record, label and score compared with the run")
NOTES["C33"] = (H, "every sequence of two messages (thorough: three) over 5 types x 8 texts, every history of opening, writing and closing to length 7 (9), every length to 600 and around powers of two, every day boundary; every data set of small families through an ordinary and a debug build side by side")
NOTES["C34"] = (H, "every history to length 4 (thorough 5) over exports of three hierarchies to two names, without descriptors, to a missing directory, and obstacles (directory in place, full disk, other contents) in place of either file; the whole directory, standard output, descriptors and memory examined after every export")
NOTES["C36"] = (T, "two and three threads of the program, each with a script of its own on its own objects (all pairs and triples of 16 scripts) or all on one handle, under the scheduler of C10: bytes two threads conflict on and locks that guard common data are the switch points and found by watching every access; where there are none the one order run stands for all, otherwise schedules are enumerated as for C10; results and output of each thread compared with those it gets alone")
NOTES["C35"] = (H, "every data set of the listed shapes and value patterns x 6 types x 2 layouts in pages that cannot be written (at either end, between unmapped pages) and that vanish after the run, then rerun and second run; every word of 3 queries (thorough 4) over 15 kinds on 4 data sets, the handle, maps and statistics compared after each")
