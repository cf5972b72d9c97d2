import json, os
N = {
"C01": ("generator's model and independent XML reader (Java DOM) as oracles over random corpora, edit histories and injected write faults", "Every written file is parsed by a parser the code does not use and compared with the model; nothing outside the generated shapes is covered."),
"C02": ("object-identity and content monitor over random corpora in all loading modes, with forced and concurrent garbage collections and defective files", "Weak references are observed on the JVM, whose collector stands in for CPython's reference counting."),
"C03": ("dictionary model checked after every operation of random and exhaustively enumerated short histories", "All histories of 3 (thorough 4) operations on 2x2 nodes, random longer ones."),
"C04": ("lock-step comparison with a plain list of the same objects over random operation histories and enumerated slices", "Member identity, relations and meta-data observed after every operation."),
"C05": ("content snapshots before and after changes of copies; one-detail mutants for comparison", "Equality decided by an independent content key."),
"C06": ("device/inode identity of every listed and resolved bank file in directory trees with links", "Links, moves and working directory changes are real file system operations in a scratch directory."),
"C07": ("generator's model of random GraphML documents, whole and sparse reading", "Document generator covers the supported subset; one-defect documents for the refusals."),
"C08": ("lock-step comparison with networkx' plain digraph and an ordering model; short histories enumerated", "Order and storage identity observed after every operation."),
"C09": ("recursive reference model over random and enumerated graphs", "All acyclic graphs over four nodes, random larger ones."),
"C10": ("independent recount and formulas over random corpus pairs; printed reports parsed back", "Counts recomputed from the alignments as generated, formulas in exact fractions."),
"C11": ("independent recount of every ordered annotator pair; pickles and printed tables read back", "Random annotation sets, missing and extra alignments."),
"C12": ("printed diff parsed back and compared with the difference of the generator's models", "Random pairs of annotations and option combinations."),
"C13": ("independent recount from the generator's models over random corpora, banks and options", "Counts compared exactly, derived figures to rounding."),
"C14": ("tables and segment directories written, read back, truncated at every byte", "Every truncation of small tables is tried."),
"C15": ("independent selection over random text corpora and banks", "Pairs of the created corpus compared with the generator's selection."),
"C16": ("list and set models of links over random documents and operation histories; file layouts on disk", "Real files in scratch directories."),
"C17": ("reference recursion over Java's DOM tree of random documents", "Spans and tables compared for each indexing."),
"C18": ("independent reference aligner over random document pairs and settings", "Links compared as multisets in the final corpus."),
"C19": ("printed output parsed back and compared with set differences of the generator's links", "Random alignments and texts."),
"C20": ("brute-force oracles (memoised recursion, enumeration of subsequences) over random and enumerated short sequences", "All pairs of words up to a length over small alphabets; random longer ones."),
"C21": ("brute-force best scores and validity checks of the alignments returned", "Exhaustive reference on short sequences, validity and monotonicity on longer ones."),
"C22": ("enumeration by definition over random and very long sequences", "Every list, slice and string form compared."),
"C23": ("definitions in exact arithmetic over random token collections", "Independent formulas."),
"C24": ("definitions from independent counts over random texts", "Independent formulas."),
"C25": ("definitions over random document collections in every option combination", "Independent formulas."),
"C26": ("reader of Dutch numerals as inverse oracle over ranges and random large numbers", "Contiguous ranges exhaustively, larger numbers sampled."),
"C27": ("real scripts run in process on scratch corpora, outputs compared with the generator's model", "Scripts run as a user would, with options varied."),
"C28": ("recorded concurrent histories checked for linearizability against an LRU model, plus single-thread lock-step", "Interleavings come from the JVM scheduler with injected delays; no schedule is enumerated."),
"C29": ("brute-force and independent dynamic-programming optimum over enumerated and random matrices", "All matrices of small size over few values; random larger ones."),
"C30": ("bag arithmetic and ordered-list models after every operation", "Random histories."),
"C31": ("independent comparison through canonical forms; directory states with injected failures", "Failing directory calls are provoked in a scratch directory or by stand-ins."),
"C32": ("real scripts run in process on scratch text corpora, outputs compared with the generator's model", "Scripts run as a user would."),
"C33": ("fault injection: files cut, zeroed and damaged at random or every place, judged by an independent parser; all files compared before and after", "Damage that leaves well-formed XML is not judged."),
"C34": ("differential runs of random declarations and command lines against intended values and the library's parser; scripts run with equivalent and wrong command lines", "Only what both generations of the parser agree on, apart from intended values."),
}
json.dump(N, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "notes.json"), "w"), indent=1)
