#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here because JSON lines are hard to edit)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(qtext.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=["lib/daeso/" + f if not f.startswith("bin/") else f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], state=state or [], hook_needed=hook)))


NOT_RUN = ("The corpus tests of the repository depend on the absent Dutch module and fail at "
           "baseline; no passing test reaches this code. ")

prop("C01", "Corpus files survive writing and reading without loss",
"""Writing a parallel graph corpus, in any encoding, with relative or absolute bank paths, indented or not, to a path or to an
open stream, leaves a complete well-formed XML file when the call returns, and reading that file in any graph
loading mode gives an equal corpus: the same relations, the same corpus and pair meta-data whatever tags, text
or attributes it uses, and the same graph pairs in the same order with the same banks, graph ids and labelled
node alignments. This holds after any sequence of edits and write/read rounds, and writing does not change the
corpus in memory. Errors of the output are reported to the caller and leave the corpus as it was. Elements the format does
not define are reported by a warning each and are otherwise ignored.""",
["inputs", "histories", "fault_sequences"],
"all corpora, meta-data trees, unicode text, layout options, kinds of input/output, edit histories, and failing writes",
NOT_RUN + "A fixed sample could not settle it for arbitrary meta-data, text and edit histories anyway.",
["pgc/corpus.py", "pgc/graphpair.py", "utils/etree.py"],
[("generator of corpus XML", "pgc/corpus.py PGCGenerator"), ("incremental reader", "pgc/corpus.py PGCParser"),
 ("XML writer", "utils/etree.py write")],
["corpus.write output bytes (parsed by Java's DOM)", "corpus.read result"])

prop("C02", "Every pair gets its own complete graphs, whatever the loading mode",
"""With full or sparse loading every pair of a corpus refers to the complete graphs (nodes, tokens, labels, edges,
root) stored under the named ids in the named banks, no placeholder remains, pairs naming the same graph share one
object which is also the one its bank returns, and a sparsely loaded bank holds only graphs that the corpus uses; without loading the same
ids, banks and alignments are available. A missing bank file, unknown bank, unknown graph or
pair that lacks a bank or graph id makes reading fail with a DAESO error. Graphs of a sparsely loaded bank live exactly as long as some
pair uses them: collecting garbage at any moment never loses a graph in use, and graphs of deleted pairs are released.""",
["inputs", "configurations", "histories", "schedules"],
"all corpora and banks, loading modes, defects in the files, deletion histories and moments of garbage collection",
NOT_RUN + "Garbage collection moments are never controlled by a test.",
["pgc/corpus.py", "gb/graphbank.py", "gb/graphstub.py", "gb/parser.py"],
[("graph stubs and their clients", "gb/graphstub.py"), ("weak table of graphs", "gb/graphbank.py SparseGraphBank"),
 ("bank loading", "pgc/corpus.py PGCParser.load_graphbanks")],
["graph pair accessors", "graph bank accessors", "weak references after System.gc()"])

prop("C03", "Node alignment stays one-to-one and follows the last change",
"""After any history of adding and deleting alignments, a graph pair aligns every source node to at most one target
node and every target node to at most one source node; an added alignment always stands with its latest relation and displaces only alignments that share
its source or target node, and a deletion removes exactly the named one. All queries (lookup of a relation,
listing with or without a relation filter, length, partner of a source or target node, whether the roots are aligned) agree with
that history, also when source and target nodes have the same names; nodes which are no longer aligned take no part in the pair any more. The many-to-many mapping variant keeps every alignment until it is deleted.""",
["histories", "inputs"], "all sequences of additions and deletions over all node name sets, shared names included",
"The unit tests run a few fixed sequences of at most a handful of operations; conflicts through shared names and displacement chains need long histories.",
["pgc/graphpair.py"], [("displacement on addition", "pgc/graphpair.py GraphMatching.add_align"),
 ("deletion and housekeeping of nodes", "pgc/graphpair.py GraphMapping.del_align")], ["graph pair queries after every operation"])

prop("C04", "A corpus behaves as a list of graph pairs",
"""Under every sequence of list operations (indexing, slicing with any bounds and steps, slice assignment and deletion, append,
insert, extend, pop, remove, index, count, reverse, sort, +, +=, *, *=, <, <=, >, >=, iteration, containment) a corpus holds the pairs a Python list would hold and raises an error where a list would. Slices, sums and
multiples are corpora with the same relations and meta-data that share the pairs. Values other than graph pairs or compatible corpora
are refused by the checking operations, and a refused or failing operation leaves the corpus unchanged.
Where another corpus is added, its own meta-data is kept and the loss of different meta-data is warned about, each time.""",
["histories", "inputs"], "all operation sequences, indices and slices, and all kinds of wrong arguments",
NOT_RUN + "List semantics quantify over all operation sequences and indices.",
["pgc/corpus.py"], [("list overrides and slice redirection", "pgc/corpus.py ParallelGraphCorpus"),
 ("compatibility check", "pgc/corpus.py _check_compatibility")], ["public list interface"])

prop("C05", "Copies are independent and comparison means equal content",
"""A deep copy of a corpus or graph pair is equal to its original and shares banks and graphs with it, but no later
change of alignments, meta-data, relations or membership in one shows in the other. Two graph pairs are equal exactly when banks,
graph ids, labelled alignments and meta-data (blanks at the ends of text ignored) are equal, and two corpora exactly when relations, meta-data and pairs in
order are; != is always the negation of ==, comparison is symmetric, and it never fails on missing files or meta-data or
non-ASCII text.""", ["inputs", "histories"],
"all corpora and pairs, all single differences between them, and all mutations after copying",
NOT_RUN + "Tests compare a few fixed objects; independence of copies needs every later mutation.",
["pgc/corpus.py", "pgc/graphpair.py", "pair.py", "utils/etree.py", "gb/graphbank.py"],
[("deep copy hooks", "pgc/graphpair.py, pgc/corpus.py __deepcopy__"), ("equality", "__eq__/__ne__ of corpus, pair, bank and utils/etree.py equals")],
["==, !=, copy.deepcopy"])

prop("C06", "Each graph bank file is listed once and found again",
"""In a written corpus every bank file in use appears exactly once, however many bank objects in memory point to it
and by whatever path (relative, symbolic link, hard link), every pair refers to the right entry, and unused banks are absent; purging makes the pairs (or the one pair given) share one bank
object per file in the same way. Two banks are equal exactly when their paths are the same or point to one existing file. Bank paths are relative to the corpus file or absolute as requested, and reading resolves them to the same files
regardless of the working directory. With relaxed paths a bank missing at its listed place, and only then, is taken from the directory of the corpus.""",
["inputs", "configurations"], "all layouts of corpus, bank files, links and working directories, and all mixes of bank objects",
NOT_RUN + "Directory layouts, links and duplicated bank objects form an unbounded space.",
["pgc/corpus.py", "gb/graphbank.py"], [("merging of banks on writing", "pgc/corpus.py PGCGenerator._gen_aligned_graphs"),
 ("purge", "pgc/corpus.py ParallelGraphCorpus.purge"), ("path resolution", "pgc/corpus.py PGCParser.handle_file_elem_end"),
 ("bank identity", "gb/graphbank.py GraphBank.__eq__")], ["written <graphbanks> section", "bank paths after reading"])

prop("C07", "GraphML banks are read faithfully",
"""Reading a GraphML graph bank yields exactly its graphs, each with exactly its nodes and, per source node in document order, edges, and
with the values of its data elements (tokens, labels, root, any other declared attribute) on the right graph, node or edge, wherever the
data stand inside it (a key id declared for that component goes before one for all); declared defaults apply exactly to components without a value of their own. Sparse reading yields exactly the requested
graphs, equal to those of a full reading. A node without label or tokens, a graph without tokens, an
undeclared key or a requested graph that is absent gives a DAESO error.""",
["inputs"], "all GraphML documents in the supported subset, in any order of elements, and all sets of requested graphs",
"One sample file is parsed by the tests; element order, defaults, markup characters and sparse subsets are not varied.",
["gb/graphml.py", "gb/parser.py"], [("context stack and current component", "gb/graphml.py GraphmlParser"),
 ("check for unresolved graphs", "gb/parser.py")], ["graphs returned by the parser"])

prop("C08", "Ordered digraph is a digraph that remembers insertion order",
"""Under any sequence of additions and removals of nodes and edges the ordered digraph has the nodes, edges and attributes a plain
digraph would have, successor and predecessor views describe the same edges and share their data, and no
two nodes or edges share attribute storage (unless the caller hands in one dictionary for several nodes). Edges (grouped by source node), successors and predecessors are listed in order of first
insertion since their last removal. Building from existing data and illegal arguments behave as for a plain digraph.""",
["histories", "inputs"], "all operation sequences over all node sets",
"The tests check short fixed constructions only.",
["graph/ograph.py"], [("ordered successor and predecessor dicts", "graph/ograph.py ODiGraph")], ["graph queries after every operation"])

prop("C09", "Terminals, punctuation and yields of graphs are right",
"""For every rooted graph, with any node identifiers including 0, the terminals are exactly the nodes without children, the non-terminals the others,
and the punctuation and empty-node options remove exactly the punctuation-only and token-less terminals. The yield of a node lists, once each
and in left-to-right depth-first order, the terminals reachable from it (the root's when no node is given), also when nodes
have several parents. Token strings set on a graph or node are returned unchanged (blanks apart), and edges to unknown nodes are refused.""",
["inputs"], "all graphs (trees and DAGs), all node identifiers and option combinations",
"The tests cover one small graph; shared children, node 0, punctuation and empty nodes in combination are not reached.",
["graph/daesograph.py"], [("depth-first yield", "graph/daesograph.py terminal_yield"), ("node predicates", "graph/daesograph.py node_is_*")],
["terminals, terminal_yield"])

prop("C10", "Alignment evaluation scores are the defined measures",
"""For any list of pairs of true and predicted corpora with the relations evaluated, the evaluation's counts of true, predicted and common alignments, per corpus pair
and in total, per relation and regardless of relation, are those of the sets of alignments in the corpora. Precision, recall and F, their
macro means with sample variance and standard deviation, and the micro means over summed counts follow the documented
formulas, with 0 for undefined ratios; the printed report shows those numbers. Evaluating does not change the corpora.""",
["inputs"], "all lists of corpus pairs and label sets, degenerate and empty ones included",
NOT_RUN + "Scores are a function of unboundedly many inputs.",
["pgc/evaluate.py"], [("counting", "pgc/evaluate.py AlignEval.add"), ("statistics", "pgc/evaluate.py AlignCountsTable, AlignCounts")],
["counts, measures and written report"])

prop("C11", "Annotator agreement tables are complete and correctly averaged",
"""For any number of annotated versions of a corpus, cross evaluation compares every ordered pair of different
annotators exactly once, and the table of each relation and measure holds in row r and column c the measure with r as truth and c as
prediction. Column and overall means and sample standard deviations skip the diagonal and follow the definition. The
words-only option counts exactly the alignments between two terminals; pickled and printed results equal the computed ones.""",
["inputs"], "all sets of annotators and annotations",
NOT_RUN, ["pgc/agreement.py"], [("cross evaluation", "pgc/agreement.py cross_evaluate"), ("averages", "pgc/agreement.py AnalysesTable")],
["tables returned and written, pickles"])

prop("C12", "Corpus diff reports exactly the differences",
"""For two annotations of the same graph pairs, the diff lists for every pair exactly the alignments present in both with different relations,
those only in the first and those only in the second (and on request the identical ones), each once, under the right heading, with both relations and both nodes' text, consecutively
numbered, and restricted to the chosen relations and, on request, to alignments that involve a word. Comments of each annotator are shown
on request with any text. Nothing is reported for equal annotations.""",
["inputs"], "all pairs of annotations, option combinations and texts",
NOT_RUN, ["pgc/diff.py"], [("classification of alignments", "pgc/diff.py pgc_diff"), ("report", "pgc/diff.py print_alignments")],
["printed report"])

prop("C13", "Corpus and bank statistics count what is there",
"""For any corpora (each listing a bank once) and banks and any options, the counts of graph pairs, node pairs per relation, graphs (aligned, unaligned, aligned once or more, with unaligned
roots), tokens and nodes (aligned or not) equal those found by recounting the files, with punctuation, empty nodes, and pairs with unaligned roots
included or left out as requested. Totals are the sums of the rows, parts add up to their wholes, and percentages and
averages follow from the counts, staying 0 when nothing was counted.""",
["inputs", "configurations"], "all corpora, banks and option combinations",
NOT_RUN, ["pgc/pgcstats.py", "gb/gbstats.py", "stats/table.py"],
[("pair and node counting", "pgc/pgcstats.py"), ("graph counting", "gb/gbstats.py"), ("totals", "stats/table.py summarize")],
["statistics tables"])

prop("C14", "Statistics tables and segment reports lose no figures",
"""A statistics table written to a file and read back holds the same rows, counts exactly and
percentages and averages to the printed precision, after whatever rows were already read, for counts of any size. A truncated table file gives an error. The report over a corpus
segment contains one row for each corpus and bank file of every sub-segment, and its totals over sub-segments and annotation kinds are the sums over those files; sub-segments that are not targeted are taken
from their existing table files, and missing ones are skipped.""",
["inputs", "histories", "fault_sequences"], "all tables, all cuts of a table file, all directory contents and target selections",
"No passing test writes or reads a statistics table.",
["stats/table.py", "stats/corpus.py"], [("table output and input", "stats/table.py StatsTable.write/read"), ("combination", "stats/corpus.py corpus_seg_stats")],
["table files and tables read back"])

prop("C15", "Graph corpora are created from exactly the selected text alignments",
"""Creating a graph corpus from an aligned text corpus and two graph banks gives one graph pair for each aligned element
pair whose tags are the focus tags and whose token counts and number of differing tokens are within the given limits, in the
order of the text alignment, pairing the graphs with the ids of the two elements, with no node alignments and the given relations. Nothing else is
included, and input files are unchanged.""",
["inputs"], "all text corpora, banks, focus tags and limits",
NOT_RUN, ["pgc/creation.py"], [("selection", "pgc/creation.py pgc_from_ptc")], ["pairs of the corpus created"])

prop("C16", "Text corpora keep files, settings and alignments through all operations",
"""A text alignment document that is written and read again has the same file names, render settings and links; injecting its links
into the two documents and extracting them gives back the same links grouped by source element in document order, by number or by
identifier, and every link leads to the n-th element, or the element with that id, of its tag. The listed file of either side is found
as given, else relative to the document, else next to the document. Adding, clearing and listing alignments and elements behaves as a list in document order.""",
["inputs", "histories"], "all document pairs, link sets, methods, file layouts and operation sequences",
"The tests covering these classes do not pass or do not exist at baseline; link sets and layouts are unbounded.",
["ptc/document.py", "ptc/ielemtree.py"], [("inject and extract", "ptc/document.py HitaextDoc"), ("file search", "ptc/document.py get_filename")],
["links, written file, file found"])

prop("C17", "Text spans and indexes of documents are consistent",
"""After indexing a document, the text assigned to every visible element is the concatenation of its stripped text pieces and those of its
visible descendants in document order, with the line breaks requested for their tags, and spans of children nest in order within that of
their parent. Every element is found as the n-th of its tag and by its identifier, counted from 1 in document order, ignored or not. Exactly the elements inside an
ignored element are marked ignored and contribute no text, while text after them is kept.""",
["inputs", "configurations"], "all XML documents and sets of ignored and line-breaking tags; repeated indexing with different settings",
"No passing test indexes a document.", ["ptc/ielemtree.py"], [("recursive indexing", "ptc/ielemtree.py index_elem")],
["element attributes, tag tables, get_elem_text"])

prop("C18", "Text aligners respect scope, focus, ignored parts and order",
"""An aligner adds links only between elements with the focus tags, inside scope elements that are aligned to each other (the roots by default) and outside ignored
elements, exactly for the pairs that its similarity and filter accept, each once. A threshold filter keeps exactly the pairs above the threshold; the non-crossing filter
keeps a greedily chosen, best-first set of pairs at or above the threshold of which no two cross. Existing links on focus elements are replaced on request, all
other links are kept.""",
["inputs", "configurations"], "all document pairs, scope/focus/ignore settings, similarity functions, thresholds",
"The aligner's module cannot even be imported without the absent Dutch module, so no test reaches it.",
["ptc/textalign.py", "ptc/document.py", "ptc/ielemtree.py"], [("scope and focus selection", "ptc/textalign.py TextAlignerBase/TextAligner"),
 ("filters", "ptc/textalign.py *_filter_factory")], ["links in the corpus after alignment"])

prop("C19", "Text alignment evaluation and diff count exactly the differing links",
"""For any two text alignments the evaluation prints, per file and in total, the numbers of distinct true, predicted and common links between two
elements with the chosen tag, and the ratio, precision, recall and F computed from these, with 0 for undefined ones. The diff
prints each link from an element with the chosen tag that occurs in only one of the two alignments exactly once, on the right side, with the texts of both elements, and nothing else.""",
["inputs"], "all pairs of alignments and document texts", "No passing test reaches these functions.",
["ptc/evaluate.py", "ptc/diff.py"], [("link sets", "ptc/evaluate.py count_alignment"), ("diff", "ptc/diff.py print_diff")], ["printed output"])

prop("C20", "Edit distance, common subsequence and median are optimal",
"""For all pairs of sequences the edit distance is the least number of insertions, deletions and substitutions that turns one into the other,
its normalised form divides it by the greater length, the longest common subsequence is a new sequence, of their type, which is a subsequence of both of the greatest possible length, and the pseudo-median of a
collection is a member with the least total distance to the others.""",
["inputs"], "all sequences over all alphabets (strings, unicode, lists) and distance functions",
"The tests compare a few words with known answers.", ["string/levenshtein.py", "string/lcs.py", "string/median.py"],
[("dynamic programming", "string/levenshtein.py, string/lcs.py"), ("median", "string/median.py")], ["returned values"])

prop("C21", "Sequence alignments are valid and optimal",
"""The global alignment of two sequences matches elements of both in order, its stated score is that of the matches and gaps it shows, and no other
global alignment scores higher, also when gap costs depend on the element. The local alignment is a pair of contiguous segments whose score is the highest of all local alignments (empty when none is
positive). Successive local alignments start with an optimal one, are valid, and do not exceed the requested number; no pair is matched
again in the next alignment, and when the search ends every pair of similar elements has been matched. Printed tables show exactly these scores and matches.""",
["inputs"], "all sequences, similarity and gap cost functions (including element-dependent ones) and limits",
"The tests check single worked examples.", ["string/needleman_wunsch.py", "string/smith_waterman.py", "string/waterman_eggert.py"],
[("matrix and traceback", "string/needleman_wunsch.py, string/smith_waterman.py"), ("recalculation around earlier alignments", "string/waterman_eggert.py")],
["returned alignments and scores"])

prop("C22", "N-grams and skip-bigrams enumerate exactly what they define",
"""For every token sequence, n, padding and skip distance, the n-grams are exactly the contiguous subsequences of length n in order,
padding adds exactly the documented symbols at the ends, and skip-bigrams are exactly the ordered pairs of tokens at most
the allowed distance apart, each position pair once; lists, slices and string forms describe the same items, for input of any length.""",
["inputs"], "all token sequences (lists and strings, very long ones included), n, padding and skip",
"A handful of short sequences is tested.", ["string/ngram.py", "string/sgram.py"], [("slices", "string/ngram.py, string/sgram.py")], ["returned lists"])

prop("C23", "Similarity measures follow their definitions",
"""For all pairs (or lists) of token collections every similarity measure equals its documented formula, with shared types over the lengths of the collections, is symmetric where the
formula is, lies between 0 and 1 where the formula does, is 1 for equal non-empty sets of tokens, and is 0 rather than an error for empty input.""",
["inputs"], "all pairs of token collections", "A few fixed pairs are tested.", ["string/similar.py"], [("formulas", "string/similar.py")], ["returned values"])

prop("C24", "ROUGE scores follow their definitions",
"""For all candidate and reference texts, the n-gram, longest-common-subsequence and skip-bigram scores equal their defining formulas computed
from independent counts, for any n, skip distance and weight, and undefined ratios (empty or too short texts) give 0 rather than an error.""",
["inputs"], "all candidates and reference lists", "A few fixed examples are tested.", ["string/rouge.py"], [("scores", "string/rouge.py")], ["returned values"])

prop("C25", "Term weights follow their definitions",
"""For any list of documents, the term frequency, inverse document frequency and tf-idf functions return the distinct terms and weights
given by their formulas in every option combination (indicator, normalised), one weight per term and document with all sequences in the same
term order, and never fail for empty documents or a single document.""",
["inputs"], "all document collections and option combinations", "A few fixed examples are tested.", ["string/tf_idf.py"], [("weights", "string/tf_idf.py")], ["returned values"])

prop("C26", "Spelled-out Dutch numbers are exact and unambiguous",
"""Every whole number in the supported range is spelled as the Dutch number words for exactly that number: reading the words back by the grammar of Dutch numerals gives the number
again, no words for zero parts appear, different numbers have different spellings, and hundreds are used for four-digit numbers exactly when asked for and possible.""", ["inputs"], "all numbers up to the largest named scale", "The tests spell a few dozen numbers.", ["string/number.py"],
[("grouping in threes", "string/number.py spell_out_number")], ["returned strings"])

prop("C27", "Corpus scripts neither lose nor invent graph pairs",
"""Splitting a corpus gives the requested number of non-empty parts (or parts of the requested size) with consecutive pairs, and joining the parts restores the corpus;
corpora with different relations are not joined. A zip archive holds each corpus and each bank file in use once, unchanged, and the corpora in it can be read with relaxed paths.
Copying a corpus, or changing the directory of its banks, keeps all pairs, alignments, relations and meta-data while bank
paths lead to the intended files. Extracted phrases are exactly the texts of the aligned nodes. Copying works without the
bank files, existing files are overwritten only when asked, and scripts leave their inputs unchanged unless told to write there.""",
["inputs", "configurations"], "all corpora, part counts, options and path layouts",
"Only the help texts and one run of each script without looking at the result are tested.", ["bin/pgc_split.py", "bin/pgc_join.py", "bin/pgc_zip.py", "bin/pgc_cp.py", "bin/pgc_chdir.py", "bin/pgc_extract_phrases.py"],
[("scripts", "bin/pgc_*.py")], ["files written by the scripts, printed output"])

prop("C28", "The shared cache is a correct LRU cache under concurrent use",
"""Under any sequence of insertions, lookups, membership tests, deletions and expiries, from one thread or many, the cache returns for a key only the value last stored for it, never
holds more items than its capacity, and when full drops the least recently used item. Concurrent histories are explained by some sequential order consistent with
real time, every call terminates, and no schedule corrupts the recency order. A function cached in it gives for any arguments what the plain function
gives, and is called only for results not in the cache.""",
["histories", "schedules"], "all operation histories of one thread and all interleavings of several",
"The tests do not touch the cache; interleavings cannot be chosen by a unit test.", ["thirdparty/GenericCache.py"],
[("recency list and lock", "thirdparty/GenericCache.py")], ["returned values of concurrent calls, recorded with call and return times"])

prop("C29", "Assignment solver finds a cheapest complete assignment",
"""For every cost matrix, square or padded, the solver terminates with an assignment that uses each row and each column at most
once, covers all rows (or all columns if fewer), and has the least total cost possible; the input matrix is not changed, and a solver object can be used
again. Turning a profit matrix into costs gives exactly the inverted entries, so that the cheapest assignment is the most profitable; padding and printing show every entry unchanged.""",
["inputs"], "all rectangular numeric matrices, with ties, negative, large and fractional entries", "No test covers it.",
["thirdparty/munkres.py"], [("step machine", "thirdparty/munkres.py Munkres")], ["returned index pairs"])

prop("C30", "Counting and ordered containers behave as specified",
"""The counter behaves as a multiset: counts, most common items, element listing, update, copy, and +, -, |, & agree with bag
arithmetic for all inputs, missing items count 0, and operands are not changed. The ordered dictionary returns keys, values and items in order of first insertion since last deletion under any
operation sequence, equals the plain dictionary with the same items, and copies and pickles to a dictionary with the same order.""",
["inputs", "histories"], "all operation sequences", "No test covers these modules.", ["thirdparty/counter.py", "thirdparty/odict.py"],
[("multiset operations", "thirdparty/counter.py"), ("key list", "thirdparty/odict.py")], ["container queries after every operation"])

prop("C31", "XML comparison, indentation and file helpers are faithful",
"""Two elements compare equal exactly when tags, attributes, stripped text and tails and all children are equal, for any text. Indenting changes only blank
text: the indented element equals the original and indenting twice changes nothing more. Writing an element tree, in any encoding, gives a complete file with header that reads back as the same element. Directory creation succeeds when the directory exists afterwards and reports every other failure, and file
globbing returns each match of each pattern in sorted order.""",
["inputs", "fault_sequences"], "all elements and directory states", "A few fixed elements are tested.", ["utils/etree.py", "utils/opsys.py"],
[("comparison and indentation", "utils/etree.py"), ("directory helpers", "utils/opsys.py")], ["returned values, directory state"])

prop("C32", "Text corpus scripts convert alignments without loss",
"""Converting number-based links to identifier-based links keeps every link between the same two elements for each corpus given; changing directories in a text corpus changes only
the listed file paths; and the diff and evaluation scripts report what the library reports for the same files. Other content of the corpus files is preserved, and
a corpus that cannot be converted is left as it was.""",
["inputs", "configurations"], "all text corpora and options", "Only help texts are tested.", ["bin/ptc_n_to_id.py", "bin/ptc_chdir.py", "bin/ptc_diff.py", "bin/ptc_eval.py"],
[("scripts", "bin/ptc_*.py")], ["files written by the scripts, printed output"])

prop("C33", "Damaged input is refused and destroys nothing",
"""A parallel graph corpus, graph bank, parallel text corpus or document file that is missing, cut short anywhere, or damaged such that it is not well-formed XML, is refused with an
error, and never read as if it were smaller or different; a failed read leaves no part of the data behind as if complete, and the next intact file is read as usual. No reader or script given such a file
changes it, its other inputs or an existing output file, or reports success; files named before it are handled correctly or not at all.""",
["inputs", "fault_sequences"], "all truncations and corruptions of all input formats", "The tests read well-formed files only.",
["pgc/corpus.py", "gb/parser.py", "gb/graphml.py", "gb/graphbank.py", "ptc/document.py", "ptc/ielemtree.py", "utils/etree.py", "bin/pgc_split.py", "bin/pgc_join.py", "bin/pgc_chdir.py", "bin/ptc_n_to_id.py"],
[("readers", "pgc/corpus.py read; gb/parser.py; gb/graphml.py; ptc/ielemtree.py"), ("in-place scripts", "bin/*chdir.py, bin/ptc_n_to_id.py")], ["exceptions, objects after a failed read, files before and after, exit status"])

prop("C34", "Command lines mean what their options say",
"""Option parsing gives exactly the values written on the command line for every declaration: whether an option is spelled short, long, abbreviated, joined to its value or with "=", before, between or after the arguments;
absent options have their defaults; ambiguous abbreviations, unknown options, missing or superfluous arguments and values of the wrong type or not among the choices end with a usage message, exit status 2 and no other
effect. Help lists every option and its explanation. For every script equivalent spellings of a command line have the same effect and output, and help, version and errors change no file.""",
["inputs", "configurations"], "all declarations and command lines", "The tests call help of some scripts and fixed command lines.",
["thirdparty/argparse.py", "utils/cli.py", "bin/pgc_stats.py", "bin/pgc_split.py", "bin/pgc_diff.py", "bin/ptc_diff.py"],
[("option parser", "thirdparty/argparse.py ArgumentParser"), ("declarations", "bin/*.py")], ["parsed name space, exit status, output, files before and after"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
    with open(out, "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps(p, sort_keys=True) + "\n")
    print(len(P), "properties")
