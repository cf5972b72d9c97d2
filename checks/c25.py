# -*- coding: utf-8 -*-
"""C25: tf-idf weights"""
import math
import gen
import ptcgen
ptcgen.stub_nl()
from seqs import ratio
from daeso.string.tf_idf import idf, tf_idf, calculate_term_frequencies, calculate_document_frequencies
from daeso.ptc.textalign import tf_idf_indicator_weight, weighted_cosine_sim

RULE = ("random document collections (none, one, empty, repeated documents, terms in all documents, unicode) in every option combination, weights "
        "recomputed from the raw documents; non-trivial = at least two documents with terms")
REQUIRED = ["large", "weights", "indicator", "normalized", "one_doc", "no_docs", "empty_doc", "everywhere", "repeated_term", "idf", "counts", "aligner_weights", "nonascii"]
ASSUMPTIONS = []


def case_weights(case):
    rng = case.rng
    pool = rng.sample([u"de", "kat", u"zoë", u"東京", "zit", "op", u"mat", "kater", "at", "Kat", "d", u"zo"], rng.int(2, 8))
    docs = []
    large = rng.chance(5) and rng.int(1, 3)
    if large == 2:
        pool += [u"w%d" % i for i in range(40)]
    if large:
        case.seen("large")
    for _ in range(rng.weighted([(0, 1), (1, 2), (2, 4), (5, 4)]) if large in (False, 2) else rng.int(26, 35) if large == 1 else rng.int(100, 220)):
        if docs and rng.chance(15):
            docs.append(list(rng.choice(docs)))
        else:
            docs.append([rng.choice(pool) for _ in range(rng.weighted([(0, 1), (rng.int(1, 9 if large != 2 else 60), 5)]))])
    if rng.chance(30):
        docs = [tuple(d) for d in docs]
    keep = map(list, docs)
    n = len(docs)
    if n == 1:
        case.seen("one_doc")
    if not n:
        case.seen("no_docs")
    if [d for d in docs if not d]:
        case.seen("empty_doc")
    if any(any(ord(c) > 127 for c in t) for d in docs for t in d):
        case.seen("nonascii")
    terms = []
    for d in docs:
        for t in d:
            if t not in terms:
                terms.append(t)
    df = dict((t, len([d for d in docs if t in d])) for t in terms)
    if [t for t in terms if df[t] == n and n > 1]:
        case.seen("everywhere")
    norm = rng.choice([None, True, False])
    ind = rng.choice([None, True, False])
    kw = {}
    if norm is not None:
        kw["normalized"] = norm
    scale = math.log(n) if norm and n > 1 else 1.0
    widf = dict((t, math.log(n / float(df[t])) / scale) for t in terms)
    if norm:
        case.seen("normalized")
    got_terms, got = idf(docs, **kw)
    case.equal(sorted(got_terms), sorted(terms), "terms", "terms of %r" % (docs,))
    case.equal(len(got), n, "rows", "weight lists")
    for row in got:
        case.equal(len(row), len(terms), "row", "weights in a list")
        for t, w in zip(got_terms, row):
            case.check(abs(w - widf[t]) <= 1e-9, "idf", "idf of %s in %s is %s, expected %s", t, docs, w, widf[t])
            case.seen("idf")
            if norm:
                case.check(-1e-9 <= w <= 1 + 1e-9, "idf-bounds", "normalised idf %s", w)
    if ind is not None:
        kw["indicator"] = ind
    if ind:
        case.seen("indicator")
    got_terms, got = tf_idf(docs, **kw)
    case.equal(sorted(got_terms), sorted(terms), "terms", "terms of %r" % (docs,))
    case.equal(len(got), n, "rows", "weight lists")
    for d, row in zip(docs, got):
        case.equal(len(row), len(terms), "row", "weights in a list")
        for t, w in zip(got_terms, row):
            k = len([x for x in d if x == t])
            if k > 1:
                case.seen("repeated_term")
            tf = (1.0 if k else 0.0) if ind else ratio(k, len(d))
            case.check(abs(w - tf * widf[t]) <= 1e-9, "tf-idf", "weight of %s in %s of %s is %s, expected %s (%s)", t, d, docs, w, tf * widf[t], kw)
            case.seen("weights")
    all_terms, freqs = calculate_term_frequencies(docs)
    case.equal(sorted(all_terms), sorted(terms), "terms", "terms counted")
    case.equal([dict(f) for f in freqs], [dict((t, len([x for x in d if x == t])) for t in d) for d in docs], "tf", "term counts")
    case.equal(dict(calculate_document_frequencies(freqs)), df, "df", "document counts")
    case.seen("counts")
    # as used by the text aligner
    w = tf_idf_indicator_weight(docs)
    full = math.log(n) if n > 1 else 1.0
    col = dict(zip(sorted(terms), range(len(terms))))
    case.equal(len(w), n, "aligner-rows", "weights for the aligner")
    for i, d in enumerate(docs):
        want = sorted(math.log(n / float(df[t])) / full for t in set(d))
        have = sorted(x for x in w[i] if abs(x) > 1e-12)
        case.check(len(w[i]) == len(terms) and len(have) == len([x for x in want if abs(x) > 1e-12]) and all(
            abs(a - b) <= 1e-9 for a, b in zip(have, [x for x in want if abs(x) > 1e-12])), "aligner-weights", "weights %s of %s", w[i], d)
        for j, e in enumerate(docs[:40]):
            dot = sum((math.log(n / float(df[t])) / full) ** 2 for t in set(d) & set(e))
            ln = [sum((math.log(n / float(df[t])) / full) ** 2 for t in set(x)) for x in (d, e)]
            want = ratio(dot, math.sqrt(ln[0] * ln[1])) if min(ln) > 1e-15 else 0.0
            got2 = weighted_cosine_sim(d, e, w[i], w[j])
            case.check(abs(got2 - want) <= 1e-6, "aligner-sim", "weighted cosine of %s in %s is %s, expected %s", (d, e), docs, got2, want)
            case.seen("aligner_weights")
    case.equal(map(list, docs), keep, "input-changed", "documents")
    if len([d for d in docs if d]) > 1:
        case.distinct((docs, sorted(kw)))
    case.sample((docs, kw))


GROUPS = [("weights", case_weights, 600, 8000)]
