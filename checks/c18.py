# -*- coding: utf-8 -*-
"""C18: text aligners"""
import os, string
import xml.etree.cElementTree as et
import gen, ptcgen
ptcgen.stub_nl()
from daeso.pair import Pair
from daeso.ptc.document import HitaextDoc
from daeso.ptc import textalign as ta
from daeso.string import similar
from daeso.ptc.ielemtree import IndexElemTree

RULE = ("random documents and existing links; aligners with random focus, scope and ignore tags and any term, weight, similarity and filter function "
        "(library functions and recording stand-ins), with and without clearing and prepared trees, also repeatedly; links compared with a model; "
        "filters on random scores with ties; non-trivial = some pair of focus elements in scope")
REQUIRED = ["large", "pairs_scored", "links_added", "links_kept", "links_removed", "ignored_focus", "out_of_scope", "default_scope", "given_scope", "scope_many",
            "scope_nested", "no_clear", "own_trees", "trees_reused", "root_link_kept", "threshold", "threshold_tie", "no_cross", "cross_removed",
            "no_cross_tie", "defaults", "library_sim", "weights", "terms_word", "terms_char", "terms_preproc", "terms_stop", "already_linked"]
ASSUMPTIONS = ["the stop word function of the package daeso_nl, which is not part of the repository, is replaced by a simple one",
               "focus tags are not scope tags"]

FEW = u"de kat zit op mat De KAT . , ! het".split()


def noise(a, b, salt):
    import zlib
    a, b = [map(unicode, x) for x in (a, b)]
    return (zlib.crc32(repr((a, b, salt))) & 0xffff) % 8 / 8.0


def grams(items, n, sep):
    return [sep.join(items[i:i + n]) for i in range(len(items) - n + 1)]


def model_terms(kind, n, text):
    if kind == "word":
        return grams(text.split(), n, u" ")
    if kind == "char":
        return grams(list(text), n, u" ")
    if kind == "preproc":
        return grams([w.lower() for w in text.split() if w not in string.punctuation], n, u" ")
    words = [w for w in text.lower().split() if w not in ptcgen.STOP and w not in string.punctuation]
    if kind == "stop":
        return grams(words, n, u" ")


TERMS = {"word": ta.word_n_gram_factory, "char": ta.char_n_gram_factory, "preproc": ta.preproc_word_n_gram_factory,
         "stop": ta.preproc_stopword_word_n_gram_factory}


def ratio(a, b):
    return a / float(b) if b else 0.0


def model_sim(kind, a, b):
    s, t = set(a), set(b)
    if kind == "equals":
        return float(a == b)
    if kind == "jaccard":
        return ratio(len(s & t), len(s | t))
    return getattr(similar, kind)(a, b)


class Recorder(object):
    """filter that records what passes through it"""
    def __init__(self, inner):
        self.inner, self.calls = inner, []

    def __call__(self, scores):
        given = list(scores)
        out = self.inner(scores)
        self.calls.append((given, list(out)))
        return out


def aligner(case, stag, ttag, scope, ign, salt):
    """a random aligner and the model of its functions"""
    rng = case.rng
    kw, use = {}, {}
    use["terms"] = rng.weighted([("own", 5), ("word", 2), ("char", 1), ("preproc", 2), ("stop", 1), ("default", 2)])
    use["n"] = rng.int(1, 2)
    if use["terms"] == "own":
        kw["term_func"] = lambda text: ("T", text)
        use["term"] = lambda text: ("T", text)
    elif use["terms"] == "default":
        use["term"] = lambda text: model_terms("word", 1, text)
    else:
        f = TERMS[use["terms"]](use["n"])
        kw["term_func"] = f
        k, n = use["terms"], use["n"]
        use["term"] = lambda text: model_terms(k, n, text)
        case.seen("terms_" + k)
    use["weights"] = rng.chance(40)
    if use["weights"]:
        kw["weight_func"] = lambda tpe: [("W", t) for t in tpe]
        case.seen("weights")
    elif rng.chance(30):
        kw["weight_func"] = ta.no_weight
    use["sim"] = rng.weighted([("noise", 6), ("jaccard", 1), ("dice", 1), ("overlap_min", 1), ("overlap_max", 1), ("equals", 1), ("default", 2)])
    if use["terms"] == "own" and use["sim"] not in ("equals", "default"):
        use["sim"] = "noise"
    if use["sim"] == "noise":
        def sim(a, b, wa, wb):
            if use["weights"]:
                case.check(wa == ("W", a) and wb == ("W", b), "weights", "weights %s of terms %s", (wa, wb), (a, b))
            else:
                case.check(wa is None and wb is None, "weights", "weights %s", (wa, wb))
            return noise(a, b, salt)
        kw["sim_func"] = sim
        use["score"] = lambda a, b: noise(a, b, salt)
    elif use["sim"] == "default":
        use["score"] = lambda a, b: model_sim("equals", a, b)
    else:
        kw["sim_func"] = getattr(ta, use["sim"] + "_sim")
        k2 = use["sim"]
        use["score"] = lambda a, b: model_sim(k2, a, b)
        case.seen("library_sim")
    use["filter"] = rng.weighted([("none", 2), ("threshold", 3), ("no_cross", 3), ("default", 1)])
    use["level"] = rng.choice([0.0, 0.25, 0.5, 0.75, 0.8, 1.0])
    rec = None
    if use["filter"] != "default":
        rec = Recorder({"none": ta.no_filter, "threshold": ta.threshold_filter_factory(use["level"]),
                        "no_cross": ta.no_cross_filter_factory(use["level"])}[use["filter"]])
        kw["filter_func"] = rec
    if "default" in (use["terms"], use["sim"], use["filter"]):
        case.seen("defaults")
    if scope:
        kw["scope_tags"] = Pair(list(scope[0]), list(scope[1]))
    if ign[0] or ign[1] or rng.chance(30):
        kw["ignore_tags"] = Pair(list(ign[0]), list(ign[1]))
    return ta.TextAligner(Pair(stag, ttag), **kw), use, rec


def check_filter(case, use, given, out):
    """given, out: lists of (score, source number, target number, key)"""
    level = use["level"]
    ks = dict((g[3], g) for g in given)
    case.equal(len(set(o[3] for o in out)), len(out), "filter-dup", "pairs kept once")
    for o in out:
        case.check(ks.get(o[3]) == o, "filter-new", "filter gives %s", o)
    if use["filter"] in ("none", "default"):
        case.equal(sorted(out), sorted(given), "no-filter", "pairs kept without filter")
    elif use["filter"] == "threshold":
        case.equal(sorted(out), sorted(g for g in given if g[0] > level), "threshold", "pairs above %s" % level)
        case.seen("threshold")
        if any(g[0] == level for g in given):
            case.seen("threshold_tie")
    else:
        case.seen("no_cross")
        cross = lambda a, b: (a[1] < b[1] and a[2] > b[2]) or (a[1] > b[1] and a[2] < b[2])
        kept = set(o[3] for o in out)
        for i, o in enumerate(out):
            case.check(o[0] >= level, "below", "pair with score %s kept, threshold %s", o[0], level)
            for p in out[:i]:
                case.check(not cross(o, p), "crossing", "crossing pairs %s and %s kept", o, p)
        for g in given:
            if g[0] >= level and g[3] not in kept:
                case.seen("cross_removed")
                case.check(any(cross(g, o) and o[0] >= g[0] for o in out), "lost", "pair %s was not kept, though no better one crosses it: %s", g, out)
        sc = [g[0] for g in given]
        if len(set(sc)) < len(sc):
            case.seen("no_cross_tie")


def case_align(case):
    rng = case.rng
    base = os.path.realpath(case.scratch)
    # names which are alike for most of their length, or but for case
    DIV, P, S, W, Q = rng.weighted([((u"div", u"p", u"s", u"w", u"q"), 6), ((u"section_part_a", u"section_part_b", u"section_part_c", u"section_part_d", u"section_part"), 3),
                                    ((u"W", u"S", u"s", u"w", u"x-y"), 1), ((u"q", u"Q", u"p", u"P", u"pp"), 1)])
    stag, ttag = rng.weighted([((S, S), 5), ((S, W), 1), ((W, S), 1)])
    tags = (DIV, P, P, S, S, W, Q)
    sizes = [5, 16, 24] if rng.chance(93) else [80]
    if sizes == [80]:
        case.seen("large")
    d1 = ptcgen.rdoc(rng, rng.choice(sizes), "all", FEW, tags, root=u"doc")
    d2 = ptcgen.rdoc(rng, rng.choice(sizes), "all", FEW, tags, root=rng.choice([u"doc", u"text"]))
    d1.write(os.path.join(base, "a.xml"))
    d2.write(os.path.join(base, "b.xml"))
    method = rng.choice(["n", "id", None])
    links = ptcgen.rlinks(rng, d1, d2, rng.below(4))
    links += ptcgen.rlinks(rng, d1, d2, rng.below(7), [P, DIV], [P, DIV])
    links += ptcgen.rlinks(rng, d1, d2, rng.below(4), [stag], [ttag])
    if rng.chance(25):
        links += ptcgen.rlinks(rng, d1, d2, 2, [u"doc"])
    if rng.chance(40):
        # focus elements linked to anything else
        links += ptcgen.rlinks(rng, d1, d2, rng.int(3, 12), [stag], [P, DIV, S, W, Q])
    nested = []
    if rng.chance(25):
        # a part of something linked is linked to the same
        nested = [(c, b) for a in d1.flat() for b in d2.flat() if a.tag in (P, DIV) and b.tag in (P, DIV) for c in a.flat()[1:] if c.tag in (P, DIV)]
        # first those with something to be aligned
        nested = [(c, b) for c, b in nested if stag in [e.tag for e in c.flat()[1:]] and ttag in [e.tag for e in b.flat()[1:]]] or nested
        if nested:
            link = rng.choice(nested)
            links += [link] + [(a, link[1]) for a in d1.flat() if a.tag in (P, DIV) and link[0] in a.flat()[1:]]
    links = [l for i, l in enumerate(links) if l not in links[:i]]
    rng.shuffle(links)
    fn = os.path.join(base, "c.ptc")
    gen.put(fn, ptcgen.ptc_xml(d1.path, d2.path, [ptcgen.link_attrs(d1, d2, l, method) for l in links], method))
    doc = HitaextDoc(file=fn)
    trees = None
    ign = [[t for t in (Q, DIV, W) if t not in (stag, ttag) and rng.chance(25)] for _ in range(2)]
    if rng.chance(35):
        trees = Pair(IndexElemTree(d1.path), IndexElemTree(d2.path))
        trees.source.update(ignoreTags=list(ign[0]))
        trees.target.update(ignoreTags=list(ign[1]))
        case.seen("own_trees")
    order = dict((e, i) for i, e in enumerate(d1.flat()))
    ig1, ig2 = d1.ignored(ign[0]), d2.ignored(ign[1])
    trace = []
    for run in range(rng.weighted([(1, 3), (2, 2), (3, 1)])):
        if run and trees:
            case.seen("trees_reused")
        scope = None
        if rng.chance(70):
            scope = [[t for t in (P, DIV) if nested or rng.chance(70)] for _ in range(2)]
            if not scope[0] and not scope[1]:
                scope = [[P], [P]]
            case.seen("given_scope")
        else:
            case.seen("default_scope")
        salt = rng.below(1000)
        al, use, rec = aligner(case, stag, ttag, scope, ign, salt)
        clear = rng.weighted([(None, 3), (True, 1), (False, 2)])
        old = list(links)
        if clear is not False:
            links = [l for l in links if l[0].tag != stag and l[1].tag != ttag]
            if len(links) < len(old):
                case.seen("links_removed")
        else:
            case.seen("no_clear")
        if scope:
            sp = [l for e in d1.flat() for l in links if l[0] is e and l[0].tag in scope[0] and l[1].tag in scope[1]]
        else:
            sp = [(d1.root, d2.root)]
            if [l for l in links if l[0] is d1.root]:
                case.seen("root_link_kept")
        want_calls, covered = [], set()
        for a, b in sp:
            f1 = [e for e in a.flat()[1:] if e.tag == stag]
            f2 = [e for e in b.flat()[1:] if e.tag == ttag]
            if [e for e in f1 if e in ig1] or [e for e in f2 if e in ig2]:
                case.seen("ignored_focus")
            f1, f2 = [e for e in f1 if e not in ig1], [e for e in f2 if e not in ig2]
            covered |= set(f1)
            if f1 and f2:
                want_calls.append([(s, t) for s in f1 for t in f2])
        if len(sp) > len(set(a for a, b in sp)):
            case.seen("scope_many")
        if len([c for c in want_calls]) > 1 and len(set(p for c in want_calls for p in c)) < sum(len(c) for c in want_calls):
            case.seen("scope_nested")
        if [e for e in d1.tagged(stag) if e not in covered]:
            case.seen("out_of_scope")
        score = {}
        for c in want_calls:
            for s, t in c:
                case.seen("pairs_scored")
                score[s, t] = use["score"](use["term"](ptcgen.text_of(s, ign[0])), use["term"](ptcgen.text_of(t, ign[1])))
        kw = {}
        if trees:
            kw["doc_trees"] = trees
        if clear is not None:
            kw["clear"] = clear
        al.align_corpus(doc, **kw)
        # what passed the filter, as elements of the model
        added = []
        if rec:
            num = lambda g: (g[0], g[1].source.get("_n"), g[1].target.get("_n"), (g[1].source.get("_n"), g[1].target.get("_n")))
            case.equal(len(rec.calls), len(want_calls), "scope-calls", "scopes with focus elements")
            for (given, out), pairs in zip(rec.calls, want_calls):
                g = sorted(num(x) for x in given)
                w = sorted((score[p], d1.nth(p[0]), d2.nth(p[1]), (d1.nth(p[0]), d2.nth(p[1]))) for p in pairs)
                case.check(len(g) == len(w) and all(gen_close(x[0], y[0]) and x[1:] == y[1:] for x, y in zip(
                    sorted(g, key=lambda x: x[1:]), sorted(w, key=lambda x: x[1:]))), "scores", "pairs scored %s, expected %s", g, w)
                out = [num(x) for x in out]
                check_filter(case, use, g, out)
                n1, n2 = d1.tagged(stag), d2.tagged(ttag)
                added += [(n1[o[1] - 1], n2[o[2] - 1]) for o in out]
        else:
            added = [p for c in want_calls for p in c]
        want = list(links)
        for p in added:
            if p not in want:
                want.append(p)
                case.seen("links_added")
            elif p in links:
                case.seen("already_linked")
        if links:
            case.seen("links_kept", len(links))
        got = [dict(x.attrib) for x in doc.get_alignments()]
        exp = [ptcgen.link_attrs(d1, d2, l, method) for l in want]
        key = lambda x: sorted(x.items())
        case.equal(sorted(map(key, got)), sorted(map(key, exp)), "links", "links after aligning with %s" % sorted(
            (k, v) for k, v in use.items() if not callable(v)))
        # grouped by source element in document order
        seq = []
        for x in got:
            same = d1.tagged(x["from_tag"])
            if method == "id":
                e = [e for e in same if e.id == x["from_id"]][0]
            else:
                e = same[int(x["from_n"]) - 1]
            seq.append(order[e])
        case.equal(seq, sorted(seq), "order", "source elements of the links")
        found = {}
        for l, x in zip(want, exp):
            found.setdefault(tuple(key(x)), []).append(l)
        links = []
        for x in got:
            links += found[tuple(key(x))]
        trace.append((sorted(map(key, exp)), len(score)))
        if score:
            case.distinct(trace)
        case.equal(doc.get_alignment_method(), method, "method", "method")
    case.sample(trace)


def gen_close(a, b):
    return abs(a - b) <= 1e-9


def case_filter(case):
    """filters on arbitrary scores"""
    rng = case.rng
    use = dict(filter=rng.choice(["threshold", "no_cross"]), level=rng.choice([0, 0.25, 0.5, 0.7, 1, 2]))
    n, m = rng.int(1, 7), rng.int(1, 7)
    if rng.chance(4):
        n, m = rng.int(8, 14), rng.int(8, 14)
    els = []
    for k in (n, m):
        els.append([])
        off = rng.below(9)
        for i in range(k):
            e = et.Element("s")
            e.set("_n", off + i + 1)
            els[-1].append(e)
    cand = [(i, j) for i in range(n) for j in range(m) if rng.chance(70)]
    rng.shuffle(cand)
    if rng.chance(50):
        # a hard case: scores without ties
        vals = [float(k) / len(cand) for k in range(len(cand))] if cand else []
        rng.shuffle(vals)
    else:
        vals = [rng.below(5) / 4.0 for _ in cand]
    if rng.chance(25):
        # similarities may be below zero
        vals = [v - 0.5 for v in vals]
        use["level"] = rng.choice([-1, -0.5, -0.25, 0, 0.25])
        case.seen("negative_scores")
    elif rng.chance(10):
        use["level"] = -0.5
    given = [(v, Pair(els[0][i], els[1][j])) for v, (i, j) in zip(vals, cand)]
    f = {"threshold": ta.threshold_filter_factory, "no_cross": ta.no_cross_filter_factory}[use["filter"]](use["level"])
    num = lambda g: (g[0], g[1].source.get("_n"), g[1].target.get("_n"), (g[1].source.get("_n"), g[1].target.get("_n")))
    before = [num(g) for g in given]
    out = f(list(given))
    check_filter(case, use, before, [num(o) for o in out])
    # the same function is used for many scopes
    out2 = f([g for g in given])
    check_filter(case, use, before, [num(o) for o in out2])
    if given:
        case.distinct((use, before))


def case_terms(case):
    rng = case.rng
    text = u" ".join(rng.choice(ptcgen.WORDS + FEW) for _ in range(rng.below(9)))
    n = rng.int(1, 3)
    for k in TERMS:
        case.equal(list(TERMS[k](n)(text)), model_terms(k, n, text), "terms-" + k, "%d-grams of %r" % (n, text))
    words = [w for w in text.lower().split() if w not in ptcgen.STOP and w not in string.punctuation]
    for k in ("jaccard", "dice", "overlap_min", "overlap_max", "equals"):
        x, y = [[rng.choice(u"abcd") for _ in range(rng.below(5))] for _ in range(2)]
        got = getattr(ta, k + "_sim")(x, y, None, None)
        case.check(gen_close(got, model_sim(k, x, y)), "sim-" + k, "%s of %s is %s, expected %s", k, (x, y), got, model_sim(k, x, y))
    x, y = [[rng.choice(u"abcd") for _ in range(rng.below(5))] for _ in range(2)]
    for k in ("cosine", "tanimoto", "type_match"):
        sh, want = len(set(x) & set(y)), None
        want = dict(cosine=ratio(sh, (len(x) * len(y)) ** 0.5), tanimoto=ratio(sh, len(x) + len(y) - sh), type_match=sh)[k]
        got = getattr(ta, k + "_sim")(x, y, None, None)
        case.check(gen_close(got, want), "sim-" + k, "%s of %s is %s, expected %s", k, (x, y), got, want)
    # vectors
    v, w = [[rng.below(4) * 0.5 for _ in range(3)] for _ in range(2)]
    dot = sum(p * q for p, q in zip(v, w))
    want = ratio(dot, (sum(p * p for p in v) * sum(q * q for q in w)) ** 0.5)
    got = ta.weighted_cosine_sim(None, None, v, w)
    case.check(gen_close(got, want), "weighted-cosine", "cosine of %s is %s, expected %s", (v, w), got, want)
    case.distinct((text, n, v, w))


GROUPS = [("align", case_align, 350, 4000), ("filter", case_filter, 400, 5000), ("terms", case_terms, 150, 1500)]
