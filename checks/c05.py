# -*- coding: utf-8 -*-
"""C05: copies and comparison"""
import copy, os
import xml.etree.cElementTree as et
import gen
from daeso.pair import Pair
from daeso.gb.graphbank import GraphBank
from daeso.graph.daesograph import DaesoGraph
from daeso.pgc.graphpair import GraphPair, GraphMapping
from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_NONE, LOAD_ALL, LOAD_SPARSE

RULE = ("random corpora (over existing or absent bank files), deep copies compared with a content model after "
        "every one of a series of changes to either side; pairs of corpora and pairs that differ in "
        "exactly one random detail, or only in blanks or order of alignments, compared in both directions; "
        "non-trivial = at least one pair or meta-data")
REQUIRED = ["large", "copy_changed", "orig_changed", "differ_1", "equal_pairs", "blank_only", "absent_banks", "pair_twice",
            "nonascii_meta", "mapping", "corpus_differs", "with_without_meta", "things"]
ASSUMPTIONS = ["pairs are GraphPair objects; GraphMapping objects are only compared with each other"]


def absent(rng, n=3):
    return dict(("/nonexistent/d%d/b.xml" % i, GraphBank("/nonexistent/d%d/b.xml" % i, "graphml"))
                for i in range(n))


def mkpair(pm, banks, cls=GraphPair, rng=None):
    """a real pair from a model"""
    md = None
    if pm.meta != gen.EMPTY_GMD:
        md = et.fromstring(gen.canon_xml(pm.meta).encode("utf-8"))
    gp = cls(Pair(banks[pm.sb], banks[pm.tb]),
             Pair(DaesoGraph(id=pm.sg), DaesoGraph(id=pm.tg)), meta_data=md)
    items = sorted(pm.align.items())
    if rng:
        rng.shuffle(items)
    for (s, t), r in items:
        gp.add_align(Pair(s, t), r)
    return gp


def rpm(rng, paths):
    md = gen.rmeta(rng, "graph_meta_data")
    pm = gen.PairModel(rng.choice(paths), u"g%d" % rng.int(1, 4), rng.choice(paths), u"h%d" % rng.int(1, 4),
                       meta=gen.EMPTY_GMD if md is None else gen.canon(md))
    n, form = rng.weighted([((5, u"n%d"), 6), ((5, u"a_rather_long_identifier_%d"), 1), ((90, u"n%d"), 1)])
    if n < 90:
        for _ in range(rng.int(0, n)):
            pm.add(form % rng.below(n), form % rng.below(n), rng.choice(gen.RELS))
    else:
        # many alignments: every node of a permutation once
        to = range(150)
        rng.shuffle(to)
        for i in range(rng.int(20, 150)):
            pm.add(form % i, form % to[i], rng.choice(gen.RELS))
    return pm


def other(rng, s):
    """another name"""
    return rng.choice([s + u"z", s.upper(), s + u" ", s[:-1] + u"9", u"0" + s, s[:-1] + u"0" + s[-1:]])


def change_pm(rng, pm, paths):
    """a model differing in exactly one detail"""
    q = pm.copy()
    while True:
        k = rng.below(9)
        if k == 0:
            q.sb = rng.choice(paths)
        elif k == 1:
            q.tb = rng.choice(paths)
        elif k == 2:
            q.sg = other(rng, q.sg)
        elif k == 3:
            q.tg = other(rng, q.tg)
        elif k == 4 and q.align:
            del q.align[rng.choice(sorted(q.align))]
        elif k == 5 and q.align:
            q.align[rng.choice(sorted(q.align))] = rng.choice(list(gen.RELS) + [u"Equals", u"equals ", u"restate", u"a relation that is unheard of"])
        elif k == 6:
            q.align[u"x%d" % rng.below(3), u"y"] = u"equals"
        elif k == 7:
            q.meta = change_meta(rng, q.meta)
        elif k == 8 and q.align:
            # move an alignment to another node
            s, t = rng.choice(sorted(q.align))
            r = q.align.pop((s, t))
            if rng.chance(50):
                q.align[s, other(rng, t)] = r
            else:
                q.align[other(rng, s), t] = r
        if q.key() != pm.key():
            return q, k


def change_meta(rng, m):
    tag, attrib, text, tail, kids = m
    k = rng.below(6)
    if k == 0:
        return (tag, attrib, (text + u" é").strip(), tail, kids)
    if k == 1:
        return (tag, tuple(sorted(dict(attrib, new=u"1").items())), text, tail, kids)
    if k == 2 and attrib:
        return (tag, attrib[1:], text, tail, kids)
    if k == 3 and kids:
        i = rng.below(len(kids))
        return (tag, attrib, text, tail, kids[:i] + kids[i + 1:])
    if k == 4 and kids:
        i = rng.below(len(kids))
        return (tag, attrib, text, tail, kids[:i] + (change_meta(rng, kids[i]),) + kids[i + 1:])
    if k == 5:
        if kids and rng.chance(50):
            # tail of a child
            c = kids[-1]
            return (tag, attrib, text, tail, kids[:-1] + ((c[0], c[1], c[2], (c[3] + u" t").strip(), c[4]),))
        return (tag, attrib, text, tail, kids + (("p", (), u"", u"", ()),))
    return m


def blanks(rng, el, top=True):
    """change blanks only"""
    pad = [u"", u" ", u"\n  ", u"\t"]
    if el.text or rng.chance(40):
        el.text = rng.choice(pad) + (el.text or u"").strip() + rng.choice(pad)
    if not top:
        el.tail = rng.choice(pad) + (el.tail or u"").strip() + rng.choice(pad)
    for k in el:
        blanks(rng, k, False)


def compare(case, a, b, want, what):
    for x, y in ((a, b), (b, a)):
        r = (x == y)
        case.check(bool(r) == want, "eq-wrong", what + ": == gives %s, expected " + str(want), r)
        r = (x != y)
        case.check(bool(r) == (not want), "ne-wrong", what + ": != gives %s, expected " + str(not want), r)


def g_pairs(case):
    rng = case.rng
    if rng.chance(50):
        banks = absent(rng)
        case.seen("absent_banks")
    else:
        d = case.scratch
        banks = {}
        for i in range(3):
            p = os.path.join(d, "b%d.xml" % i)
            gen.put(p, "<graphml/>")
            banks[p] = GraphBank(p, "graphml")
    # other bank objects for the same files
    banks2 = dict((p, GraphBank(p, "graphml")) for p in banks)
    paths = sorted(banks)
    cls = GraphPair
    if rng.chance(20):
        cls = GraphMapping
        case.seen("mapping")
    for _ in range(6):
        pm = rpm(rng, paths)
        a = mkpair(pm, banks, cls)
        b = mkpair(pm, banks2, cls, rng)
        if any(ord(x) > 127 for x in repr(pm.meta).decode("unicode_escape")):
            case.seen("nonascii_meta")
        compare(case, a, b, True, "pairs of equal content %r" % (pm.key(),))
        compare(case, a, a, True, "pair and itself")
        case.seen("equal_pairs")
        m = b.get_meta_data()
        blanks(rng, m)
        compare(case, a, b, True, "pairs differing in blanks only")
        case.seen("blank_only")
        q, k = change_pm(rng, pm, paths)
        c = mkpair(q, rng.choice([banks, banks2]), cls, rng)
        compare(case, a, c, False, "pairs differing in detail %d %r, %r" % (k, pm.key(), q.key()))
        case.seen("differ_1")
        case.seen("differ_kind_%d" % k)
        for x in (None, 1, "x", a.get_banks(), [a]):
            case.check(not (a == x), "eq-wrong", "pair == %s", x)
            case.check(a != x, "ne-wrong", "not pair != %s", x)
        case.distinct(repr((pm.key(), q.key())))
    case.sample((k, pm.key(), q.key()))


def snapshot(c):
    return gen.corpus_key(c)


def mutate(case, c, rng, banks):
    """some change through the public API or to the meta-data elements"""
    n = len(c)
    while True:
        k = rng.below(11)
        case.note(("change", k))
        if k == 0 and n:
            gp = c[rng.below(n)]
            gp.add_align(Pair(u"q%d" % rng.below(9), u"r%d" % rng.below(9)), u"new")
        elif k == 1 and n:
            gp = c[rng.below(n)]
            al = gp.alignments()
            if not al:
                continue
            gp.del_align(rng.choice(al)[0])
        elif k == 2 and n:
            gp = c[rng.below(n)]
            al = gp.alignments()
            if not al:
                continue
            gp.add_align(rng.choice(al)[0], u"relabelled%d" % rng.below(99))
        elif k == 3 and n:
            m = c[rng.below(n)].get_meta_data()
            el = rng.choice(list(m.getiterator()))
            el.text = u"changed %d é" % rng.below(99)
        elif k == 4 and n:
            m = c[rng.below(n)].get_meta_data()
            el = rng.choice(list(m.getiterator()))
            et.SubElement(el, "added")
        elif k == 5 and c.get_meta_data() is not None:
            el = rng.choice(list(c.get_meta_data().getiterator()))
            el.set("changed", u"%d" % rng.below(99))
        elif k == 6:
            c.get_relations().append(u"rel%d" % rng.below(99))
        elif k == 7 and n:
            del c[rng.below(n)]
        elif k == 8 and n > 1:
            c.reverse()
        elif k == 9 and c.get_meta_data() is not None:
            c.set_annotator(u"anna%d" % rng.below(99))
        elif k == 10 and n:
            c[rng.below(n)].set_meta_data(et.Element("graph_meta_data", new="1"))
        else:
            continue
        return k


def g_copy(case):
    rng = case.rng
    banks = gen.rbanks(rng, case.scratch)
    if rng.chance(50):
        model = gen.rmodel(rng, banks, 6)
        path = os.path.join(case.scratch, "c.pgc")
        gen.put(path, gen.pgc_xml(rng, model, case.scratch, [(u"%d" % i, b.path, b.path)
                                                             for i, b in enumerate(banks)]))
        c = ParallelGraphCorpus(inf=path, graph_loading=rng.choice([LOAD_ALL, LOAD_SPARSE, LOAD_NONE]))
    else:
        c, model, _, _ = gen.rcorpus(rng, case.scratch, banks=banks)
    if rng.chance(20) and len(c):
        c = c + c[:1]                       # a pair twice
        model.pairs.append(model.pairs[0])
        case.seen("pair_twice")
    dup = len(set(map(id, c))) < len(c)
    d = copy.deepcopy(c)
    case.check(isinstance(d, ParallelGraphCorpus), "copy-type", "copy is %s", type(d))
    diff = gen.diff_key(snapshot(d), model.key())
    case.check(diff is None, "copy-differs", "deep copy: %s" % diff)
    case.equal([[x is y for y in d] for x in d], [[x is y for y in c] for x in c], "copy-twice", "pairs which occur twice")
    compare(case, c, d, True, "deep copy")
    for a, b in zip(c, d):
        case.check(a is not b, "copy-shares", "copy shares a pair")
        for x, y in zip(a.get_banks(), b.get_banks()):
            case.check(x is y, "copy-bank", "copy has another bank")
        for x, y in zip(a.get_graphs(), b.get_graphs()):
            case.check(x is y, "copy-graph", "copy has another graph")
    e = copy.deepcopy(d)
    kinds = []
    for _ in range(rng.int(2, 8)):
        x, y = (c, d) if rng.chance(50) else (d, c)
        before, before_e = snapshot(y), snapshot(e)
        old = snapshot(x)
        kinds.append(mutate(case, x, rng, banks))
        case.seen("copy_changed" if x is d else "orig_changed")
        diff = gen.diff_key(snapshot(y), before) or gen.diff_key(snapshot(e), before_e)
        case.check(diff is None, "copy-not-independent", "change of one side shows in the other: %s" % diff)
        compare(case, c, d, snapshot(c) == snapshot(d), "copy and original after changes")
    if model.pairs or model.meta:
        case.distinct(repr((model.key(), kinds)))
    case.sample(kinds)


def g_paircopy(case):
    rng = case.rng
    banks = absent(rng)
    paths = sorted(banks)
    cls = rng.choice([GraphPair, GraphMapping])
    pm = rpm(rng, paths)
    a = mkpair(pm, banks, cls)
    b = copy.deepcopy(a)
    case.check(type(b) is type(a), "copy-type", "copy is %s", type(b))
    compare(case, a, b, True, "copy of pair")
    hold = ParallelGraphCorpus([a]), ParallelGraphCorpus([b])
    for _ in range(6):
        i = rng.below(2)
        x, y = (a, b) if i else (b, a)
        before = gen.pair_key(y)
        k = rng.below(4)
        if k == 0:
            x.add_align(Pair(u"n%d" % rng.below(5), u"n%d" % rng.below(5)), rng.choice(gen.RELS))
        elif k == 1 and x.alignments():
            x.del_align(x.alignments()[0][0])
        elif k == 2:
            x.get_meta_data().text = u"t%d" % rng.below(99)
        else:
            et.SubElement(x.get_meta_data(), "x")
        case.equal(gen.pair_key(y), before, "copy-not-independent", "other side")
        compare(case, a, b, gen.pair_key(a) == gen.pair_key(b), "copy after changes")
    case.distinct(repr(pm.key()))


def g_things(case):
    """pairs of anything, and pairs of graphs without alignments"""
    rng = case.rng
    vals = [None, 0, 1, False, u"a", "a", u"b", "", (), [], [1], [1, 2], [2, 1], (1, 2), (2, 1), u"A", u"ab", u"ba", u" a", 1.0, Pair(), Pair(1, 2), Pair(2, 1), Pair("a", u"a")]
    for _ in range(20):
        s, t, u, v = [rng.choice(vals) for _ in range(4)]
        if rng.chance(15) and isinstance(s, (list, tuple)):
            u, v = s[::-1], t
        elif rng.chance(40):
            u, v = s, t
        elif rng.chance(20):
            u, v = t, s
        a, b = Pair(s, t), Pair(target=v, source=u)
        same = bool(s == u) and bool(t == v)
        for x, y in ((a, b), (b, a)):
            case.check(bool(x == y) == same, "pair-eq", "%r == %r gives %r", x, y, x == y)
            case.check(bool(x != y) == (not same), "pair-ne", "%r != %r gives %r", x, y, x != y)
        for o in (None, (s, t), [s, t], 1, "x", object()):
            case.check(not a == o and a != o, "pair-eq", "%r equals %r", a, o)
        case.check(a.source is s and a.target is t, "pair", "members of %r", a)
        p, q = a
        case.check(p is s and q is t and len(list(a)) == 2, "pair-iter", "iteration over %r gives %r", a, list(a))
        case.check(a is not list(a), "pair", "")
        case.equal(repr(a), "Pair(source=%r, target=%r)" % (s, t), "pair-repr", "repr")
        a.set(u, v)
        case.check(a.source is u and a.target is v and a == b, "pair-set", "%r after set(%r, %r)", a, u, v)
        a.set(target=s)
        case.check(a.source is None and a.target is s, "pair-set", "%r after set(target=%r)", a, s)
        a.source = t
        case.check(list(a)[0] is t and a == Pair(t, s), "pair-set", "%r after setting source", a)
        for x, y in ((copy.copy(b), b), (copy.deepcopy(b), b)):
            case.check(x == y and x is not y, "pair-copy", "copy %r of %r", x, y)
            x.set(1, object())
            case.check(b.source is u and b.target is v, "pair-copy", "changed copy of %r", b)
    banks = absent(rng)
    pm = rpm(rng, sorted(banks))
    pm.align.clear()
    from daeso.pgc.graphpair import GraphPairBase
    a = mkpair(pm, banks, GraphPairBase)
    b = copy.deepcopy(a)
    case.check(type(b) is GraphPairBase, "copy-type", "copy is %s", type(b))
    case.check(b.get_banks().source is a.get_banks().source and b.get_banks().target is a.get_banks().target, "copy-bank", "banks of copy")
    case.check(b.get_graphs().source is a.get_graphs().source and b.get_graphs().target is a.get_graphs().target, "copy-graph", "graphs of copy")
    case.check(a == b and not a != b, "copy-differs", "copy differs")
    case.equal(gen.canon(b.get_meta_data()), gen.canon(a.get_meta_data()), "copy-differs", "meta-data of copy")
    old = gen.canon(a.get_meta_data())
    b.get_meta_data().set("new", "1")
    case.equal(gen.canon(a.get_meta_data()), old, "copy-not-independent", "original after change of copy")
    case.check(a != b and not a == b, "equal-but-different", "changed copy is equal")
    case.seen("things")
    case.distinct(repr((pm.key(), case.index)))


def build(model, banks, rng=None):
    md = None
    if model.meta is not None:
        md = et.fromstring(gen.canon_xml(model.meta).encode("utf-8"))
    rels = list(model.relations)
    if rng:
        rng.shuffle(rels)
    return ParallelGraphCorpus([mkpair(p, banks, GraphPair, rng) for p in model.pairs], rels, md)


def g_corpora(case):
    rng = case.rng
    banks, banks2 = absent(rng), absent(rng)
    paths = sorted(banks)
    md = gen.rmeta(rng, "corpus_meta_data")
    model = gen.CorpusModel(rng.sample(gen.RELS, rng.int(0, 5)), None if md is None else gen.canon(md),
                            [rpm(rng, paths) for _ in range(rng.int(0, 5) if rng.chance(94) else 40)])
    if len(model.pairs) > 25:
        case.seen("large")
    a, b = build(model, banks), build(model, banks2, rng)
    compare(case, a, b, True, "corpora of equal content")
    for _ in range(8):
        q = gen.CorpusModel(list(model.relations), model.meta, [p.copy() for p in model.pairs])
        k = rng.below(8)
        n = len(q.pairs)
        if k == 0:
            q.relations = sorted(q.relations + [u"extra"])
        elif k == 1 and q.relations:
            del q.relations[rng.below(len(q.relations))]
        elif k == 2:
            q.meta = None if q.meta is not None else ("corpus_meta_data", (), u"", u"", ())
            case.seen("with_without_meta")
        elif k == 3 and q.meta is not None:
            q.meta = change_meta(rng, q.meta)
        elif k == 4 and n:
            i = rng.below(n)
            q.pairs[i], _ = change_pm(rng, q.pairs[i], paths)
        elif k == 5 and n:
            del q.pairs[rng.below(n)]
        elif k == 6:
            q.pairs.insert(rng.int(0, n), rpm(rng, paths))
        elif k == 7 and n > 1:
            rng.shuffle(q.pairs)
        else:
            continue
        c = build(q, rng.choice([banks, banks2]), rng)
        want = model.key() == q.key()
        compare(case, a, c, want, "corpora differing in detail %d" % k)
        if not want:
            case.seen("corpus_differs")
        case.distinct(repr((model.key(), q.key())))
    for x in (None, 1, "x", [], list(a)):
        case.check(not (a == x), "eq-wrong", "corpus == %s", x)
        case.check(a != x, "ne-wrong", "not corpus != %s", x)
    b = build(model, banks2, rng)
    if b.get_meta_data() is not None:
        blanks(rng, b.get_meta_data())
    for gp in b:
        blanks(rng, gp.get_meta_data())
    compare(case, a, b, True, "corpora differing in blanks only")
    case.sample(model.key())


GROUPS = [("things", g_things, 60, 600), ("pairs", g_pairs, 180, 2500), ("copy", g_copy, 180, 2500),
          ("paircopy", g_paircopy, 120, 1500), ("corpora", g_corpora, 150, 2000)]
