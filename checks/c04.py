# -*- coding: utf-8 -*-
"""C04: list behaviour of corpora"""
import operator, os, sys, warnings
import xml.etree.cElementTree as et
import gen
from daeso.pair import Pair
from daeso.exception import DaesoWarning
from daeso.gb.graphbank import GraphBank
from daeso.graph.daesograph import DaesoGraph
from daeso.pgc.graphpair import GraphPair
from daeso.pgc.corpus import ParallelGraphCorpus

FILTERS = list(warnings.filters)
warnings.simplefilter("ignore")

RULE = ("random sequences of 5-40 list operations on corpora of 0-8 graph pairs (equal but distinct and "
        "repeated pairs included), each also done on a plain list of the same objects; identity of "
        "the members compared after every operation; non-trivial = a history with several kinds of "
        "operation")
REQUIRED = ["large", "order", "refused_type", "refused_value", "same_error", "slice", "extended_slice", "setslice",
            "setslice_ext", "sum", "multiple", "rmultiple", "sort", "pop", "insert", "index",
            "index_range", "extend_self", "count", "remove", "iadd", "imul", "extend", "iter", "contains",
            "delslice", "meta_kept", "meta_warned", "overflow_bounds", "printed"]
ASSUMPTIONS = ["members are not changed during a history", "extend does not check its members (documented)"]

BANKS = [GraphBank("/nonexistent/b%d.xml" % i, "graphml") for i in range(3)]


def rpairs(rng, n):
    """pairs drawn from few contents, so that equal ones occur"""
    out = []
    for i in range(n):
        k = rng.below(4)
        b = BANKS[k % 3]
        gp = GraphPair(Pair(b, BANKS[0]), Pair(DaesoGraph(id=u"g%d" % k), DaesoGraph(id=u"h")))
        if rng.chance(50):
            gp.add_align(Pair(u"n1", u"n2"), u"equals")
            key = (k, 1)
        else:
            key = (k, 0)
        out.append((gp, key))
    return out


class T(object):
    """a corpus and the list it should behave as"""
    def __init__(self, c, l, keys, rels, md):
        self.c, self.l, self.keys, self.rels, self.md = c, l, keys, rels, md


def same(case, c, l, t, what):
    case.check(isinstance(c, ParallelGraphCorpus), "not-corpus", what + " gives %s", type(c))
    got = [id(x) for x in list.__iter__(c)]
    case.check(got == [id(x) for x in l], "content", what + ": members differ from those of a list "
               "(%s, expected %s)", [t.keys.get(id(x)) for x in list.__iter__(c)],
               [t.keys[id(x)] for x in l])
    case.equal(len(c), len(l), "content", what + " len")
    case.equal(list(c.get_relations()), sorted(t.rels), "relations", what + " relations")
    case.check(c.get_meta_data() is t.md, "meta-data", what + " meta-data")


def rbound(rng, n):
    return rng.weighted([(None, 2), (rng.int(-n - 3, n + 3), 8), (sys.maxint, 1),
                         (-sys.maxint - 1, 1), (10 ** 30, 1), (-10 ** 30, 1)])


def slc(rng, n, ext):
    i, j = rbound(rng, n), rbound(rng, n)
    k = rng.choice([None, 1, 2, 3, -1, -2, -3]) if ext else None
    return i, j, k


def other_corpus(rng, t, case, n=None, rels=None):
    ps = rpairs(rng, rng.int(0, 4) if n is None else n)
    for gp, k in ps:
        t.keys[id(gp)] = k
    t.keep += [gp for gp, _ in ps]
    ps = [gp for gp, _ in ps]
    if t.l and rng.chance(30):
        ps = ps + [rng.choice(t.l)] if n is None else ps
    md = rng.choice([None, t.md, et.Element("corpus_meta_data")])
    return ParallelGraphCorpus(ps, list(t.rels if rels is None else rels), md), ps


def both(case, t, cf, lf, what):
    """do the same to corpus and list; errors must agree"""
    before = list(t.l)
    try:
        want, le = lf(), None
    except Exception, e:
        want, le = None, e
    try:
        got, ce = cf(), None
    except Exception, e:
        got, ce = None, e
    if le is not None:
        t.l[:] = before
        case.check(ce is not None, "no-error", what + " does not raise %s as a list does",
                   le.__class__.__name__)
        case.check(isinstance(ce, le.__class__), "error-type", what + " raises %s, a list %s", ce, le)
        same(case, t.c, before, t, "failed " + what)
        case.seen("same_error")
    elif ce is not None:
        raise ce
    return got, want, le


def keyidx(t, key, i=0, j=None):
    ks = [t.keys[id(x)] for x in t.l]
    return ks.index(key, i, len(ks) if j is None else j)


def step(case, t):
    rng = case.rng
    n = len(t.l)
    op = rng.choice(["get", "slice", "xslice", "slobj", "set", "setslice", "setslice_ext", "del",
                     "delslice", "delslice_ext", "append", "insert", "extend", "pop", "remove",
                     "index", "count", "contains", "reverse", "sort", "add", "iadd", "mul",
                     "rmul", "imul", "iter", "clear", "bad_type", "bad_value", "bad_index", "order", "print"])
    case.note(op)
    if op == "get":
        i = rng.int(-n - 2, n + 1)
        g, w, e = both(case, t, lambda: t.c[i], lambda: t.l[i], "corpus[%d]" % i)
        if e is None:
            case.check(g is w, "getitem", "corpus[%s] is not the list's item", i)
    elif op in ("slice", "xslice", "slobj"):
        i, j, k = slc(rng, n, op == "xslice")
        if abs(i or 0) > 10 ** 20 or abs(j or 0) > 10 ** 20:
            case.seen("overflow_bounds")
        what = "corpus[%s:%s:%s]" % (i, j, k)
        if op == "xslice":
            got, want = t.c[i:j:k], t.l[i:j:k]
            case.seen("extended_slice")
        elif op == "slobj":
            got, want = t.c[slice(i, j, k)], t.l[slice(i, j, k)]
        else:
            got, want = eval("x[%s:%s]" % ("" if i is None else i, "" if j is None else j), {"x": t.c}), t.l[i:j]
            case.seen("slice")
        same(case, got, want, t, what)
        case.check(got is not t.c, "aliased", what + " is the corpus itself")
    elif op == "set":
        i = rng.int(-n - 1, n)
        gp = one(t, rng)
        def f(x):
            x[i] = gp
        both(case, t, lambda: f(t.c), lambda: f(t.l), "corpus[%d]=" % i)
    elif op in ("setslice", "setslice_ext"):
        i, j, k = slc(rng, n, op != "setslice")
        size = None
        if op != "setslice" and rng.chance(70):
            size = len(t.l[i:j:k])
        oc, ol = other_corpus(rng, t, case, size)
        case.note((i, j, k, len(ol)))
        def f(x, y):
            if op == "setslice":
                if i is None or j is None:
                    x[slice(i, j)] = y
                else:
                    x[i:j] = y
            else:
                x[i:j:k] = y
        _, _, e = both(case, t, lambda: f(t.c, oc), lambda: f(t.l, ol), "corpus[%s:%s:%s]=" % (i, j, k))
        if e is None:
            case.seen(op)
        if rng.chance(20):
            # itself
            def f(x):
                x[i:j] = x
            both(case, t, lambda: f(t.c), lambda: f(t.l), "corpus[%s:%s]=corpus" % (i, j))
            trim(case, t)
    elif op == "del":
        i = rng.int(-n - 2, n + 1)
        def f(x):
            del x[i]
        both(case, t, lambda: f(t.c), lambda: f(t.l), "del corpus[%d]" % i)
    elif op in ("delslice", "delslice_ext"):
        i, j, k = slc(rng, n, op != "delslice")
        def f(x):
            if op == "delslice":
                if i is None:
                    del x[:j]
                elif j is None:
                    del x[i:]
                else:
                    del x[i:j]
            else:
                del x[i:j:k]
        both(case, t, lambda: f(t.c), lambda: f(t.l), "del corpus[%s:%s:%s]" % (i, j, k))
        case.seen("delslice")
    elif op == "append":
        gp = one(t, rng)
        t.c.append(gp)
        t.l.append(gp)
    elif op == "insert":
        i = rng.int(-n - 2, n + 2)
        gp = one(t, rng)
        t.c.insert(i, gp)
        t.l.insert(i, gp)
        case.seen("insert")
    elif op == "extend":
        oc, ol = other_corpus(rng, t, case)
        kind = rng.below(4)
        t.c.extend([oc, ol, iter(ol), tuple(ol)][kind])
        t.l.extend(ol)
        case.seen("extend")
        if t.l and case.index % 6 == 0 and rng.chance(50):
            # itself (in one worker: going on for ever fills its memory)
            case.seen("extend_self")
            kind = rng.below(3)
            if kind == 0:
                t.c.extend(t.c)
            elif kind == 1:
                t.c.extend(iter(t.c[:]))
            else:
                t.c += t.c
            t.l.extend(list(t.l))
            trim(case, t)
    elif op == "pop":
        if rng.chance(40):
            g, w, e = both(case, t, lambda: t.c.pop(), lambda: t.l.pop(), "pop()")
        else:
            i = rng.int(-n - 1, n)
            g, w, e = both(case, t, lambda: t.c.pop(i), lambda: t.l.pop(i), "pop(%d)" % i)
        case.check(g is w, "pop", "pop returned %s", g)
        case.seen("pop")
    elif op == "remove":
        gp = probe(t, rng)
        key = t.keys[id(gp)]
        def lf():
            del t.l[keyidx(t, key)]
        both(case, t, lambda: t.c.remove(gp), lf, "remove")
        case.seen("remove")
    elif op == "index":
        gp = probe(t, rng)
        key = t.keys[id(gp)]
        if rng.chance(50):
            g, w, e = both(case, t, lambda: t.c.index(gp), lambda: keyidx(t, key), "index")
        else:
            i, j = rng.int(-n - 2, n + 2), rng.int(-n - 2, n + 2)
            if rng.chance(50):
                g, w, e = both(case, t, lambda: t.c.index(gp, i, j), lambda: keyidx(t, key, i, j), "index(%d,%d)" % (i, j))
            else:
                g, w, e = both(case, t, lambda: t.c.index(gp, i), lambda: keyidx(t, key, i), "index(%d)" % i)
            case.seen("index_range")
        case.equal(g, w, "index", "index")
        case.seen("index")
    elif op == "count":
        gp = probe(t, rng)
        case.equal(t.c.count(gp), [t.keys[id(x)] for x in t.l].count(t.keys[id(gp)]), "count", "count")
        case.seen("count")
    elif op == "contains":
        gp = probe(t, rng)
        case.equal(gp in t.c, t.keys[id(gp)] in [t.keys[id(x)] for x in t.l], "contains", "in")
        for x in (None, "x", 3, [], list(t.l), object(), ("a", "b")):
            case.check(x not in t.c, "contains", "strange member %s", x)
            case.check(t.c.count(x) == 0, "count", "strange member %s", x)
            case.check(not (gp == x) and gp != x and not (x == gp) and x != gp, "equality", "pair equals %s", x)
            case.check(isinstance(x, list) or not (t.c == x) and t.c != x, "equality", "corpus equals %s", x)
        case.seen("contains")
    elif op == "order":
        # relations and meta-data do not matter, and neither does a difference in type
        k = rng.choice([0, n, rng.int(0, n), n])
        ol = t.l[:k]
        if rng.chance(40):
            ol.insert(rng.int(0, len(ol)), one(t, rng))
        oc = ParallelGraphCorpus(list(ol), [u"other"]) if rng.chance(70) else list(ol)
        case.seen("order")
        for name in ("__lt__", "__le__", "__gt__", "__ge__"):
            f = getattr(operator, name)
            want = f(t.l, ol)
            case.check(f(t.c, oc) is want, "order", "corpus %s other is not %s", name, want)
            if isinstance(oc, ParallelGraphCorpus):
                case.check(f(oc, t.c) is f(ol, t.l), "order", "other %s corpus is not %s", name, f(ol, t.l))
    elif op == "print":
        r = repr(t.c)
        case.check(r.startswith("ParallelGraphCorpus("), "repr", "repr is %s", r[:60])
        at = -1
        for gp in t.l:
            at = r.find(repr(gp), at + 1)
            case.check(at >= 0, "repr", "a pair is missing from the repr of the corpus, or out of order: %s", r[:200])
        case.check(repr(sorted(t.rels)) in r, "repr", "relations are not in the repr of the corpus")
        top = et.fromstring(str(t.c))
        case.equal(len(list(top.iter("graph_pair"))), len(t.l), "str", "graph pairs in str(corpus)")
        case.equal([e.text for e in top.iter("relation")], sorted(t.rels), "str", "relations in str(corpus)")
        case.equal([len(e.findall("node_pair")) for e in top.iter("graph_pair")], [t.keys[id(x)][1] for x in t.l],
                   "str", "node pairs in str(corpus)")
        same(case, t.c, t.l, t, "printing")
        case.seen("printed")
    elif op == "reverse":
        t.c.reverse()
        t.l.reverse()
    elif op == "sort":
        rev = rng.chance(50)
        f = lambda gp: t.keys[id(gp)][0] % 2
        kw = dict(reverse=rev) if rev or rng.chance(50) else {}
        if rng.chance(50):
            t.c.sort(key=f, **kw)
        else:
            t.c.sort(lambda a, b: cmp(f(a), f(b)), **kw)
        t.l.sort(key=f, reverse=rev)
        case.seen("sort")
    elif op == "add":
        oc, ol = other_corpus(rng, t, case)
        got = t.c + oc
        same(case, got, t.l + ol, t, "sum")
        case.check(got is not t.c, "aliased", "sum is the corpus itself")
        case.check([id(x) for x in oc] == [id(x) for x in ol], "operand", "sum changed its operand")
        case.seen("sum")
    elif op == "iadd":
        oc, ol = other_corpus(rng, t, case)
        c = t.c
        if rng.chance(15):
            oc, ol = t.c, list(t.l)
        c += oc
        case.check(c is t.c, "iadd", "+= gives another object")
        t.l += ol
        trim(case, t)
        case.seen("iadd")
    elif op in ("mul", "rmul"):
        k = rng.int(-1, 3)
        got = t.c * k if op == "mul" else k * t.c
        same(case, got, t.l * k, t, "multiple")
        case.check(got is not t.c, "aliased", "multiple is the corpus itself")
        case.raises(TypeError, lambda: t.c * "x", kind="no-error", what="corpus * 'x'")
        case.raises(TypeError, lambda: t.c * t.c, kind="no-error", what="corpus * corpus")
        case.seen("multiple" if op == "mul" else "rmultiple")
    elif op == "imul":
        k = rng.weighted([(0, 1), (1, 3), (2, 4), (3, 1)])
        c = t.c
        c *= k
        case.check(c is t.c, "imul", "*= gives another object")
        t.l *= k
        trim(case, t)
        case.seen("imul")
    elif op == "iter":
        case.check([id(x) for x in t.c] == [id(x) for x in t.l], "iter", "iteration")
        case.check([id(x) for x in reversed(t.c)] == [id(x) for x in reversed(t.l)], "iter", "reversed")
        case.check([id(x) for _, x in enumerate(t.c)] == [id(x) for x in t.l], "iter", "enumerate")
        case.check([id(a) for a, b in zip(t.c, t.c)] == [id(x) for x in t.l], "iter", "zip")
        case.equal(bool(t.c), bool(t.l), "iter", "truth")
        same(case, ParallelGraphCorpus(t.c, t.c.get_relations(), t.c.get_meta_data()), t.l, t, "corpus(corpus)")
        same(case, ParallelGraphCorpus(iter(t.l), t.c.get_relations(), t.c.get_meta_data()), t.l, t, "corpus(iter)")
        case.seen("iter")
    elif op == "clear":
        if rng.chance(30):
            t.c.clear()
            t.l[:] = []
    elif op == "bad_type":
        x = rng.choice([None, 1, "x", [], et.Element("a"), DaesoGraph(id=u"g"), Pair(1, 2), BANKS[0],
                        ParallelGraphCorpus()])
        i = rng.int(-n, n)
        for what, f in (("append", lambda: t.c.append(x)), ("insert", lambda: t.c.insert(i, x))):
            case.raises(TypeError, f, kind="bad-accepted", what=what + repr(type(x)))
            same(case, t.c, t.l, t, "refused " + what)
        def f():
            t.c[i] = x
        case.raises((TypeError, IndexError), f, kind="bad-accepted", what="setitem")
        y = rng.choice([None, 1, "x", [], tuple(t.l), list(t.l), [1]])
        def f1():
            t.c[0:1] = y
        def f2():
            t.c[::2] = y
        def f3():
            t.c.__iadd__(y)
        def f4():
            c = t.c
            c += y
        for what, f in (("+", lambda: t.c + y), ("setslice", f1), ("ext setslice", f2), ("__iadd__", f3), ("+=", f4)):
            case.raises(TypeError, f, kind="bad-accepted", what=what + repr(type(y)))
            same(case, t.c, t.l, t, "refused " + what)
        case.seen("refused_type")
    elif op == "bad_value":
        rels = rng.choice([[], ["equals"], ["equals", "x"], list(t.rels) + ["zz"]])
        if sorted(rels) == sorted(t.rels):
            return
        oc, ol = other_corpus(rng, t, case, None, rels)
        def f1():
            t.c[0:1] = oc
        def f2():
            t.c[::1] = oc
        def f4():
            c = t.c
            c += oc
        for what, f in (("+", lambda: t.c + oc), ("setslice", f1), ("ext setslice", f2), ("+=", f4)):
            case.raises(ValueError, f, kind="bad-accepted", what=what + " other relations")
            same(case, t.c, t.l, t, "refused " + what)
        case.seen("refused_value")
    elif op == "bad_index":
        def fset():
            t.c["a"] = one(t, rng)
        def fdel():
            del t.c["a"]
        def fdel2():
            del t.c[1.5]
        for what, f in (("get", lambda: t.c["a"]), ("get", lambda: t.c[None]), ("set", fset), ("del", fdel), ("del", fdel2)):
            case.raises(TypeError, f, kind="bad-accepted", what=what + " strange index")
        case.raises(ValueError, lambda: t.c[::0], kind="bad-accepted", what="zero step")
    return op


def one(t, rng):
    if t.l and rng.chance(25):
        return rng.choice(t.l)
    (gp, key), = rpairs(rng, 1)
    t.keys[id(gp)] = key
    t.keep.append(gp)
    return gp


def probe(t, rng):
    """a pair that is in the corpus, is equal to one, or neither"""
    if t.l and rng.chance(40):
        return rng.choice(t.l)
    return one(t, rng)


def trim(case, t):
    if len(t.l) > 40:
        del t.c[12:]
        del t.l[12:]


def g_history(case):
    rng = case.rng
    large = rng.chance(6)
    if large:
        case.seen("large")
    ps = rpairs(rng, rng.int(26, 150) if large else rng.int(0, 8))
    rels = rng.shuffle(rng.sample(gen.RELS, rng.int(0, 5)))
    md = rng.choice([None, et.Element("corpus_meta_data")])
    c = ParallelGraphCorpus([gp for gp, _ in ps], list(rels), md)
    t = T(c, [gp for gp, _ in ps], dict((id(gp), k) for gp, k in ps), rels, md)
    t.keep = [gp for gp, _ in ps]
    same(case, t.c, t.l, t, "new corpus")
    ops = []
    for _ in range(rng.int(5, 40) if not large else 8):
        ops.append(step(case, t))
        same(case, t.c, t.l, t, "after %s" % ops[-1])
    if len(set(ops)) > 2:
        case.distinct(repr((rels, ops, [t.keys[id(x)] for x in t.l])))
    case.sample(ops[:12])


def rmeta(rng):
    """meta-data, and what it says"""
    k = rng.below(5)
    if k == 0:
        return None, None
    e = et.Element("corpus_meta_data")
    text = rng.choice([None, u"Jan", u"Piet", u"jan", u""])
    if k > 1:
        x = et.SubElement(e, rng.choice(["annotator", "comment"]))
        x.text = text
        e.tail = rng.choice([None, u"\n "])
        return e, (x.tag, text or u"")
    return e, ()


def g_warn(case):
    """meta-data of another corpus is lost, which is said each time, and only then"""
    rng = case.rng
    rels = list(gen.RELS[:2])
    for _ in range(3):
        (m1, k1), (m2, k2) = rmeta(rng), rmeta(rng)
        if rng.chance(20):
            m2, k2 = m1, k1
        ps = [gp for gp, _ in rpairs(rng, 4)]
        op = rng.choice(["+", "+=", "slice"])
        # those ignored by the other histories of this check are remembered
        for m in list(sys.modules.values()):
            getattr(m, "__warningregistry__", {}).clear()
        for again in range(2):
            a, b = ParallelGraphCorpus(ps[:2], rels, m1), ParallelGraphCorpus(ps[2:], rels, m2)
            refused = rng.chance(15)
            if refused:
                b = ParallelGraphCorpus(ps[2:], rels[:1], m2)
            with warnings.catch_warnings(record=True) as w:
                # as set by the package itself
                warnings.filters[:] = [f for f in FILTERS if f[2] is DaesoWarning] + [("default", None, Warning, None, 0)]
                try:
                    if op == "+":
                        a = a + b
                    elif op == "+=":
                        a += b
                    else:
                        a[2:] = b
                except ValueError:
                    case.check(refused, "refused", "corpora with the same relations are refused")
                else:
                    case.check(not refused, "not-refused", "corpora with other relations are not refused")
            said = [x for x in w if issubclass(x.category, DaesoWarning)]
            if not refused:
                case.equal(len(said), 0 if k1 == k2 else 1, "warning", "warnings about meta-data %r discarded for %r, time %d" % (k2, k1, again + 1))
                case.check(a.get_meta_data() is m1, "meta-data", "meta-data after %s", op)
                case.equal(len(a), 4, "content", "pairs")
                case.seen("meta_kept" if k1 == k2 else "meta_warned")
        case.distinct((op, k1, k2))
    case.sample((op, k1, k2))


def g_slices(case):
    """all slices with all bounds of a corpus of case.index members"""
    rng = case.rng
    n = case.index
    ps = rpairs(rng, n)
    rels = ["b", "a"]
    md = et.Element("corpus_meta_data")
    t = T(None, [gp for gp, _ in ps], dict((id(gp), k) for gp, k in ps), rels, md)
    bounds = [None] + range(-n - 2, n + 3)
    m = 0
    for i in bounds:
        for j in bounds:
            c = ParallelGraphCorpus(t.l, list(rels), md)
            if i is not None and j is not None:
                same(case, c[i:j], t.l[i:j], t, "corpus[%s:%s]" % (i, j))
                new = [p[0] for p in rpairs(rng, 2)]
                t.keys.update((id(x), 0) for x in new)
                l = list(t.l)
                c[i:j] = ParallelGraphCorpus(new, list(rels), md)
                l[i:j] = new
                same(case, c, l, t, "corpus[%s:%s]=" % (i, j))
                c = ParallelGraphCorpus(t.l, list(rels), md)
                l = list(t.l)
                del c[i:j]
                del l[i:j]
                same(case, c, l, t, "del corpus[%s:%s]" % (i, j))
                c = ParallelGraphCorpus(t.l, list(rels), md)
                m += 3
            for k in (None, 1, 2, -1, -2):
                same(case, c[i:j:k], t.l[i:j:k], t, "corpus[%s:%s:%s]" % (i, j, k))
                d, l = c[:], list(t.l)
                del d[i:j:k]
                del l[i:j:k]
                same(case, d, l, t, "del corpus[%s:%s:%s]" % (i, j, k))
                m += 2
    case.seen("enumerated_slices", m)
    case.distinct(n)


GROUPS = [("history", g_history, 450, 6000), ("warn", g_warn, 120, 1200), ("slices", g_slices, 5, 8)]
