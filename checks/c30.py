# -*- coding: utf-8 -*-
"""C30: counter and ordered dictionary"""
import copy
import itertools
import pickle
import cPickle
import gen
from daeso.thirdparty.counter import Counter
from daeso.thirdparty.odict import OrderedDict

RULE = ("random and enumerated histories of counter and ordered dictionary operations compared after every step with a plain list of (key, count) or (key, value) pairs; "
        "non-trivial = history that ends with at least two keys")
REQUIRED = ["large", "od_large", "bag_ops", "most_common", "ties", "most_common_n", "negative_counts", "zero_counts", "elements", "missing", "update_self", "update_mapping", "update_kwds", "counter_copied",
            "deleted_missing", "fromkeys_refused", "counter_pickled", "repr_read_back",
            "od_history", "od_reinserted", "od_popitem", "od_pop_default", "od_key_error", "od_setdefault", "od_pickled", "od_deepcopied", "od_reversed", "od_equal_keys", "od_unhashable",
            "od_enumerated", "od_subclass", "od_copied"]
ASSUMPTIONS = ["dictionary equality ignores order, as for dict", "views and iterators are not used during changes"]

ITEMS = ["a", "b", "c", u"é", 1, (1, 2), None, "d"]


class Bag(object):
    """multiset as a list of [key, count]"""
    def __init__(self, pairs=()):
        self.p = [list(x) for x in pairs]

    def get(self, k):
        for x in self.p:
            if x[0] == k:
                return x[1]

    def set(self, k, n):
        for x in self.p:
            if x[0] == k:
                x[1] = n
                return
        self.p.append([k, n])

    def delete(self, k):
        self.p = [x for x in self.p if x[0] != k]

    def add(self, k, n):
        self.set(k, (self.get(k) or 0) + n)

    def key(self):
        return sorted((repr(k), n) for k, n in self.p)


def ckey(c):
    return sorted((repr(k), n) for k, n in dict.items(c))


def bag_op(a, b, f):
    out = Bag()
    for k in [x[0] for x in a.p] + [x[0] for x in b.p]:
        n = f(a.get(k) or 0, b.get(k) or 0)
        if n > 0:
            out.set(k, n)
    return out


OPS = [("+", lambda x, y: x + y), ("-", lambda x, y: x - y), ("|", max), ("&", min)]


def real_op(op, x, y):
    return x + y if op == "+" else x - y if op == "-" else x | y if op == "|" else x & y


def rcounter(case, neg=True):
    rng = case.rng
    kind = rng.below(5)
    seq = [rng.choice(ITEMS) for _ in range(rng.int(0, 14))]
    b = Bag()
    if kind == 0:
        c = Counter()
    elif kind == 1:
        c = Counter(rng.choice([list, tuple, iter])(seq))
        for x in seq:
            b.add(x, 1)
    elif kind == 2:
        d = dict((x, rng.int(-2 if neg else 0, 6)) for x in seq)
        c = Counter(d)
        b = Bag(d.items())
    elif kind == 3:
        n, m = rng.int(0, 3), rng.int(0, 3)
        c = Counter(seq, a=n, key=m)
        for x in seq:
            b.add(x, 1)
        b.add("a", n)
        b.add("key", m)
        case.seen("update_kwds")
    else:
        c = Counter("abracadabra")
        for x in "abracadabra":
            b.add(x, 1)
    return c, b


def check_counter(case, c, b, what):
    case.check(type(c) is Counter, "type", "%s is %s", what, type(c))
    case.equal(ckey(c), b.key(), "counts", "counts after %s" % what)
    for k in ITEMS + ["key", "nothing", 99]:
        case.equal(c[k], b.get(k) or 0, "count", "count of %r after %s" % (k, what))
    case.equal(ckey(c), b.key(), "missing-added", "counts after looking up missing items")
    case.seen("missing")
    case.equal(len(c), len(b.p), "len", "number of items after %s" % what)
    els = sorted(repr(x) for x in c.elements())
    want = sorted(repr(k) for k, n in b.p for _ in range(max(0, n)))
    case.equal(els, want, "elements", "elements after %s" % what)
    case.seen("elements")
    if any(n < 0 for k, n in b.p):
        case.seen("negative_counts")
    if any(n == 0 for k, n in b.p):
        case.seen("zero_counts")


def check_common(case, c, b):
    full = c.most_common()
    counts = sorted([n for k, n in b.p], reverse=True)
    case.equal([n for k, n in full], counts, "most-common", "counts of the most common")
    case.equal(sorted((repr(k), n) for k, n in full), b.key(), "most-common", "items of most_common()")
    if len(set(counts)) < len(counts):
        case.seen("ties")
    for n in (0, 1, 2, len(counts), len(counts) + 3):
        top = c.most_common(n)
        case.equal([m for k, m in top], counts[:n], "most-common", "most_common(%d)" % n)
        case.equal(len(set(repr(k) for k, m in top)), len(top), "most-common", "items of most_common(%d) differ" % n)
        for k, m in top:
            case.equal(b.get(k), m, "most-common", "count of %r in most_common(%d)" % (k, n))
        case.seen("most_common_n")
    case.seen("most_common")


def case_counter(case):
    rng = case.rng
    c, b = rcounter(case)
    check_counter(case, c, b, "creation")
    for _ in range(rng.int(2, 14)):
        op = rng.choice(["update", "update", "updmap", "updkw", "updself", "set", "inc", "del", "copy", "pickle", "ops", "common", "repr", "pop", "clear", "from"])
        case.note(op)
        if op == "update":
            seq = [rng.choice(ITEMS) for _ in range(rng.int(0, 6))]
            if rng.chance(5):
                seq += [u"item%d" % rng.below(60) for _ in range(80)]
                case.seen("large")
            c.update(iter(seq) if rng.chance(50) else seq)
            for x in seq:
                b.add(x, 1)
        elif op == "updmap":
            o, ob = rcounter(case)
            d = dict(ob.p) if rng.chance(50) else o
            c.update(d)
            for k, n in ob.p:
                b.add(k, n)
            case.equal(ckey(d), ob.key(), "operand", "mapping added")
            case.seen("update_mapping")
        elif op == "updkw":
            c.update(a=2, key=-1)
            b.add("a", 2)
            b.add("key", -1)
        elif op == "updself":
            c.update(c)
            b = Bag([(k, 2 * n) for k, n in b.p])
            case.seen("update_self")
        elif op == "set":
            k, n = rng.choice(ITEMS), rng.int(-2, 7)
            c[k] = n
            b.set(k, n)
        elif op == "inc":
            k = rng.choice(ITEMS)
            c[k] += 1
            b.add(k, 1)
        elif op == "del":
            k = rng.choice(ITEMS)
            if b.get(k) is None:
                case.seen("deleted_missing")
            del c[k]
            b.delete(k)
        elif op == "copy":
            d = rng.choice([c.copy, lambda: copy.copy(c), lambda: copy.deepcopy(c), lambda: Counter(c)])()
            check_counter(case, d, b, "copy")
            d["a"] += 5
            d["new"] = 1
            check_counter(case, c, b, "change of a copy")
            case.check(not c == d and c != d, "equal", "different counters are equal")
            case.seen("counter_copied")
        elif op == "pickle":
            p = rng.choice([pickle, cPickle])
            d = p.loads(p.dumps(c, rng.choice([0, 1, 2])))
            check_counter(case, d, b, "pickling")
            case.check(c == d, "equal", "pickled counter differs")
            case.seen("counter_pickled")
        elif op == "ops":
            o, ob = rcounter(case)
            for name, f in OPS:
                r = real_op(name, c, o)
                check_counter(case, r, bag_op(b, ob, f), "operator %s" % name)
                r2 = real_op(name, o, c)
                check_counter(case, r2, bag_op(ob, b, f), "operator %s" % name)
                case.check(r is not c and r is not o, "operand", "operator %s returns an operand", name)
                case.equal((ckey(c), ckey(o)), (b.key(), ob.key()), "operand", "operands of %s" % name)
                case.raises(TypeError, real_op, name, c, 3)
                case.raises(TypeError, real_op, name, c, [1])
            case.seen("bag_ops")
        elif op == "common":
            check_common(case, c, b)
        elif op == "repr":
            case.equal(ckey(eval(repr(c))), b.key(), "repr", "representation")
            case.check(type(eval(repr(c))) is Counter, "repr", "representation %s", repr(c))
            case.seen("repr_read_back")
        elif op == "pop" and b.p:
            k = rng.choice(b.p)[0]
            case.equal(c.pop(k), b.get(k), "pop", "pop")
            b.delete(k)
        elif op == "clear" and rng.chance(30):
            c.clear()
            b = Bag()
        elif op == "from":
            case.raises(NotImplementedError, Counter.fromkeys, "abc")
            case.seen("fromkeys_refused")
        check_counter(case, c, b, op)
    check_common(case, c, b)
    if len(b.p) > 1:
        case.distinct(b.key())
    case.sample(b.p)


def case_pairs(case):
    """all pairs of small bags"""
    counts = [-1, 0, 1, 2]
    first = list(itertools.product([None] + counts, repeat=2))[case.index]
    for second in itertools.product([None] + counts, repeat=2):
        mk = lambda t: [(k, n) for k, n in zip("xy", t) if n is not None]
        c, o, b, ob = Counter(dict(mk(first))), Counter(dict(mk(second))), Bag(mk(first)), Bag(mk(second))
        for name, f in OPS:
            case.equal(ckey(real_op(name, c, o)), bag_op(b, ob, f).key(), "bag-op", "%s %s %s" % (c, name, o))
            case.equal((ckey(c), ckey(o)), (b.key(), ob.key()), "operand", "operands of %s" % name)
        case.seen("bag_ops")
    case.distinct(first)


# ------------------------------------------------------------ ordered dictionary

class Sub(OrderedDict):
    def __init__(self, *a, **k):
        OrderedDict.__init__(self, *a, **k)
        self.extra = None


def check_od(case, d, want, what):
    keys, vals = [k for k, v in want], [v for k, v in want]
    case.equal(d.keys(), keys, "od-keys", "keys after %s" % what)
    case.equal(d.values(), vals, "od-values", "values after %s" % what)
    case.equal(d.items(), want, "od-items", "items after %s" % what)
    case.equal(list(d), keys, "od-iter", "iteration after %s" % what)
    case.equal(list(d.iterkeys()), keys, "od-iter", "iterkeys after %s" % what)
    case.equal(list(d.itervalues()), vals, "od-iter", "itervalues after %s" % what)
    case.equal(list(d.iteritems()), want, "od-iter", "iteritems after %s" % what)
    case.equal(list(reversed(d)), keys[::-1], "od-reversed", "reversed order after %s" % what)
    case.equal(map(type, d.keys()), map(type, keys), "od-keys", "types of keys after %s" % what)
    case.seen("od_reversed")
    case.equal(len(d), len(want), "od-len", "length after %s" % what)
    case.equal(bool(d), bool(want), "od-len", "truth after %s" % what)
    for k in ODKEYS + ["nothing"]:
        has = any(k == x for x in keys)
        case.equal(k in d, has, "od-in", "%r in dictionary after %s" % (k, what))
        case.equal(d.get(k, "none"), dict(want).get(k, "none"), "od-get", "get(%r) after %s" % (k, what))
    case.check(d == dict(want) and not d != dict(want), "od-equal", "not equal to the plain dictionary after %s", what)
    case.equal(repr(d), "%s({%s})" % (type(d).__name__, ", ".join("%r: %r" % x for x in want)), "od-repr", "representation")


ODKEYS = ["a", "b", "c", 1, 1.0, True, 0, (1, 2), None, u"é", "zz", 2 ** 40]


def put(want, k, v):
    for i, x in enumerate(want):
        if x[0] == k:
            want[i] = (x[0], v)
            return
    want.append((k, v))


def drop(want, k):
    for i, x in enumerate(want):
        if x[0] == k:
            return want.pop(i)[1]


def case_odict(case):
    rng = case.rng
    cls = OrderedDict
    if rng.chance(25):
        cls = Sub
        case.seen("od_subclass")
    init = [(rng.choice(ODKEYS), i) for i in range(rng.int(0, 6))]
    if rng.chance(12):
        # many keys
        init += [((rng.below(400), "k"), i) for i in range(rng.choice([20, 70, 150, 300]))]
        case.seen("od_large")
    want = []
    for k, v in init:
        put(want, k, v)
    form = rng.choice([lambda: cls(init), lambda: cls(iter(init)), lambda: cls(OrderedDict(init)), lambda: cls(tuple(init))])
    d = form()
    if not init and rng.chance(50):
        d = cls()
    if rng.chance(20):
        d.update(kw=3)
        put(want, "kw", 3)
    check_od(case, d, want, "creation")
    deleted = set()
    for step in range(rng.int(3, 30)):
        k = rng.choice(ODKEYS)
        has = any(k == x for x, v in want)
        op = rng.weighted([("set", 8), ("del", 4), ("pop", 2), ("popdef", 2), ("popitem", 2), ("setdefault", 3), ("update", 2), ("clear", 1), ("copy", 2), ("pickle", 2), ("unhash", 1)])
        case.note((op, k))
        if op == "set":
            if k in deleted and not has:
                case.seen("od_reinserted")
            if has and type(k) != type([x for x, v in want if x == k][0]):
                case.seen("od_equal_keys")
            v = rng.choice([step, step, None, 0, "", []])
            d[k] = v
            put(want, k, v)
        elif op == "del":
            if has:
                del d[k]
                drop(want, k)
                deleted.add(k)
            else:
                case.raises(KeyError, d.__delitem__, k)
                case.seen("od_key_error")
        elif op == "pop":
            if has:
                case.equal(d.pop(k), drop(want, k), "od-pop", "pop(%r)" % (k,))
                deleted.add(k)
            else:
                case.raises(KeyError, d.pop, k)
                case.seen("od_key_error")
        elif op == "popdef":
            dflt = rng.choice(["dflt", None])
            case.equal(d.pop(k, dflt), drop(want, k) if has else dflt, "od-pop", "pop(%r, default)" % (k,))
            case.seen("od_pop_default")
        elif op == "popitem":
            if want:
                case.equal(d.popitem(), want.pop(), "od-popitem", "popitem")
                case.seen("od_popitem")
            else:
                case.raises(KeyError, d.popitem)
        elif op == "setdefault":
            if has:
                case.equal(d.setdefault(k, "dflt"), dict(want)[k], "od-setdefault", "setdefault(%r)" % (k,))
            elif rng.chance(30):
                case.equal(d.setdefault(k), None, "od-setdefault", "setdefault(%r)" % (k,))
                put(want, k, None)
            else:
                case.equal(d.setdefault(k, step), step, "od-setdefault", "setdefault(%r)" % (k,))
                put(want, k, step)
            case.seen("od_setdefault")
        elif op == "update":
            more = [(rng.choice(ODKEYS), "u%d" % i) for i in range(rng.int(0, 4))]
            form = rng.below(3)
            if form == 0:
                d.update(more)
            elif form == 1:
                m2 = []
                for a, b in more:
                    put(m2, a, b)
                more = m2
                d.update(OrderedDict(more))
            else:
                d.update(iter(more), kw=step)
                more = more + [("kw", step)]
            for a, b in more:
                put(want, a, b)
        elif op == "clear" and rng.chance(40):
            d.clear()
            want = []
        elif op in ("copy", "pickle"):
            if op == "copy":
                how = rng.below(3)
                e = d.copy() if how == 0 else copy.copy(d) if how == 1 else cls(d)
                case.seen("od_copied")
            else:
                if cls is Sub:
                    d.extra = step
                if rng.chance(30):
                    e = copy.deepcopy(d)
                    case.seen("od_deepcopied")
                else:
                    p = rng.choice([pickle, cPickle])
                    e = p.loads(p.dumps(d, rng.choice([0, 1, 2])))
                    case.seen("od_pickled")
                if cls is Sub:
                    case.equal(e.extra, step, "od-attribute", "attribute of the copy")
            case.check(type(e) is cls, "od-type", "copy is %s", type(e))
            check_od(case, e, want, op)
            e["added"] = 1
            if want:
                del e[want[0][0]]
            check_od(case, d, want, "change of a copy")
        elif op == "unhash":
            case.raises(TypeError, d.__setitem__, [1], 2)
            case.seen("od_unhashable")
        check_od(case, d, want, op)
    case.seen("od_history")
    case.raises(TypeError, OrderedDict, [], [])
    f = OrderedDict.fromkeys(["b", "a", "b", "c"], 7)
    check_od(case, f, [("b", 7), ("a", 7), ("c", 7)], "fromkeys")
    if len(want) > 1:
        case.distinct(want)
    case.sample(want)


def case_odenum(case):
    """all short histories over two keys and a third"""
    ops = [("set", "a"), ("set", "b"), ("set", "c"), ("del", "a"), ("del", "b"), ("popitem", None), ("pop", "c")]
    first = ops[case.index]
    for rest in itertools.product(ops, repeat=3 if case.tier == "quick" else 5):
        d, want = OrderedDict(), []
        for i, (op, k) in enumerate((first,) + rest):
            has = any(x == k for x, v in want)
            try:
                if op == "set":
                    d[k] = i
                    put(want, k, i)
                elif op == "del":
                    del d[k]
                    case.check(has, "od-del", "missing key %s deleted", k)
                    drop(want, k)
                elif op == "pop":
                    case.equal(d.pop(k, None), drop(want, k), "od-pop", "pop")
                else:
                    got = d.popitem()
                    case.equal(got, want.pop() if want else None, "od-popitem", "popitem")
            except KeyError:
                case.check(op != "set" and (not want if op == "popitem" else not has), "od-key-error", "KeyError for %s %s in %s", op, k, want)
        case.equal(d.items(), want, "od-items", "items after %s" % ((first,) + rest,))
        case.equal(list(reversed(d)), [k for k, v in want][::-1], "od-reversed", "reversed after %s" % (rest,))
        case.seen("od_enumerated")
    case.distinct(first)


GROUPS = [("counter", case_counter, 300, 6000), ("pairs", case_pairs, 25, 25), ("odict", case_odict, 400, 8000), ("odenum", case_odenum, 7, 7)]
