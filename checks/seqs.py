# -*- coding: utf-8 -*-
"""Random sequences of many types for the checks of daeso.string"""
import gen

# the first few, and others for sequences with many different items
LETTERS = "abcdef" + "".join(map(chr, range(33, 97) + range(103, 127)))
ULETTERS = u"aé東b" + u"".join(map(unichr, range(0x400, 0x400 + 90)))
ITEMS = [u"de", "kat", u"zoë", 3, "zit", (1, 2)] + ["w%d" % i for i in range(50)] + range(100, 140)
ALPHA = [u"a", u"b", u"c", u"d"]


def rseq(rng, mx=8, k=3, kinds=("str", "unicode", "list", "tuple"), lo=0):
    n = rng.weighted([(lo, 1), (rng.int(lo, mx), 9)])
    kind = rng.choice(list(kinds))
    if kind == "str":
        return kind, "".join(rng.choice(LETTERS[:k]) for _ in range(n))
    if kind == "unicode":
        return kind, u"".join(rng.choice(ULETTERS[:k]) for _ in range(n))
    items = [rng.choice(ITEMS[:k]) for _ in range(n)]
    return kind, items if kind == "list" else tuple(items)


def ratio(a, b):
    return a / float(b) if b else 0.0


def mutate(rng, s, k=3):
    """a sequence near s, of the same type"""
    items = list(s)
    pool = items + (["x"] if isinstance(s, str) else [u"x"])
    for _ in range(rng.int(0, 3)):
        op = rng.below(3)
        i = rng.below(len(items) + 1)
        if op == 0:
            items.insert(i, rng.choice(pool))
        elif items and i < len(items):
            if op == 1:
                del items[i]
            else:
                items[i] = rng.choice(pool)
    if isinstance(s, basestring):
        return s[:0].join(items)
    if rng.chance(15):
        # equal but not alike
        items = [alike(x) if rng.chance(50) else x for x in items]
    return type(s)(items)


def alike(x):
    """an equal item of another type"""
    if isinstance(x, unicode):
        return str(x) if x and all(ord(c) < 128 for c in x) else x
    if isinstance(x, str):
        return unicode(x)
    return float(x) if type(x) is int else x


def unhashable(rng, *seqs):
    """the sequences as lists of items which have no hash, or are equal but not alike"""
    how = rng.below(3)
    if how == 0:
        return [[[x] for x in s] for s in seqs]
    if how == 1:
        return [[{x: 1} for x in s] for s in seqs]
    return [[rng.choice([1, 1.0, True, [1], (1,), [[]], u"1", "1"]) for x in s] for s in seqs]
