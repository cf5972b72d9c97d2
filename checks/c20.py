# -*- coding: utf-8 -*-
"""C20: edit distance, longest common subsequence, median"""
import math
import gen
from seqs import rseq, ratio, mutate, unhashable
from daeso.string.levenshtein import levenshtein, normalized_levenshtein
from daeso.string.lcs import longest_common_subsequence, lcs, normalized_lcs
from daeso.string.median import set_median_string

RULE = ("all pairs of words over two letters up to length 4, random and mutated sequences of every type (strings, unicode, lists, tuples), compared "
        "with independent shortest path and enumeration oracles, and with the metric laws; non-trivial = two non-empty sequences")
REQUIRED = ["median_many", "pairs", "exhaustive", "str", "unicode", "list", "tuple", "mixed", "empty", "unhashable", "long", "triangle", "median", "median_tie", "median_dup", "brute_lcs"]
ASSUMPTIONS = ["elements can be compared with =="]


def edit_bfs(a, b):
    """distance as a shortest path through the grid of prefixes"""
    n, m = len(a), len(b)
    front, seen, d = set([(0, 0)]), set(), 0
    while True:
        # free moves
        todo = list(front)
        while todo:
            i, j = todo.pop()
            while i < n and j < m and a[i] == b[j]:
                i, j = i + 1, j + 1
                if (i, j) not in front:
                    front.add((i, j))
                    todo.append((i, j))
        if (n, m) in front:
            return d
        seen |= front
        nxt = set()
        for i, j in front:
            for p in ((i + 1, j), (i, j + 1), (i + 1, j + 1)):
                if p[0] <= n and p[1] <= m and p not in seen:
                    nxt.add(p)
        front = nxt
        d += 1


def lcs_len(a, b):
    row = [0] * (len(b) + 1)
    for x in a:
        prev = 0
        for j, y in enumerate(b):
            old = row[j + 1]
            row[j + 1] = prev + 1 if x == y else max(row[j], row[j + 1])
            prev = old
    return row[-1]


def is_sub(s, t):
    i = 0
    for x in t:
        if i < len(s) and s[i] == x:
            i += 1
    return i == len(s)


def brute_lcs(a, b):
    best = 0
    for mask in range(1 << len(a)):
        s = [a[i] for i in range(len(a)) if mask >> i & 1]
        if len(s) > best and is_sub(s, b):
            best = len(s)
    return best


def check_pair(case, a, b):
    case.seen("pairs")
    keep = list(a), list(b)
    d = levenshtein(a, b)
    case.equal(d, edit_bfs(a, b), "distance", "distance of %r and %r" % (a, b))
    case.equal(levenshtein(b, a), d, "symmetry", "distance the other way round")
    case.equal(normalized_levenshtein(a, b), ratio(d, max(len(a), len(b))), "normalized", "normalized distance of %r and %r" % (a, b))
    s = longest_common_subsequence(a, b)
    case.check(is_sub(s, a) and is_sub(s, b), "not-common", "%s is no common subsequence of %s", s, (a, b))
    n = lcs_len(a, b)
    case.equal(len(s), n, "length", "length of the common subsequence of %r and %r" % (a, b))
    if isinstance(a, basestring) and isinstance(b, basestring):
        case.check(isinstance(s, basestring), "type", "common subsequence of %s is %s", (a, b), s)
    elif type(a) == type(b):
        case.check(type(s) == type(a), "type", "common subsequence of %s is %s", (a, b), s)
    case.check(isinstance(s, (basestring, tuple)) or (s is not a and s is not b), "shared", "common subsequence of %s is one of them, not a new list", (a, b))
    if isinstance(a, basestring) and isinstance(b, basestring):
        case.check(isinstance(s, unicode) == (isinstance(a, unicode) or isinstance(b, unicode)), "type", "common subsequence of %r is %s", (a, b), type(s))
    case.equal(normalized_lcs(a, b), ratio(n, math.sqrt(len(a) * len(b))), "normalized-lcs", "normalized length of %r and %r" % (a, b))
    case.equal(len(lcs(b, a)), n, "symmetry", "length the other way round")
    case.equal((list(a), list(b)), keep, "input-changed", "arguments")
    if len(a) <= 9:
        case.seen("brute_lcs")
        case.equal(n, brute_lcs(a, b), "oracle", "oracles for %r and %r" % (a, b))
    if not a or not b:
        case.seen("empty")
    return d


def case_random(case):
    rng = case.rng
    k, a = rseq(rng, 10)
    case.seen(k)
    if rng.chance(50):
        b = mutate(rng, a)
    else:
        k2, b = rseq(rng, 10)
        if k2 != k:
            case.seen("mixed")
    if rng.chance(12):
        a, b = unhashable(rng, a, b)
        case.seen("unhashable")
    d = check_pair(case, a, b)
    if rng.chance(40):
        c = mutate(rng, b)
        case.seen("triangle")
        case.check(levenshtein(a, c) <= d + levenshtein(b, c), "triangle", "distances of %s", (a, b, c))
        case.equal(levenshtein(a, a), 0, "identity", "distance to itself")
    if a and b:
        case.distinct((a, b))
    case.sample((a, b, d))


WORDS = [""] + ["".join("ab"[m >> i & 1] for i in range(n)) for n in range(1, 5) for m in range(1 << n)]


def case_all(case):
    a = WORDS[case.index]
    for b in WORDS:
        check_pair(case, a, b)
        case.seen("exhaustive")
    case.distinct(a)


def case_long(case):
    rng = case.rng
    a = "".join(rng.choice("abcde") for _ in range(rng.int(40, 130)))
    b = mutate(rng, mutate(rng, a)) if rng.chance(60) else "".join(rng.choice("abcde") for _ in range(rng.int(0, 60)))
    case.seen("long")
    check_pair(case, a, b)
    case.distinct((a, b))


def case_median(case):
    rng = case.rng
    k, a = rseq(rng, 6)
    items = [a]
    n = rng.below(7)
    if rng.chance(5):
        n = rng.int(35, 45)
        case.seen("median_many")
    for _ in range(n):
        r = rng.below(3)
        items.append(mutate(rng, rng.choice(items)) if r else rseq(rng, 6, kinds=(k,))[1])
    rng.shuffle(items)
    if rng.chance(20):
        items = tuple(items)
    table = {}
    if rng.chance(50):
        dist = levenshtein
    else:
        # any symmetric distance
        salt = rng.below(99)

        def dist(x, y):
            if x == y:
                return 0
            import zlib
            return zlib.crc32(repr(sorted([x, y])) + str(salt)) % 7 + 0.5
    keep = list(items)
    m = set_median_string(items, dist)
    case.check(len(items) == len(keep) and all(x is y for x, y in zip(items, keep)), "input-changed", "collection after the median")
    case.check(any(m is x for x in items), "not-member", "median %s of %s", m, items)
    sums = [sum(dist(x, y) for y in items) for x in items]
    got = sum(dist(m, y) for y in items)
    case.check(got <= min(sums) + 1e-9, "median", "median %s of %s has total distance %s, the least is %s", m, items, got, min(sums))
    case.seen("median")
    if len([x for x in sums if x == min(sums)]) > 1:
        case.seen("median_tie")
    if len(set(map(repr, items))) < len(items):
        case.seen("median_dup")
    if len(items) > 1:
        case.distinct(items)


GROUPS = [("random", case_random, 700, 12000), ("words", case_all, len(WORDS), len(WORDS)), ("long", case_long, 24, 200), ("median", case_median, 300, 4000)]
