# -*- coding: utf-8 -*-
"""C22: n-grams and skip bigrams"""
import sys
import gen
from seqs import rseq, unhashable
from daeso.string.ngram import n_gram_slices, n_gram_strings, n_gram_slices_range, pad
from daeso.string.sgram import skip_bigram_slices, padded_skip_bigram_slices

RULE = ("random sequences of every type and length (up to thousands of tokens) with random n, padding and skip distance, compared with enumeration of "
        "positions; non-trivial = sequence with at least two tokens")
REQUIRED = ["ngrams", "strings", "range", "range_padded", "range_sizes", "pad", "padded", "too_short", "skip", "skip_limit", "skip_zero", "skip_padded",
            "long", "blanks", "str", "unicode", "list", "tuple", "empty", "large_limit", "unhashable"]
ASSUMPTIONS = ["n is at least 1"]


def want_pad(s, k, p):
    if isinstance(s, basestring):
        return p * k + s + p * k
    if isinstance(s, tuple):
        return (p,) * k + s + (p,) * k
    return [p] * k + s + [p] * k


def want_grams(s, n):
    out, i = [], 0
    while i + n <= len(s):
        out.append(s[i:i + n])
        i += 1
    return out


def case_ngram(case):
    rng = case.rng
    k, s = rseq(rng, 9, 6)
    case.seen(k)
    if rng.chance(12):
        s, = unhashable(rng, s)
        case.seen("unhashable")
    if not s:
        case.seen("empty")
    keep = list(s)
    n = rng.int(1, 6)
    size = rng.weighted([(0, 2), (1, 2), (2, 1), (4, 1)])
    sym = rng.choice(["_", "#", "<s>"])
    kw = {}
    if size or rng.chance(30):
        kw["pad_size"] = size
    if rng.chance(40):
        kw["pad_string"] = sym
    else:
        sym = "_"
    p = want_pad(s, size, sym)
    case.equal(pad(s, size, sym), p, "pad", "padding of %r" % (s,))
    case.check(type(pad(s, size, sym)) in (type(s), unicode), "pad-type", "type of padded %s", s)
    case.seen("pad")
    if size:
        case.seen("padded")
    want = want_grams(p, n)
    if not want:
        case.seen("too_short")
    got = n_gram_slices(s, n, **kw)
    case.equal(list(got), want, "slices", "%d-grams of %r padded %d" % (n, s, size))
    for g in got:
        case.check(len(g) == n, "length", "length of %s", g)
    case.seen("ngrams", len(got))
    items = [x for x in s if isinstance(x, basestring)]
    if rng.chance(10):
        # characters of a text
        items = list(u"a b  c\n d"[rng.below(4):])
        s = rng.choice([list, tuple])(items)
        keep = list(s)
        case.seen("blanks")
    t = items if isinstance(s, list) else tuple(items) if isinstance(s, tuple) else s
    sep = rng.choice([" ", "", "|"])
    kw2 = dict(kw)
    if sep != " " or rng.chance(50):
        kw2["separator"] = sep
    want = [sep.join(g) for g in want_grams(want_pad(t, size, sym), n)]
    case.equal(list(n_gram_strings(t, n, **kw2)), want, "strings", "%d-gram strings of %r" % (n, t))
    case.seen("strings", len(want))
    ns = [rng.int(1, 5) for _ in range(rng.below(4))] if rng.chance(92) else [rng.int(1, 20) for _ in range(20)]
    ns = [x for i, x in enumerate(ns) if x not in ns[:i]]
    how = rng.below(3)
    if how == 0:
        r = n_gram_slices_range(s, ns)
        sizes = [0] * len(ns)
    elif how == 1:
        r = n_gram_slices_range(s, ns, pad=True, pad_string=sym)
        sizes = [x - 1 for x in ns]
        case.seen("range_padded")
    else:
        sizes = [rng.below(4) for _ in ns]
        r = n_gram_slices_range(s, ns, pad=True, pad_sizes=sizes, pad_string=sym)
        if not ns:
            sizes = []
        case.seen("range_sizes")
        if rng.chance(30):
            case.raises(AssertionError, n_gram_slices_range, s, ns, pad=True, pad_sizes=sizes + [1], kind="sizes", what="wrong number of sizes")
    case.seen("range")
    want = dict((x, want_grams(want_pad(s, z, sym), x)) for x, z in zip(ns, sizes))
    case.equal(r, want, "range", "ranges %s with sizes %s" % (ns, sizes))
    case.equal(list(s), keep, "input-changed", "tokens")
    if len(s) > 1:
        case.distinct((s, n, size, sym, ns))
    case.sample((s, n, got))


def want_skip(s, d):
    return sorted(((i, j) for i in range(len(s)) for j in range(len(s)) if i < j and j - i <= d + 1))


def case_skip(case):
    rng = case.rng
    k, s = rseq(rng, 9, 6)
    case.seen(k)
    if rng.chance(12):
        s, = unhashable(rng, s)
        case.seen("unhashable")
    d = rng.choice([None, 0, 1, 2, 3, 20, sys.maxint])
    args = [] if d is None else [d]
    lim = sys.maxint if d is None else d
    if d == 0:
        case.seen("skip_zero")
    elif d in (1, 2, 3):
        case.seen("skip_limit")
    elif d == sys.maxint:
        case.seen("large_limit")
    got = list(skip_bigram_slices(s, *args))
    want = [(s[i], s[j]) for i, j in want_skip(s, lim)]
    case.equal([tuple(g) for g in got], want, "skip", "skip bigrams of %r within %s" % (s, d))
    # position pairs: with all tokens different nothing can hide
    t = range(len(s))
    got = [tuple(g) for g in skip_bigram_slices(t, *args)]
    case.equal(sorted(got), want_skip(t, lim), "skip-positions", "position pairs of %d tokens within %s" % (len(t), d))
    case.seen("skip", len(got))
    sym = rng.choice(["_", "#"])
    p = want_pad(s, 1, sym)
    got = padded_skip_bigram_slices(s, *args, **({} if sym == "_" else dict(pad_string=sym)))
    case.equal([tuple(g) for g in got], [(p[i], p[j]) for i, j in want_skip(p, lim)], "skip-padded", "padded skip bigrams of %r" % (s,))
    case.seen("skip_padded")
    if len(s) > 1:
        case.distinct((s, d))


def case_long(case):
    rng = case.rng
    n = rng.int(60, 160)
    lim = rng.choice([(), (sys.maxint,), (rng.int(50, 170),)])
    got = [tuple(g) for g in skip_bigram_slices(range(n), *lim)]
    case.equal(got, [(i, j) for i in range(n) for j in range(i + 1, n) if not lim or j - i - 1 <= lim[0]], "long", "skip bigrams of %d tokens within %s" % (n, lim))
    n = rng.int(600, 3000)
    t = range(n)
    d = rng.below(4)
    got = skip_bigram_slices(t, d)
    want = sum(min(d + 1, n - 1 - i) for i in range(n))
    case.equal(len(got), want, "long", "number of skip bigrams of %d tokens within %d" % (n, d))
    last = None
    for a, b in got:
        case.check(a < b <= a + d + 1, "long", "pair %s within %s", (a, b), d)
    case.equal(len(set(got)), want, "long", "different pairs")
    k = rng.int(1, 5)
    g = n_gram_slices(t, k)
    case.equal(g, [range(i, i + k) for i in range(n - k + 1)], "long", "n-grams")
    case.equal(n_gram_strings(map(str, t), k), [" ".join(map(str, x)) for x in g], "long", "n-gram strings")
    case.seen("long")
    case.distinct((n, d, k))


GROUPS = [("ngram", case_ngram, 600, 8000), ("skip", case_skip, 600, 8000), ("long", case_long, 20, 120)]
