# -*- coding: utf-8 -*-
"""C24: ROUGE scores"""
import sys
import gen
from seqs import rseq, ratio, mutate
from c20 import lcs_len
from daeso.string import rouge as R

RULE = ("random candidate and reference texts (empty, short, near each other, repeated tokens), any n, skip distance, weight and number of references; "
        "scores recomputed from counts of positions; non-trivial = two non-empty texts")
REQUIRED = ["rouge_n", "rouge_l", "rouge_s", "rouge_su", "several_refs", "no_refs", "empty", "short", "beta", "limit", "repeated", "lists", "tuples", "zero", "one", "long", "many_refs"]
ASSUMPTIONS = ["repeated n-grams and skip bigrams count as documented in the code"]


def text(case):
    rng = case.rng
    n = rng.weighted([(0, 2), (1, 4), (rng.int(2, 9), 16), (rng.int(26, 45), 1)])
    if n > 25:
        case.seen("long")
    t = [rng.choice(gen.PLAIN[:rng.choice([3, 8])]) for _ in range(n)]
    if not n:
        case.seen("empty")
    elif n == 1:
        case.seen("short")
    if len(set(t)) < n:
        case.seen("repeated")
    if rng.chance(50):
        case.seen("tuples")
        return tuple(t)
    case.seen("lists")
    return t


def fm(p, r, beta):
    return ratio((1 + beta ** 2) * p * r, beta ** 2 * p + r)


def skips(t, d):
    return [(t[i], t[j]) for i in range(len(t)) for j in range(i + 1, len(t)) if j - i - 1 <= d]


def rs(a, b, d, beta):
    s, t = skips(a, d), skips(b, d)
    m = len([x for i, x in enumerate(s) if x not in s[:i] and x in t])
    return fm(ratio(m, len(t)), ratio(m, len(s)), beta)


def case_rouge(case):
    rng = case.rng
    c = text(case)
    refs = []
    for _ in range(rng.weighted([(0, 5), (1, 20), (2, 15), (4, 5), (28, 1)])):
        refs.append(mutate(rng, c) if rng.chance(50) else text(case))
    if not refs:
        case.seen("no_refs")
    if len(refs) > 25:
        case.seen("many_refs")
    if len(refs) > 1:
        case.seen("several_refs")
    keep = list(c), map(list, refs)
    n = rng.int(1, 4)
    grams = lambda t: [tuple(t[i:i + n]) for i in range(len(t) - n + 1)]
    same = [tuple(r) if isinstance(c, tuple) else list(r) for r in refs]
    cg, rg = grams(c), sum([grams(r) for r in same], [])
    want = ratio(sum(1 for g in cg if g in rg), len(rg))
    got = R.rouge_n(c, same, n)
    case.check(abs(got - want) <= 1e-12, "rouge-n", "ROUGE-%s of %s is %s, expected %s", n, (c, same), got, want)
    got = R.rouge_ngram(cg, rg)
    case.check(abs(got - want) <= 1e-12, "rouge-ngram", "ROUGE-%s of %s is %s, expected %s", n, (cg, rg), got, want)
    case.seen("rouge_n")
    for r in same:
        beta = rng.choice([None, 1, 0.5, 2, 3])
        kw = {} if beta is None else dict(beta=beta)
        b = beta or 1
        if b != 1:
            case.seen("beta")
        l = lcs_len(c, r)
        want = fm(ratio(l, len(c)), ratio(l, len(r)), b)
        got = R.rouge_l(c, r, **kw)
        case.check(abs(got - want) <= 1e-12, "rouge-l", "ROUGE-L of %s with weight %s is %s, expected %s", (c, r), b, got, want)
        case.seen("rouge_l")
        case.seen("zero" if not want else "one" if abs(want - 1) < 1e-12 else "between")
        d = rng.choice([None, 0, 1, 4])
        if d is not None:
            kw["distance_limit"] = d
            case.seen("limit")
        lim = sys.maxint if d is None else d
        want = rs(c, r, lim, b)
        got = R.rouge_s(c, r, **kw)
        case.check(abs(got - want) <= 1e-12, "rouge-s", "ROUGE-S of %s, distance %s, weight %s is %s, expected %s", (c, r), d, b, got, want)
        case.seen("rouge_s")
        m = rng.choice(["_", "<s>"])
        if m != "_":
            kw["marker"] = m
        want = rs([m] + list(c), [m] + list(r), lim, b)
        got = R.rouge_su(c, r, **kw)
        case.check(abs(got - want) <= 1e-12, "rouge-su", "ROUGE-SU of %s, distance %s, weight %s is %s, expected %s", (c, r), d, b, got, want)
        case.seen("rouge_su")
    case.equal((list(c), map(list, refs)), keep, "input-changed", "arguments")
    if c and [r for r in refs if r]:
        case.distinct((list(c), map(list, refs), n))
    case.sample((c, refs))


GROUPS = [("rouge", case_rouge, 700, 10000)]
