# -*- coding: utf-8 -*-
"""C23: similarity measures"""
import math
import gen
from seqs import rseq, ratio, mutate
from daeso.string import similar as S

RULE = ("random pairs and lists of sequences of every type (strings, unicode, lists, tuples, sets, dictionaries) with and without repeated tokens; "
        "every measure compared with counts made independently, plus symmetry, bounds and identity; non-trivial = two non-empty sequences")
REQUIRED = ["many_types", "many_shared", "pairs", "sets", "repeated", "disjoint", "identical", "empty_one", "empty_both", "generalized", "generalized_empty", "generalized_one", "str", "unicode", "list",
            "tuple", "dict", "mixed"]
ASSUMPTIONS = ["tokens are hashable; lengths count tokens, shared items count types, as the tests of the framework require"]


def types(s):
    out = []
    for x in s:
        if x not in out:
            out.append(x)
    return out


def shared(seqs):
    return len([x for x in types(seqs[0]) if all(x in list(s) for s in seqs[1:])])


def union(seqs):
    return len(types(sum([list(s) for s in seqs], [])))


def prod(xs):
    p = 1
    for x in xs:
        p *= x
    return p


FORMULA = dict(
    type_match=lambda a, b: shared([a, b]),
    token_match=lambda a, b: sum(1 for x in a if x in list(b)),
    sym_token_match=lambda a, b: (sum(1 for x in a if x in list(b)) + sum(1 for x in b if x in list(a))) / 2.0,
    cosine=lambda a, b: ratio(shared([a, b]), math.sqrt(len(a) * len(b))),
    tanimoto=lambda a, b: ratio(shared([a, b]), len(a) + len(b) - shared([a, b])),
    dice=lambda a, b: ratio(2 * shared([a, b]), len(a) + len(b)),
    jaccard=lambda a, b: ratio(shared([a, b]), union([a, b])),
    overlap_min=lambda a, b: ratio(shared([a, b]), min(len(a), len(b))),
    overlap_max=lambda a, b: ratio(shared([a, b]), max(len(a), len(b))),
    overlap=lambda a, b: ratio(shared([a, b]), min(len(a), len(b))))
COUNTS = ("type_match", "token_match", "sym_token_match")


def any_seq(case):
    rng = case.rng
    mx = rng.weighted([(7, 40), (70, 1), (140, 2)])
    k, s = rseq(rng, mx, 5 if mx < 140 else 80, lo=mx // 2 if mx == 140 else 0)
    if mx == 140:
        case.seen("many_types")
    if rng.chance(15):
        k, s = "set", set(s)
    elif rng.chance(10):
        k, s = "dict", dict((x, 1) for x in s)
    case.seen({"set": "sets"}.get(k, k))
    return k, s


def case_pair(case):
    rng = case.rng
    k, a = any_seq(case)
    if rng.chance(20):
        b = a
        case.seen("identical")
    elif rng.chance(40) and k not in ("set", "dict"):
        b = mutate(rng, a)
    else:
        k2, b = any_seq(case)
        if k2 != k:
            case.seen("mixed")
    if isinstance(a, basestring) != isinstance(b, basestring):
        # one kind of collections: strings of letters or containers of tokens
        a, b = list(a), list(b)
    la, lb = list(a), list(b)
    if not la and not lb:
        case.seen("empty_both")
    elif not la or not lb:
        case.seen("empty_one")
    elif not shared([la, lb]):
        case.seen("disjoint")
    plain = len(types(la)) == len(la) and len(types(lb)) == len(lb)
    if not plain:
        case.seen("repeated")
    for name in sorted(FORMULA):
        f = getattr(S, name)
        got = f(a, b)
        want = FORMULA[name](la, lb)
        case.check(abs(got - want) <= 1e-12, name, "%s of %s is %s, expected %s", name, (a, b), got, want)
        if name != "token_match":
            case.check(abs(f(b, a) - got) <= 1e-12, name + "-symmetry", "%s is not symmetric for %s", name, (a, b))
        if name not in COUNTS:
            case.check(-1e-12 <= got <= 1 + 1e-12, name + "-bounds", "%s of %s is %s", name, (a, b), got)
            if plain and la and set(la) == set(lb):
                case.check(abs(got - 1) <= 1e-12, name + "-identity", "%s of equal sets %s is %s", name, (a, b), got)
        if not la or not lb:
            case.equal(got, 0, name + "-empty", "%s of %r" % (name, (a, b)))
        case.seen("pairs")
    if shared([la, lb]) > 30:
        case.seen("many_shared")
    case.equal((list(a), list(b)), (la, lb), "input-changed", "arguments")
    if la and lb:
        case.distinct((sorted(map(repr, la)), sorted(map(repr, lb))))
    case.sample((a, b))


def case_many(case):
    rng = case.rng
    mx = rng.weighted([(6, 9), (40, 1)])
    wide = mx == 40 and rng.chance(50)
    k, a = rseq(rng, mx * (3 if wide else 1), 80 if wide else 4)
    seqs = [] if rng.chance(8) else [a]
    many = rng.chance(4)
    for k2 in range(28 if many else rng.below(5)):
        if many and k2 < 27 and rng.chance(95):
            # alike in what they share
            seqs.append(a[:])
            case.seen("generalized_many")
        elif seqs:
            seqs.append(mutate(rng, rng.choice(seqs)) if rng.chance(75) else rseq(rng, mx, 4, kinds=(k,))[1])
    if not many:
        rng.shuffle(seqs)
    keep = [list(s) for s in seqs]
    n = len(seqs)
    case.seen("generalized")
    if not n or any(not s for s in seqs):
        case.seen("generalized_empty")
    if n == 1:
        case.seen("generalized_one")
    sh = shared(seqs) if seqs else 0
    want = dict(cosine=ratio(sh, math.sqrt(prod([len(s) for s in seqs]))) if seqs else 0,
                dice=ratio(n * sh, sum(len(s) for s in seqs)), jaccard=ratio(sh, union(seqs)) if seqs else 0)
    for name in sorted(want):
        f = getattr(S, "generalized_" + name)
        got = f(seqs)
        case.check(abs(got - want[name]) <= 1e-12, "generalized-" + name, "generalized %s of %s is %s, expected %s", name, seqs, got, want[name])
        case.check(abs(f(rng.shuffle(list(seqs))) - got) <= 1e-12, "generalized-symmetry", "generalized %s depends on the order of %s", name, seqs)
        if n == 2:
            case.check(abs(getattr(S, name)(*seqs) - got) <= 1e-12, "generalized-pair", "generalized %s of the pair %s", name, seqs)
    case.equal([list(s) for s in seqs], keep, "input-changed", "arguments")
    if n > 1:
        case.distinct(keep)


GROUPS = [("pair", case_pair, 700, 10000), ("many", case_many, 400, 5000)]
