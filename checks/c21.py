# -*- coding: utf-8 -*-
"""C21: global and local sequence alignment"""
import re, StringIO
import gen
from seqs import rseq, mutate, unhashable
from daeso.string.needleman_wunsch import needleman_wunsch, print_scores, print_alignment
from daeso.string.smith_waterman import smith_waterman
from daeso.string.waterman_eggert import waterman_eggert, print_all_scores_and_alignments

RULE = ("random and mutated sequences with random similarity tables (also negative and non-uniform) and gap costs per element; alignments rescored and "
        "compared with independent oracles: enumeration of all alignments for short sequences, memoised recursion for longer ones; "
        "non-trivial = two non-empty sequences")
REQUIRED = ["long", "global", "local", "successive", "enumerated", "empty", "nothing_positive", "nonuniform_gap", "uniform_gap", "gap_in_local", "several_found", "limit_reached",
            "limit_one", "all_aligned", "float_scores", "known_inputs", "unhashable", "printed", "printed_empty", "printed_all", "printed_fraction", "printed_wide"]
ASSUMPTIONS = ["gap costs are negative, or zero for global alignment",
               "elements of printed sequences can be converted by str()"]


def key(x):
    """elements need not be hashable, and equal ones need not be alike"""
    return type(x).__name__ + repr(x)


def funcs(rng, a, b, zero_gap=False):
    """random scoring functions for the elements of a and b"""
    kind = rng.weighted([("match", 5), ("table", 4)])
    fl = 0.5 if rng.chance(25) else 1
    if kind == "match":
        hit, miss = rng.choice([1, 2, 5, 10]) * fl, rng.choice([0, 0, -1, -3, -9]) * fl
        table = None
    else:
        table, hit, miss = {}, 0, 0
        for x in sorted(set(map(key, a))):
            for y in sorted(set(map(key, b))):
                table[x, y] = rng.int(-4, 5) * fl
    uniform = rng.chance(50)
    g0 = rng.choice([-1, -2, -5, -20] + ([0] if zero_gap else [])) * fl
    gaps = {}
    for x in sorted(set(map(key, list(a) + list(b)))):
        gaps[x] = g0 if uniform else rng.int(-4, 0 if zero_gap else -1) * fl

    def sim(x, y):
        if table is not None:
            return table[key(x), key(y)]
        return hit if x == y else miss
    return sim, (lambda e: gaps[key(e)]), uniform, fl


def rescore(case, a, b, al, sim, gap, local, what):
    """the score of an alignment given as index pairs"""
    for (i, j) in al:
        case.check(0 <= i < len(a) and 0 <= j < len(b), "index", "%s: pair %s", what, (i, j))
    for (i, j), (k, l) in zip(al, al[1:]):
        case.check(i < k and j < l, "order", "%s: pairs %s and %s", what, (i, j), (k, l))
    s = sum(sim(a[i], b[j]) for i, j in al)
    ii, jj = set(i for i, j in al), set(j for i, j in al)
    lo1, hi1, lo2, hi2 = 0, len(a) - 1, 0, len(b) - 1
    if local:
        if not al:
            return 0
        lo1, hi1, lo2, hi2 = al[0][0], al[-1][0], al[0][1], al[-1][1]
    gaps = [a[i] for i in range(lo1, hi1 + 1) if i not in ii] + [b[j] for j in range(lo2, hi2 + 1) if j not in jj]
    if local and gaps:
        case.seen("gap_in_local")
    return s + sum(gap(x) for x in gaps)


def best_global(a, b, sim, gap):
    memo = {}

    def f(i, j):
        if (i, j) not in memo:
            if i == len(a) and j == len(b):
                v = 0
            else:
                opts = []
                if i < len(a):
                    opts.append(gap(a[i]) + f(i + 1, j))
                if j < len(b):
                    opts.append(gap(b[j]) + f(i, j + 1))
                if i < len(a) and j < len(b):
                    opts.append(sim(a[i], b[j]) + f(i + 1, j + 1))
                v = max(opts)
            memo[i, j] = v
        return memo[i, j]
    return f(0, 0)


def all_global(a, b, sim, gap):
    """every alignment, enumerated by its pairs"""
    best = None
    base = sum(map(gap, a)) + sum(map(gap, b))

    def go(i, j, s):
        yield s
        for k in range(i, len(a)):
            for l in range(j, len(b)):
                for x in go(k + 1, l + 1, s + sim(a[k], b[l]) - gap(a[k]) - gap(b[l])):
                    yield x
    return max(go(0, 0, base))


def best_local(a, b, sim, gap):
    best = 0
    for i in range(len(a)):
        for j in range(len(b)):
            # best alignment that starts with the pair (i, j)
            row = {(i, j): sim(a[i], b[j])}
            for k in range(i, len(a)):
                for l in range(j, len(b)):
                    opts = [row[k, l]] if (k, l) in row else []
                    if (k - 1, l) in row:
                        opts.append(row[k - 1, l] + gap(a[k]))
                    if (k, l - 1) in row:
                        opts.append(row[k, l - 1] + gap(b[l]))
                    if (k - 1, l - 1) in row and k > i and l > j:
                        opts.append(row[k - 1, l - 1] + sim(a[k], b[l]))
                    if opts:
                        row[k, l] = max(opts)
            best = max(best, max(row.values()))
    return best


def close(x, y):
    return abs(x - y) <= 1e-9


def seqpair(case, mx, long=0):
    rng = case.rng
    lo = 0
    if long and rng.chance(3):
        lo, mx = 26, long
        case.seen("long")
    k, a = rseq(rng, mx, rng.int(2, 5), lo=lo)
    b = mutate(rng, a) if rng.chance(50) else rseq(rng, mx, rng.int(2, 5), kinds=(k,), lo=lo)[1]
    if not a or not b:
        case.seen("empty")
    if rng.chance(15):
        a, b = unhashable(rng, a, b)
        case.seen("unhashable")
    return a, b


def case_global(case):
    rng = case.rng
    a, b = seqpair(case, 8, 60)
    sim, gap, uni, fl = funcs(rng, a, b, True)
    case.seen("uniform_gap" if uni else "nonuniform_gap")
    if fl != 1:
        case.seen("float_scores")
    scores, al = needleman_wunsch(a, b, sim, gap)
    case.seen("global")
    got = rescore(case, a, b, al, sim, gap, False, "global alignment of %r and %r" % (a, b))
    want = best_global(a, b, sim, gap)
    case.check(close(scores[len(a), len(b)][0], got), "score", "stated score %s, score of the alignment %s", scores[len(a), len(b)][0], got)
    case.check(close(got, want), "not-optimal", "alignment %s of %s scores %s, the best %s", al, (a, b), got, want)
    if len(a) + len(b) <= 8:
        case.seen("enumerated")
        case.check(close(all_global(a, b, sim, gap), want), "oracle", "oracles differ on %s", (a, b))
    for i in range(len(a) + 1):
        for j in range(len(b) + 1):
            if rng.chance(15 if len(a) < 26 else 1):
                case.check(close(scores[i, j][0], best_global(a[:i], b[:j], sim, gap)), "table", "score of the prefixes %s", (a[:i], b[:j]))
    if a and b:
        case.distinct((a, b, got))
    case.sample((a, b, al, got))


def case_local(case):
    rng = case.rng
    a, b = seqpair(case, 9, 30)
    sim, gap, uni, fl = funcs(rng, a, b)
    scores, al = smith_waterman(a, b, sim, gap)
    case.seen("local")
    got = rescore(case, a, b, al, sim, gap, True, "local alignment of %r and %r" % (a, b))
    want = best_local(a, b, sim, gap)
    if not want:
        case.seen("nothing_positive")
        case.equal(al, [], "not-empty", "alignment without similar elements")
    case.check(close(got, want), "not-optimal", "local alignment %s of %s scores %s, the best %s", al, (a, b), got, want)
    case.check(close(max([v[0] for v in scores.values()]), want), "table", "best score in the table for %s", (a, b))
    if a and b:
        case.distinct((a, b, got))
    case.sample((a, b, al, got))


def case_successive(case):
    rng = case.rng
    a, b = seqpair(case, 7)
    sim, gap, uni, fl = funcs(rng, a, b)
    limit = rng.choice([1, 1, 2, 3, 40])
    tables, als = waterman_eggert(a, b, sim, gap, limit=limit)
    case.seen("successive")
    case.equal(len(tables), len(als), "tables", "number of tables")
    case.check(len(als) <= limit, "limit", "%s alignments, limit %s", len(als), limit)
    if len(als) == limit:
        case.seen("limit_reached")
    if limit == 1:
        case.seen("limit_one")
    if len(als) > 1:
        case.seen("several_found")
    want = best_local(a, b, sim, gap)
    if not want:
        case.equal(als, [], "not-empty", "alignments without similar elements")
    else:
        case.check(als, "none", "no alignment of %s", (a, b))
    for k, al in enumerate(als):
        s = rescore(case, a, b, al, sim, gap, True, "alignment %d of %r and %r" % (k, a, b))
        if k == 0:
            case.check(close(s, want), "not-optimal", "first alignment %s of %s scores %s, the best %s", al, (a, b), s, want)
        else:
            case.check(not set(al) & set(als[k - 1]), "shared", "consecutive alignments %s and %s of %s share a pair", als[k - 1], al, (a, b))
    if tables:
        case.check(close(max(v[0] for v in tables[0].values()), want), "table", "best score in the first table")
    if len(als) < limit:
        done = set(p for al in als for p in al)
        for i in range(len(a)):
            for j in range(len(b)):
                case.check(sim(a[i], b[j]) <= 0 or (i, j) in done, "left-over", "similar pair %s of %s was never aligned: %s", (i, j), (a, b), als)
        case.seen("all_aligned")
        if limit == 40 and rng.chance(60):
            again = waterman_eggert(a, b, sim, gap)
            case.equal(again[1], als, "no-limit", "alignments without limit")
    if a and b:
        case.distinct((a, b, als, limit))
    case.sample((a, b, als))


def case_known(case):
    """inputs on which the successive alignments are known to be wrong"""
    a, b, hit, miss, g, kind = [("ab", "ac", 2, -1, -1, "we-negative"), ("cc", "cc", 5, 0, -5, "we-reused"),
                                ("caab", "caacac", 2, -1, -1, "we-endless")][case.index]
    case.seen("known_inputs")
    sim = lambda x, y: hit if x == y else miss
    tables, als = waterman_eggert(a, b, sim, lambda e: g, limit=60)
    if kind == "we-endless":
        case.check(len(als) < 60, kind, "%s alignments of %s", len(als), (a, b))
    elif kind == "we-negative":
        for al in als:
            s = rescore(case, a, b, al, sim, lambda e: g, True, "known")
            case.check(s > 0, kind, "alignment %s of %s scores %s", al, (a, b), s)
    else:
        al = sum(als, [])
        case.equal(len(set(al)), len(al), kind, "pairs aligned once")


def numbered(case, out, head):
    """lines of a printed table"""
    lines = out.split("\n")
    case.equal(lines[:2], [head, ""], "printed", "title of %s" % out)
    case.equal(lines[-3:], ["", "", ""], "printed", "end of %s" % out)
    return lines[2:-3]


def case_print(case):
    """printed tables show scores and alignments"""
    rng = case.rng
    words = rng.choice([["a", "b", "c"], ["a", u"kat", "zit", "onderzeeboten", 3], [1, 12, 2000000]])
    a, b = [[rng.choice(words) for _ in range(rng.weighted([(0, 1), (rng.int(1, 13), 9)]))] for _ in "ab"]
    if words[0] == "a" and len(words) == 3:
        a, b = "".join(a), "".join(b)
    sim, gap, uniform, fl = funcs(rng, a, b, True)
    if rng.chance(15):
        small = sim
        sim = lambda x, y: small(x, y) * 1234567
    how = rng.below(3)
    if how < 2:
        scores, al = (needleman_wunsch, smith_waterman)[how](a, b, sim, gap)
        tabs, als = [scores], [al]
    else:
        tabs, als = waterman_eggert(a, b, sim, lambda e: min(gap(e), -1), limit=3)
    outs = []
    if how == 2 and rng.chance(50):
        gen.TAP.take()
        print_all_scores_and_alignments(a, b, tabs, als)
        out = gen.TAP.take()
        for al in als:
            i, j = out.index("SCORE MATRIX"), out.index("ALIGNMENT")
            tail = str(al) + "\n"
            k = out.index("\n\n\n", j) + 3
            case.check(out[k:].startswith(tail), "printed", "%r is not after %r", al, out[:k])
            outs.append((out[i:j], out[j:k]))
            out = out[k + len(tail):]
        case.equal(out, "", "printed", "rest of output")
        case.seen("printed_all")
    else:
        for scores, al in zip(tabs, als):
            s1, s2 = StringIO.StringIO(), StringIO.StringIO()
            print_scores(a, b, scores, s1)
            print_alignment(a, b, al, s2)
            outs.append((s1.getvalue(), s2.getvalue()))
    for scores, al, (o1, o2) in zip(tabs, als, outs):
        lines = numbered(case, o1, "SCORE MATRIX")
        case.equal(lines[0].split(), [str(j) for j in range(len(b) + 1)], "printed", "numbers of columns")
        case.equal(lines[1].split(), [str(y) for y in b], "printed", "labels of columns")
        case.equal(len(lines), len(a) + 3, "printed", "rows of %s" % o1)
        for i, l in enumerate(lines[2:]):
            want = [str(i)] + ([str(a[i - 1])] if i else [])
            got = l.split()
            case.equal(got[:len(want)], want, "printed", "labels of row %d of scores" % i)
            cells = [x.split(":") for x in got[len(want):]]
            case.equal([c[-1] for c in cells], [scores[i, j][1] for j in range(len(b) + 1)], "printed", "steps in row %d of %s" % (i, o1))
            for j, c in enumerate(cells):
                case.check(abs(float(c[0]) - scores[i, j][0]) < 1e-9 * max(1, abs(scores[i, j][0])), "printed", "score %s of row %d and column %d is %s", c[0], i, j, scores[i, j][0])
                if scores[i, j][0] != int(scores[i, j][0]):
                    case.seen("printed_fraction")
                if abs(scores[i, j][0]) > 10 ** 6:
                    case.seen("printed_wide")
        # entries stand below their numbers
        ends = [m.end() for m in re.finditer(r"\S+", lines[0])]
        for l in lines[2:]:
            case.equal([m.end() for m in re.finditer(r"\S+", l)][-len(ends):], ends, "printed", "columns of %s" % o1)
        lines = numbered(case, o2, "ALIGNMENT")
        case.equal(lines[0].split(), [str(j) for j in range(len(b))], "printed", "numbers of columns")
        case.equal(lines[1].split(), [str(y) for y in b], "printed", "labels of columns")
        case.equal(len(lines), len(a) + 2, "printed", "rows of %s" % o2)
        for i, l in enumerate(lines[2:]):
            want = [str(i), str(a[i])] + ["x" if (i, j) in al else "." for j in range(len(b))]
            case.equal(l.split(), want, "printed", "row %d of alignment" % i)
        case.seen("printed")
    if not a or not b:
        case.seen("printed_empty")
    if a and b:
        case.distinct((a, b, als))
    case.sample((a, b, als))


GROUPS = [("print", case_print, 120, 2000), ("global", case_global, 400, 6000), ("local", case_local, 400, 6000), ("successive", case_successive, 400, 6000), ("known", case_known, 3, 3)]
