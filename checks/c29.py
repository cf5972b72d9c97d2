# -*- coding: utf-8 -*-
"""C29: assignment problem solver"""
import itertools
from fractions import Fraction
import gen
from daeso.thirdparty import munkres
from daeso.thirdparty.munkres import Munkres, make_cost_matrix, print_matrix

RULE = ("random and enumerated cost matrices of all shapes up to 14x14 with ties, negative, huge, fractional and floating-point entries, solved by new and reused solvers; "
        "the cost of each answer is compared with the optimum found by dynamic programming over column sets (small) or by shortest augmenting paths (larger, "
        "cross-checked against the former); non-trivial = matrix with at least two rows and columns")
REQUIRED = ["strip", "large", "square", "wide", "tall", "ties", "negative", "huge", "fraction", "float", "reused", "enumerated", "greedy_wrong", "profit", "padded", "printed", "larger", "oracles_agree", "augmented"]
ASSUMPTIONS = ["rectangular non-empty matrices of finite numbers, as lists of lists, as documented", "costs of floating-point matrices are compared up to rounding"]


def best_dp(m):
    """least cost of a complete assignment, over sets of columns"""
    if len(m) > len(m[0]):
        m = [list(c) for c in zip(*m)]
    n, w = len(m), len(m[0])
    cur = {0: 0}
    for row in m:
        new = {}
        for mask, c in cur.items():
            for j in range(w):
                if not mask >> j & 1:
                    k = mask | 1 << j
                    v = c + row[j]
                    if k not in new or v < new[k]:
                        new[k] = v
        cur = new
    return min(cur.values())


def best_paths(m):
    """the same by shortest augmenting paths with potentials"""
    if len(m) > len(m[0]):
        m = [list(c) for c in zip(*m)]
    n, w = len(m), len(m[0])
    u, v, p = [0] * (n + 1), [0] * (w + 1), [0] * (w + 1)
    for i in range(1, n + 1):
        p[0] = i
        j0, minv, used, way = 0, [None] * (w + 1), [False] * (w + 1), [0] * (w + 1)
        while True:
            used[j0] = True
            i0, delta, j1 = p[j0], None, 0
            for j in range(1, w + 1):
                if not used[j]:
                    c = m[i0 - 1][j - 1] - u[i0] - v[j]
                    if minv[j] is None or c < minv[j]:
                        minv[j], way[j] = c, j0
                    if delta is None or minv[j] < delta:
                        delta, j1 = minv[j], j
            for j in range(w + 1):
                if used[j]:
                    u[p[j]] += delta
                    v[j] -= delta
                elif minv[j] is not None:
                    minv[j] -= delta
            j0 = j1
            if p[j0] == 0:
                break
        while j0:
            p[j0] = p[way[j0]]
            j0 = way[j0]
    return sum(m[p[j] - 1][j - 1] for j in range(1, w + 1) if p[j])


def best(case, m):
    if min(len(m), len(m[0])) <= 6 and max(len(m), len(m[0])) <= 9:
        a = best_dp(m)
        if not any(isinstance(x, float) for r in m for x in r):
            case.equal(best_paths(m), a, "oracle", "reference solvers")
            case.seen("oracles_agree")
        return a
    case.seen("larger")
    return best_paths([[Fraction(x) if isinstance(x, float) else x for x in r] for r in m])


def check(case, m, got, what=""):
    rows, cols = len(m), len(m[0])
    case.check(isinstance(got, list), "type", "result %s", got)
    case.equal(len(got), min(rows, cols), "incomplete", "%sassigned pairs of a %d x %d matrix: %s" % (what, rows, cols, got))
    case.equal(len(set(r for r, c in got)), len(got), "row-twice", "rows used")
    case.equal(len(set(c for r, c in got)), len(got), "column-twice", "columns used")
    for r, c in got:
        case.check(0 <= r < rows and 0 <= c < cols, "range", "pair %s of a %s", (r, c), (rows, cols))
    cost = sum(m[r][c] for r, c in got)
    opt = best(case, m)
    if any(isinstance(x, float) for r in m for x in r):
        top = max(abs(x) for r in m for x in r)
        case.check(cost <= opt + 1e-9 * top * (rows + cols), "not-optimal", "%scost %s, best is %s, of %s", what, cost, opt, m)
    else:
        case.check(cost == opt, "not-optimal", "%scost %s, best is %s, of %s", what, cost, opt, m)
    # taking the cheapest in each row does not do
    if rows <= cols and len(set(r.index(min(r)) for r in m)) < rows:
        case.seen("greedy_wrong")


def rmatrix(case, maxn, minn=1):
    rng = case.rng
    r, c = rng.int(minn, maxn), rng.int(1, maxn)
    if rng.chance(45):
        c = r
    elif maxn < 20 and rng.chance(8):
        # a strip
        r, c = rng.int(1, 3), rng.int(18, 60)
        if rng.chance(50):
            r, c = c, r
        case.seen("strip")
    case.seen("square" if r == c else "wide" if c > r else "tall")
    kind = rng.weighted([("ties", 4), ("small", 4), ("negative", 3), ("huge", 2), ("fraction", 2), ("float", 2), ("equal", 1), ("sum", 2), ("product", 2), ("mixed", 1)])
    if kind == "ties":
        cell = lambda i, j: rng.below(3)
        case.seen("ties")
    elif kind == "small":
        cell = lambda i, j: rng.below(30)
    elif kind == "negative":
        cell = lambda i, j: rng.int(-20, 20)
        case.seen("negative")
    elif kind == "huge":
        k = rng.choice([10 ** 9, 3 * 10 ** 9, 2 ** 31, 2 ** 40, 2 ** 63, 10 ** 25])
        cell = lambda i, j: rng.choice([0, k, k + rng.below(9), 2 * k, 5 * k + rng.below(3)])
        case.seen("huge")
    elif kind == "fraction":
        cell = lambda i, j: Fraction(rng.int(-9, 30), rng.int(1, 7))
        case.seen("fraction")
    elif kind == "float":
        sc = rng.choice([1.0, 0.1, 1e6, 1e-5, 1e12, 1e-13, 1e-30])
        cell = lambda i, j: rng.float() * sc if rng.chance(60) else rng.below(5) * 0.1 * sc
        case.seen("float")
    elif kind == "equal":
        k = rng.int(-3, 3)
        cell = lambda i, j: k
    elif kind == "sum":
        cell = lambda i, j: i * 3 + j * 2 + (rng.below(2))
    elif kind == "product":
        # the classical worst case
        cell = lambda i, j: (i + 1) * (j + 1)
        case.seen("augmented")
    else:
        cell = lambda i, j: rng.choice([rng.below(9), rng.below(9) * 0.5, 7L, True])
    return [[cell(i, j) for j in range(c)] for i in range(r)]


def case_random(case):
    rng = case.rng
    solver = Munkres()
    for k in range(rng.int(1, 4)):
        if k or case.index % 60 != 7:
            m = rmatrix(case, rng.choice([3, 5, 7, 9, 14]))
        else:
            m = rmatrix(case, 34, 26)
        if len(m) > 25 or len(m[0]) > 25:
            case.seen("large")
        keep = [list(r) for r in m]
        if k:
            case.seen("reused")
        got = solver.compute(m)
        case.equal(m, keep, "input-changed", "cost matrix")
        check(case, m, got)
        case.equal(Munkres().compute(m), got, "reuse", "answer of a new solver for %s" % (m,))
        if len(m) > 1 and len(m[0]) > 1:
            case.distinct(m)
        case.sample(m)
        # doing the same to a whole row or column changes nothing about what is best
        if rng.chance(40) and not any(isinstance(x, float) for r in m for x in r) and len(m) == len(m[0]):
            i, d = rng.below(len(m)), rng.int(-50, 50)
            m2 = [[x + (d if a == i else 0) for x in r] for a, r in enumerate(m)]
            g2 = solver.compute(m2)
            case.equal(sum(m[a][b] for a, b in g2), sum(m[a][b] for a, b in got), "shifted", "cost after adding %d to a row" % d)


def case_enum(case):
    """all small matrices over few values"""
    shapes = [(2, 2, 4), (2, 3, 3), (3, 2, 3), (1, 3, 4), (3, 1, 4), (3, 3, 2), (2, 4, 2), (4, 2, 2), (3, 4, 2), (4, 3, 2)]
    r, c, v = shapes[case.index]
    if case.tier == "thorough" and v < 3 and r * c <= 9:
        v = 3
    solver = Munkres()
    for cells in itertools.product(range(v), repeat=r * c):
        m = [list(cells[i * c:(i + 1) * c]) for i in range(r)]
        check(case, m, solver.compute(m))
        case.seen("enumerated")
    case.distinct((r, c, v))


def case_profit(case):
    rng = case.rng
    m = rmatrix(case, 6)
    keep = [list(r) for r in m]
    top = max(x for r in m for x in r)
    f = rng.choice([lambda x: top - x, lambda x: -x, lambda x: 2 * top - 2 * x])
    for mk in (make_cost_matrix, Munkres.make_cost_matrix, Munkres().make_cost_matrix):
        c = mk(m, f)
        case.equal(c, [[f(x) for x in r] for r in m], "profit", "cost matrix")
        case.equal(m, keep, "input-changed", "profit matrix")
        case.check(all(a is not b for a in c for b in m), "profit-shared", "rows are shared")
    got = Munkres().compute(c)
    check(case, c, got, "profit: ")
    neg = [[-x for x in r] for r in m]
    gain = sum(m[i][j] for i, j in got)
    opt = -best(case, neg)
    case.check(gain >= opt - 1e-9 * (abs(top) + 1) * 12, "profit-best", "profit %s, best is %s, of %s", gain, opt, m)
    case.seen("profit")
    # padding
    if rng.chance(30):
        m = [[rng.below(9)] * rng.int(5, 20)] * rng.int(5, 20)
        m = [list(r) for r in m]
        keep = [list(r) for r in m]
    pad = rng.choice([0, 0, 7, -1])
    p = Munkres().pad_matrix(m, pad) if pad or rng.chance(50) else Munkres().pad_matrix(m)
    n = max(len(m), len(m[0]))
    want = [[m[i][j] if i < len(m) and j < len(m[0]) else pad for j in range(n)] for i in range(n)]
    case.equal(p, want, "padded", "padded matrix")
    case.equal(m, keep, "input-changed", "padded matrix")
    case.check(all(a is not b for a in p for b in m) and len(set(id(r) for r in p)) == n, "padded-shared", "rows of the padded matrix are shared")
    case.seen("padded")
    # printing
    whole = [[int(x) for x in r] for r in m]
    gen.TAP.take()
    import sys
    old, sys.stdout = sys.stdout, gen.TAP
    try:
        print_matrix(whole, msg=rng.choice([None, "a message"]))
    finally:
        sys.stdout = old
    lines = gen.TAP.take().split("\n")
    if lines[0] == "a message":
        lines = lines[1:]
    case.equal([[int(x) for x in l.strip("[]").split(",")] for l in lines if l], whole, "printed", "matrix printed")
    case.check(len(set(len(l) for l in lines if l)) == 1, "printed-width", "lines %s", lines)
    case.seen("printed")
    case.distinct(m)


GROUPS = [("random", case_random, 300, 5000), ("enum", case_enum, 10, 10), ("profit", case_profit, 80, 1000)]
