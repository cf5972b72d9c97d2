# -*- coding: utf-8 -*-
"""C11: agreement between annotators"""
import os, pickle, re, StringIO
from fractions import Fraction as F
from math import sqrt
import gen
import c10
from daeso.pgc import agreement

RULE = ("2-5 annotated versions of random corpora on disk, with and without named annotators, all alignments or words only, through "
        "the functions and the script; tables recomputed in exact fractions, pickles and printed tables read back; non-trivial = "
        "annotations which differ")
REQUIRED = ["large", "annotators_2", "annotators_3", "annotators_many", "annotators_ten", "annotators_ten_aligned", "words_only", "words_only_dropped", "pickled", "script",
            "printed_cells", "default_names", "asymmetric", "without_banks", "undefined", "fractions"]
ASSUMPTIONS = ["annotators have different names, other than 'mean', 'SD' and 'overall'"]
RELS = ["equals", "restates", "specifies", "generalizes", "intersects"]
NAMES = ["EM", "wb", "X1", "an.4", "z-9", "Q", "B", "a", "JvD", "k2", "rr", "S"]


def project(pm, words, gs):
    if not words:
        return dict(pm.align)
    sg, tg = gs[pm.sb].by_id[pm.sg], gs[pm.tb].by_id[pm.tg]
    return dict(((s, t), r) for (s, t), r in pm.align.items() if not sg.kids(s) and not tg.kids(t))


def setup(case, need_words):
    rng = case.rng
    d = case.scratch
    large = rng.chance(8) and rng.below(3)
    if large is not False:
        case.seen("large")
    banks = gen.rbanks(rng, d, rng.int(1, 2), ngraphs=3, maxn=rng.int(1, 6) if large != 1 or large is False else 70)
    base = gen.rmodel(rng, banks, maxpairs=rng.choice([0, 2, 4, 8]) if large is False else (60, 4, 2)[large], rels=RELS, maxalign=6 if large != 1 or large is False else 60)
    n = rng.weighted([(2, 3), (3, 4), (4, 2), (5, 1)]) if large is not 2 else rng.choice([7, 10, len(NAMES)])
    if case.index % 40 == 11:
        # many who agree on something
        n = rng.choice([10, len(NAMES)])
        while len([1 for p in base.pairs if p.align]) < 2:
            base = gen.rmodel(rng, banks, maxpairs=4, rels=RELS, maxalign=6)
    models = []
    gs = dict((b.path, b) for b in banks)
    for i in range(n):
        pairs = []
        for p in base.pairs:
            q = p.copy()
            if i or rng.chance(50):
                sg, tg = gs[q.sb].by_id[q.sg], gs[q.tb].by_id[q.tg]
                for k in sorted(q.align):
                    if k in q.align:
                        r = rng.below(8)
                        if r == 0:
                            del q.align[k]
                        elif r == 1:
                            q.align[k] = rng.choice(RELS)
                for _ in range(rng.below(3)):
                    q.add(rng.choice(sg.order), rng.choice(tg.order), rng.choice(RELS))
            pairs.append(q)
        models.append(gen.CorpusModel(RELS, base.meta, pairs))
    fns = []
    for i, m in enumerate(models):
        fn = os.path.join(d, "annot %d.pgc" % i)
        gen.put(fn, gen.pgc_xml(rng, m, d, [("b%d" % k, b.path, b.path) for k, b in enumerate(banks)]))
        fns.append(fn)
    if not need_words and rng.chance(40):
        for b in banks:
            os.remove(b.path)
        case.seen("without_banks")
    return fns, models, gs


def expect(models, names, words, gs):
    """{rel: {measure: {(row, col): Fraction}}} and list of compared pairs"""
    proj = [[project(p, words, gs) for p in m.pairs] for m in models]
    out, data = {}, []
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            if i != j:
                data.append(((a, b), proj[i], proj[j]))
    for rel in [c10.ANY] + RELS:
        out[rel] = dict((k, {}) for k in c10.MEAS)
        for ab, t, p in data:
            m = c10.measures(c10.count(t, p, rel))
            for k in c10.MEAS:
                out[rel][k][ab] = m[k]
    return out, data


def stats(cells, names):
    col, allv = {}, []
    for c in names:
        v = [cells[r, c] for r in names if r != c]
        mu = c10.mean(v)
        col[c] = mu, sqrt(c10.var(v, mu))
        allv += v
    mu = c10.mean(allv)
    return col, (mu, sqrt(c10.var(allv, mu)))


def verify(case, tables, want, names):
    case.equal(sorted(tables), sorted(want), "relations", "relations of tables")
    for rel in want:
        case.equal(sorted(tables[rel]), sorted(c10.MEAS), "measures", "measures of tables")
        for k in c10.MEAS:
            tab, cells = tables[rel][k], want[rel][k]
            case.equal(sorted(tab.labels), sorted(names), "labels", "labels of %s %s" % (rel, k))
            case.equal(sorted(tab), sorted(names + ["mean", "SD"]), "labels", "rows of %s %s" % (rel, k))
            for r in names:
                case.equal(sorted(set(tab[r]) - set([r])), sorted(set(names) - set([r])), "cells", "columns of row %s" % r)
                for c in names:
                    if r != c:
                        c10.eq(case, tab[r][c], cells[r, c], "cell", "%s %s truth %s prediction %s" % (rel, k, r, c))
                        if cells[r, c] != cells[c, r]:
                            case.seen("asymmetric")
                        if cells[r, c] == 0:
                            case.seen("undefined")
            col, (mu, sd) = stats(cells, names)
            for c in names:
                c10.eq(case, tab["mean"][c], col[c][0], "mean", "%s %s mean of %s" % (rel, k, c))
                c10.eq(case, tab["SD"][c], col[c][1], "sd", "%s %s SD of %s" % (rel, k, c))
            c10.eq(case, tab["mean"]["overall"], mu, "overall-mean", "%s %s overall mean" % (rel, k))
            c10.eq(case, tab["SD"]["overall"], sd, "overall-sd", "%s %s overall SD" % (rel, k))


def check_printed(case, text, want, names, factor=100, half=0.00501):
    names = sorted(names)
    parts = re.split(r"Agreement on relation (\S+)\n", text)
    got = {}
    for rel, body in zip(parts[1::2], parts[2::2]):
        measure, cols = None, None
        for line in body.split("\n"):
            w = line.split()
            if len(w) == 1 and w[0].lower() in c10.MEAS:
                measure = w[0].lower()
            elif w and all(x.endswith(":") for x in w):
                cols = [x[:-1] for x in w]
                case.equal(cols, names + ["overall"], "printed", "columns of %s %s" % (rel, measure))
            elif w and w[0].endswith(":"):
                row = w[0][:-1]
                heads = [c for c in cols[:-1] if c != row] + (["overall"] if row in ("mean", "SD") else [])
                case.equal(len(w) - 1, len(heads), "printed", "cells of row %s of %s" % (row, rel))
                for c, x in zip(heads, w[1:]):
                    got[rel, measure, row, c] = x
                # every value stands below its heading
                if row in names:
                    i = names.index(row)
                    case.check(not line[12 * (i + 1):12 * (i + 2)].strip(), "printed", "diagonal of %s not empty: %s", row, line)
    for rel in want:
        for k in c10.MEAS:
            cells = want[rel][k]
            col, ov = stats(cells, names)
            exp = dict(((r, c), v) for (r, c), v in cells.items())
            for c in names:
                exp["mean", c], exp["SD", c] = col[c]
            exp["mean", "overall"], exp["SD", "overall"] = ov
            for (r, c), v in exp.items():
                case.check((rel, k, r, c) in got, "printed", "no value printed for %s", (rel, k, r, c))
                x = got.pop((rel, k, r, c))
                case.check(abs(float(x) - factor * float(v)) <= half, "printed", "%s printed as %s instead of %s",
                           (rel, k, r, c), x, factor * float(v))
                case.seen("printed_cells")
    case.equal(got, {}, "printed", "superfluous values")


def plain(tables):
    return sorted((rel, m, sorted((r, sorted(c.items())) for r, c in t.items())) for rel, ms in tables.items() for m, t in ms.items())


def load(fn):
    f = open(fn, "rb")
    try:
        return pickle.load(f)
    finally:
        f.close()


def case_agree(case):
    rng = case.rng
    words = rng.chance(50)
    fns, models, gs = setup(case, words)
    n = len(fns)
    names = rng.sample(NAMES, n) if rng.chance(70) else None
    shown = names or ["A%d" % (i + 1) for i in range(n)]
    if not names:
        case.seen("default_names")
    if n > 9 and len([1 for m in models for p in m.pairs if p.align]) > 5:
        case.seen("annotators_ten_aligned")
    case.seen("annotators_%s" % (n if n < 4 else "many" if n < 10 else "ten"))
    want, data = expect(models, shown, words, gs)
    if words:
        case.seen("words_only")
        if any(len(project(p, True, gs)) < len(p.align) for m in models for p in m.pairs):
            case.seen("words_only_dropped")
    before = [gen.get(f) for f in fns]
    pk = os.path.join(case.scratch, "out.pickle")
    mode = rng.below(3)
    ev = tables = None
    if mode == 0:
        kw = dict(words_only=words) if words or rng.chance(50) else {}
        if rng.chance(50):
            kw["pickle_fn"] = pk
        ev, tables = agreement.run_eval(fns, names or shown, **kw)
        text = gen.TAP.take()
        check_printed(case, text, want, shown)
        if "pickle_fn" in kw:
            a, t = load(pk)
            case.seen("pickled")
            case.equal(plain(t), plain(tables), "pickle", "pickled tables")
            c10.verify(case, a, c10.Expected([d[1:] for d in data], RELS))
    elif mode == 1:
        k1 = dict(pickle_fn=pk) if rng.chance(50) else {}
        if words or rng.chance(50):
            k1["words_only"] = words
        ev = agreement.cross_evaluate(fns, names, **k1) if names or rng.chance(50) else agreement.cross_evaluate(fns, **k1)
        if "pickle_fn" in k1:
            c10.verify(case, load(pk), c10.Expected([d[1:] for d in data], RELS))
            case.seen("pickled")
        k2 = dict(pickle_fn=pk + "2") if rng.chance(50) else {}
        tables = agreement.tableize(ev, **k2)
        if k2:
            case.equal(plain(load(pk + "2")), plain(tables), "pickle", "pickled tables")
            case.seen("pickled")
        gen.TAP.take()
        agreement.write_tables(tables)
        check_printed(case, gen.TAP.take(), want, shown)
        # fractions
        out = StringIO.StringIO()
        for rel in want:
            out.write("Agreement on relation %s\n" % rel)
            for k in tables[rel]:
                tables[rel][k].write(out=out, header=k)
        check_printed(case, out.getvalue(), want, shown, 1, 0.0000501)
        case.seen("fractions")
    else:
        args = list(fns)
        if names:
            for x in names:
                args += [rng.choice(["-a", "--annotator"]), x]
        if words:
            args.append(rng.choice(["-w", "--words-only"]))
        args += ["-p", pk]
        code, out, err = gen.run_script("pgc_agreement.py", args, case.scratch)
        case.equal(code, 0, "script", "exit status (%s)" % err[-300:])
        case.seen("script")
        check_printed(case, out, want, shown)
        ev, tables = load(pk)
    case.equal(sorted(ev.names), sorted(d[0] for d in data), "compared", "compared annotators")
    # the evaluation's rows in the order in which it names them
    byname = dict((d[0], d[1:]) for d in data)
    c10.verify(case, ev, c10.Expected([byname[x] for x in ev.names], RELS))
    verify(case, tables, want, shown)
    case.equal([gen.get(f) for f in fns], before, "input-changed", "corpus files")
    if any(d[1] != d[2] for d in data):
        case.distinct((shown, data))
    case.sample(dict(annotators=shown, compared=[d[0] for d in data]))


def case_refuse(case):
    """as many annotators as corpora"""
    rng = case.rng
    fns, models, gs = setup(case, True)
    names = rng.sample(NAMES, len(fns) + rng.choice([-1, 1]))
    case.raises(AssertionError, agreement.cross_evaluate, fns, names, kind="annotators-accepted")


GROUPS = [("agree", case_agree, 240, 4000), ("refuse", case_refuse, 10, 60)]
