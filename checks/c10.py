# -*- coding: utf-8 -*-
"""C10: evaluation of alignments"""
import os, StringIO
from fractions import Fraction as F
from math import sqrt
import gen
from daeso.pair import Pair
from daeso.gb.graphbank import GraphBank
from daeso.graph.daesograph import DaesoGraph
from daeso.pgc.graphpair import GraphPair
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pgc.evaluate import AlignEval

RULE = ("random lists of true/predicted corpora (predictions derived from the truth by dropping, adding, moving and relabelling "
        "alignments, or independent), custom relation sets, empty corpora and pairs; counts and formulas recomputed in exact "
        "fractions; reports parsed back; non-trivial = evaluation with at least one alignment")
REQUIRED = ["large", "common_same_label", "common_other_label", "undefined_precision", "undefined_recall", "several_corpora",
            "one_corpus", "report_rows", "custom_relations", "re_evaluated", "written_file", "written_parts", "written_fractions", "weighted_f", "empty_corpus", "default_names"]
ASSUMPTIONS = ["corpora use only relations that are evaluated"]

NODES = [u"n%d" % i for i in range(6)]
MANY = [u"n%d" % i for i in range(60)]


def blank():
    out = []
    for g in (u"g1", u"g2"):
        d = DaesoGraph(id=g)
        for n in MANY:
            d.add_node(n, label=u"x")
            d.set_node_token_string(n, n)
        out.append(d)
    return Pair(*out)


BANKS = Pair(GraphBank("a.xml", "graphml"), GraphBank("b.xml", "graphml"))


def put(model, s, t, rel):
    for k in list(model):
        if k[0] == s or k[1] == t:
            del model[k]
    model[s, t] = rel


def build(models, rels):
    c = ParallelGraphCorpus(relations=list(rels))
    for m in models:
        gp = GraphPair(BANKS, blank())
        for (s, t), r in sorted(m.items()):
            gp.add_align(Pair(s, t), r)
        c.append(gp)
    return c


def rannot(rng, rels, n):
    m = {}
    nodes = NODES if n < 20 else MANY
    for _ in range(n):
        put(m, rng.choice(nodes), rng.choice(nodes), rng.choice(rels))
    return m


def rderive(rng, rels, m):
    kind = rng.weighted([("same", 2), ("noisy", 6), ("new", 2), ("none", 1)])
    if kind == "same":
        return dict(m)
    if kind == "none":
        return {}
    if kind == "new":
        return rannot(rng, rels, rng.int(0, 6))
    out = dict(m)
    for k in sorted(m):
        if k in out:
            r = rng.below(10)
            if r < 2:
                del out[k]
            elif r < 5:
                out[k] = rng.choice(rels)
            elif r < 6:
                del out[k]
                put(out, k[0], rng.choice(NODES), m[k])
    for _ in range(rng.below(3)):
        put(out, rng.choice(NODES), rng.choice(NODES), rng.choice(rels))
    return out


ANY = "__any_rel__"
COUNTS = ("true", "pred", "common")
MEAS = ("prec", "rec", "f")


def count(true, pred, rel):
    """counts from sets of alignments"""
    t = p = c = 0
    for a, b in zip(true, pred):
        if rel == ANY:
            A, B = set(a), set(b)
        else:
            A = set(k for k in a if a[k] == rel)
            B = set(k for k in b if b[k] == rel)
        t += len(A)
        p += len(B)
        c += len(A & B)
    return dict(true=t, pred=p, common=c)


def measures(c):
    p = F(c["common"], c["pred"]) if c["pred"] else F(0)
    r = F(c["common"], c["true"]) if c["true"] else F(0)
    f = 2 * p * r / (p + r) if p + r else F(0)
    return dict(prec=p, rec=r, f=f)


def var(values, mean):
    n = len(values)
    return sum((v - mean) ** 2 for v in values) / F(n - 1) if n > 1 else F(0)


def mean(values):
    return sum(values) / F(len(values))


class Expected(object):
    def __init__(self, data, rels):
        self.rels = rels
        self.rows, self.sum, self.cstat, self.mstat = {}, {}, {}, {}
        for rel in [ANY] + list(rels):
            rows = [count(t, p, rel) for t, p in data]
            ms = [measures(r) for r in rows]
            self.rows[rel] = zip(rows, ms)
            tot = dict((k, sum(r[k] for r in rows)) for k in COUNTS)
            micro = measures(tot)
            cs, mst = {}, {}
            for k in COUNTS:
                v = [F(r[k]) for r in rows]
                mu = mean(v)
                cs[k] = dict(sum=tot[k], mean=mu, var=var(v, mu), sd=sqrt(var(v, mu)))
            for k in MEAS:
                v = [m[k] for m in ms]
                mu = mean(v)
                mst[k] = dict(macro=dict(mean=mu, var=var(v, mu), sd=sqrt(var(v, mu))),
                              micro=dict(mean=micro[k], var=var(v, micro[k]), sd=sqrt(var(v, micro[k]))))
            self.cstat[rel], self.mstat[rel] = cs, mst
        self.csum = dict((k, sum(self.cstat[r][k]["sum"] for r in rels)) for k in COUNTS)
        m = measures(self.csum)
        self.overall = dict((k, dict(macro=mean([self.mstat[r][k]["micro"]["mean"] for r in rels]),
                                     micro=m[k])) for k in MEAS)


def eq(case, got, want, kind, what):
    case.equal(float(got), float(want), kind, what)


def verify(case, ev, ex):
    for rel in [ANY] + list(ex.rels):
        case.check(rel in ev, "relation-missing", "no table for %s", rel)
        tab = ev[rel]
        case.equal(len(tab), len(ex.rows[rel]), "rows", "rows of %s" % rel)
        for i, (c, m) in enumerate(ex.rows[rel]):
            for k in COUNTS:
                case.equal(tab[i].counts[k], c[k], "count", "%s count %s of corpus %d" % (rel, k, i))
            for k in MEAS:
                eq(case, tab[i].measures[k], m[k], "measure", "%s %s of corpus %d" % (rel, k, i))
            if not c["pred"]:
                case.seen("undefined_precision")
            if not c["true"]:
                case.seen("undefined_recall")
        for k in COUNTS:
            for s in ("sum", "mean", "var", "sd"):
                eq(case, tab.count_stats[k][s], ex.cstat[rel][k][s], "count-stat", "%s %s %s" % (rel, k, s))
        for k in MEAS:
            for how in ("macro", "micro"):
                for s in ("mean", "var", "sd"):
                    eq(case, tab.measure_stats[k][how][s], ex.mstat[rel][k][how][s], "measure-stat",
                       "%s %s %s %s" % (rel, k, how, s))
    for k in COUNTS:
        case.equal(ev.count_stats[k]["sum"], ex.csum[k], "overall-count", "overall %s" % k)
    for k in MEAS:
        for how in ("macro", "micro"):
            eq(case, ev.measure_stats[k][how]["mean"], ex.overall[k][how], "overall-measure", "overall %s %s" % (k, how))


def parse(case, text):
    """tables of a report: list of (title, heading, columns, rows)"""
    tables, title, heading, cols, rows = [], None, None, None, []
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        if l and not l.strip("=") and i + 2 < len(lines) and lines[i + 2] == l:
            title, heading = lines[i + 1], None
            i += 3
            continue
        if l.startswith(("Name:", "Relation:")):
            cols = [x.strip().rstrip(":").lower() for x in l.split()[1:]]
            rows = []
            tables.append((title, heading, cols, rows))
        elif not l.strip() or not l.strip("-"):
            pass
        elif cols is not None and len(l.split()) >= 4:
            w = l.split()
            rows.append((" ".join(w[:-3]), w[-3:]))
        else:
            heading = l.strip()
        i += 1
    return tables


def near(case, printed, value, what, pct=True):
    v = float(value) * (100 if pct else 1)
    case.check(abs(float(printed) - v) <= 0.0051, "report", "report %s: %s instead of %s", what, printed, v)


def check_report(case, text, ex, names, pct=True):
    tabs = parse(case, text)
    want = [("Alignment only", None, ANY)] + [("Alignment per relation", r.upper(), r) for r in ex.rels]
    case.equal(len(tabs), 2 * len(want) + 2, "report", "number of tables")
    for n, (title, heading, rel) in enumerate(want):
        for t, cols in ((tabs[2 * n], COUNTS), (tabs[2 * n + 1], MEAS)):
            case.check((t[0] or "").startswith(title), "report", "title %s instead of %s", t[0], title)
            case.equal(t[1], heading, "report", "heading of table")
            case.equal(tuple(t[2]), cols, "report", "columns")
        rows = tabs[2 * n][3]
        case.equal([r[0] for r in rows], names + ["Sum:", "Mean:", "Var:", "Sd:"], "report", "row names")
        for row, (c, m) in zip(rows, ex.rows[rel]):
            case.equal(row[1], [str(c[k]) for k in COUNTS], "report", "%s counts of %s" % (rel, row[0]))
            case.seen("report_rows")
        case.equal(rows[len(names)][1], [str(ex.cstat[rel][k]["sum"]) for k in COUNTS], "report", "sums of " + rel)
        for row, s in zip(rows[len(names) + 1:], ("mean", "var", "sd")):
            for k, x in zip(COUNTS, row[1]):
                near(case, x, ex.cstat[rel][k][s], "%s %s %s" % (rel, k, s), False)
        rows = tabs[2 * n + 1][3]
        tail = [h + " " + s + ":" for h in ("Macro", "Micro") for s in ("Mean", "Var", "Sd")]
        case.equal([r[0] for r in rows], names + tail, "report", "row names")
        for row, (c, m) in zip(rows, ex.rows[rel]):
            for k, x in zip(MEAS, row[1]):
                near(case, x, m[k], "%s %s of %s" % (rel, k, row[0]), pct)
        for row, (h, s) in zip(rows[len(names):], [(h, s) for h in ("macro", "micro") for s in ("mean", "var", "sd")]):
            for k, x in zip(MEAS, row[1]):
                near(case, x, ex.mstat[rel][k][h][s], "%s %s %s %s" % (rel, k, h, s), pct)
    c, m = tabs[-2], tabs[-1]
    case.check(c[0].startswith("Alignment over all relations"), "report", "title %s", c[0])
    case.equal([r[0] for r in c[3]], list(ex.rels) + ["Sum:"], "report", "rows over relations")
    for row, rel in zip(c[3], ex.rels):
        case.equal(row[1], [str(ex.cstat[rel][k]["sum"]) for k in COUNTS], "report", "sum of %s" % rel)
    case.equal(c[3][-1][1], [str(ex.csum[k]) for k in COUNTS], "report", "overall sums")
    case.equal([r[0] for r in m[3]], list(ex.rels) + ["Macro Mean:", "Micro Mean:"], "report", "rows over relations")
    for row, rel in zip(m[3], ex.rels):
        for k, x in zip(MEAS, row[1]):
            near(case, x, ex.mstat[rel][k]["micro"]["mean"], "summary %s of %s" % (k, rel), pct)
    for row, how in zip(m[3][-2:], ("macro", "micro")):
        for k, x in zip(MEAS, row[1]):
            near(case, x, ex.overall[k][how], "overall %s %s" % (how, k), pct)


def snapshot(c):
    return (tuple(c.get_relations()), tuple((tuple(sorted(((p.source, p.target), r) for p, r in gp.alignments())),
                                             tuple(gp.get_graphs().source.nodes())) for gp in c))


def case_large(case):
    """many files, pairs or alignments"""
    case_eval(case, case.index % 3)
    case.seen("large")


def case_eval(case, large=None):
    rng = case.rng
    if rng.chance(70):
        rels, ev = ["equals", "restates", "specifies", "generalizes", "intersects"], AlignEval()
    else:
        rels = [u"a", u"b-c", u"sum", u"equals", u"true", u"x"][:rng.int(1, 6)] if rng.chance(50) else \
            [u"equals", u"eq", u"Equals", u"equals2", u"e", u"ls", u"eq2"][:rng.int(2, 7)]
        ev = AlignEval(relations=list(rels))
        case.seen("custom_relations")
    if large == 1 and rng.chance(50):
        rels = [u"r%d" % i for i in range(30)]
        ev = AlignEval(relations=list(rels))
        case.seen("many_relations")
    used = rels if rng.chance(70) else rng.sample(rels, rng.int(1, len(rels)))
    data, names, total = [], [], 0
    for rnd in range(rng.weighted([(1, 6), (2, 2)])):
        for i in range(rng.weighted([(1, 4), (2, 3), (3, 3), (6, 1)]) if large is None else (rng.int(26, 40), 1, 2)[large]):
            n = rng.weighted([(0, 1), (1, 4), (3, 3), (5, 1)]) if large is None else (rng.int(0, 2), rng.int(128, 150), 2)[large]
            true = [rannot(rng, used, rng.choice([0, 1, 3, 6, 10]) if large != 2 else 100) for _ in range(n)]
            pred = [rderive(rng, used, m) for m in true]
            if rng.chance(20):
                true, pred = pred, true
            if not n:
                case.seen("empty_corpus")
            tc, pc = build(true, used), build(pred, used)
            name = rng.choice([None, "name %d" % len(names), "x" * rng.int(1, 40), "corpus-%d.pgc" % len(names), ""])
            before = snapshot(tc), snapshot(pc)
            if name is None:
                ev.add(tc, pc)
            else:
                ev.add(tc, pc, name)
            case.check((snapshot(tc), snapshot(pc)) == before, "corpus-changed", "evaluation changed a corpus")
            if not name:
                name = "part%d" % (len(names) + 1)
                case.seen("default_names")
            names.append(name)
            data.append((true, pred))
            for a, b in zip(true, pred):
                for k in a:
                    if k in b:
                        case.seen("common_same_label" if a[k] == b[k] else "common_other_label")
                total += len(a) + len(b)
        ev.run_eval()
        if rng.chance(20):
            ev.run_eval()
        ex = Expected(data, rels)
        verify(case, ev, ex)
        case.equal(list(ev.names), names, "names", "names")
        if rnd:
            case.seen("re_evaluated")
        how = rng.below(5)
        if how > 2:
            # in parts, as percentages or as fractions
            out = StringIO.StringIO()
            if how == 3:
                ev.write_alignment_only(out)
                ev.write_alignment_per_relation(out)
            else:
                for r in [ANY] + rels:
                    out.write("=\nAlignment %s\n=\n" % ("only" if r == ANY else "per relation"))
                    ev[r].write(ev.names, out, percent=False, heading="" if r == ANY else r.upper())
            ev.write_alignment_overall(out, percent=how == 3)
            text = out.getvalue()
            case.seen("written_parts" if how == 3 else "written_fractions")
        elif how == 0:
            out = StringIO.StringIO()
            ev.write(out)
            text = out.getvalue()
        elif how == 1:
            fn = os.path.join(case.scratch, "report %d" % rnd)
            ev.write(fn)
            text = gen.get(fn)
            case.seen("written_file")
        else:
            gen.TAP.take()
            ev.write()
            text = gen.TAP.take()
        check_report(case, text, ex, [" ".join(x.split()) for x in names], how != 4)
    case.seen("several_corpora" if len(data) > 1 else "one_corpus")
    if total:
        case.distinct(data)
    case.sample(dict(names=names, counts=[count(t, p, ANY) for t, p in data]))


def case_refuse(case):
    """corpora of different length are not compared"""
    rng = case.rng
    ev = AlignEval()
    a = [rannot(rng, gen.RELS, 2) for _ in range(rng.int(1, 3))]
    b = a + [{}] if rng.chance(50) else a[:-1]
    case.raises(AssertionError, ev.add, build(a, gen.RELS), build(b, gen.RELS), kind="length-accepted")
    t = [rannot(rng, gen.RELS, 4) for _ in range(2)]
    p = [rderive(rng, gen.RELS, m) for m in t]
    ev.add(build(t, gen.RELS), build(p, gen.RELS), "x")
    ev.run_eval()
    verify(case, ev, Expected([(t, p)], list(AlignEval.relations)))


def case_beta(case):
    """the weighted F score of single counts"""
    from daeso.pgc.evaluate import AlignCounts
    rng = case.rng
    t, p = rng.int(0, 9), rng.int(0, 9)
    c = rng.int(0, min(t, p))
    ac = AlignCounts()
    ac.counts.update(true=t, pred=p, common=c)
    beta = rng.choice([F(0), F(1, 4), F(1, 2), F(3, 4), F(1)])
    for b in (beta, rng.choice([F(1, 2), F(1)])):
        ac.run_eval(float(b))
        prec, rec = F(c, p) if p else F(0), F(c, t) if t else F(0)
        den = b * b * prec + rec
        f = (b * b + 1) * prec * rec / den if den else F(0)
        for k, v in (("prec", prec), ("rec", rec), ("f", f)):
            eq(case, ac.measures[k], v, "beta", "%s of %s with beta %s" % (k, (t, p, c), b))
        if b != 1 and prec != rec and f:
            case.seen("weighted_f")
    case.equal(ac.counts, dict(true=t, pred=p, common=c), "beta", "counts")
    ac.run_eval()
    eq(case, ac.measures["f"], measures(dict(true=t, pred=p, common=c))["f"], "beta", "f after another weight")


GROUPS = [("beta", case_beta, 60, 1000), ("eval", case_eval, 700, 12000), ("refuse", case_refuse, 20, 200), ("large", case_large, 9, 120)]
