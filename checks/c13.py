# -*- coding: utf-8 -*-
"""C13: statistics over corpora and graph banks"""
import os
import gen
from daeso.pgc.pgcstats import pgc_stats
from daeso.gb.gbstats import gb_stats

RULE = ("random lists of corpora and banks on disk with punctuation, empty nodes, unaligned graphs and roots, graphs in several pairs; "
        "all option combinations through functions and scripts; every cell recounted from the generator's models; "
        "non-trivial = at least one counted graph")
REQUIRED = ["large", "unaligned_roots", "excluded_pair", "multiple_aligned", "single_aligned", "unaligned_graph", "punct_node", "empty_node",
            "punct_token", "zero_row", "script_pgc", "script_gb", "several_files", "both_directions", "empty_corpus", "no_files", "failed_pair",
            "failed_pair_excluded", "failed_graph", "failed_graph_excluded", "failed_unaligned_excluded"]
ASSUMPTIONS = ["relations are the five of the DAESO scheme", "a corpus lists each bank file once", "no threshold (not implemented)",
               "a graph counts as having unaligned roots when some counted pair leaves its root unaligned"]
RELS = ["equals", "restates", "specifies", "generalizes", "intersects"]
COL = dict(equals="EQ", restates="RE", specifies="SPEC", generalizes="GEN", intersects="INT")
PUNCT = list(u"!,.?;:()-\"'")
WORDS = [u"de", u"kat", u"zit", u"a", u"...", u"x", u"naïef"]


def mkbanks(case, large=None):
    """some banks; large ones are many banks, or a few with many graphs or large graphs"""
    rng = case.rng
    banks = []
    for i in range(rng.int(27, 32) if large == 0 else rng.int(1, 3)):
        graphs = []
        for k in range(rng.int(30, 60) if large == 1 else rng.int(1, 5) if large != 0 else rng.int(1, 2)):
            g = gen.rgraph(rng, rng.choice([u"g%d", u"fail%d"]) % k, 80 if large == 2 else 6, WORDS)
            for n in g.order:
                r = rng.below(10)
                if r < 2:
                    g.ntokens[n] = [rng.choice(PUNCT) for _ in range(rng.int(1, 2))]
                elif r < 4:
                    g.ntokens[n] = []
                elif r < 5:
                    g.ntokens[n] = [rng.choice(PUNCT), rng.choice(WORDS)]
            g.tokens = [rng.choice(WORDS + PUNCT) for _ in range(rng.int(1, 60 if large == 2 else 8))]
            graphs.append(g)
        b = gen.BankModel(os.path.join(case.scratch, "bank%d.xml" % i), graphs)
        gen.put(b.path, gen.graphml(graphs))
        banks.append(b)
    return banks


def failed(g):
    """only the other format has failed parses"""
    return g.format.lower() == "other" and g.id.startswith(u"fail")


def punct(g, n):
    t = g.ntokens[n]
    return bool(t) and all(x in PUNCT for x in t)


def counted(g, n, opt):
    return (opt["punc"] or not punct(g, n)) and (opt["empty"] or bool(g.ntokens[n]))


def corpus_row(case, model, bym, opt):
    row = dict((k, 0) for k in "CGP CGPFU CGPFP CGPUR CNP CEQ CRE CGEN CSPEC CINT".split())
    used, unal, nodes = {}, set(), set()
    for p in model.pairs:
        sg, tg = bym[p.sb].by_id[p.sg], bym[p.tb].by_id[p.tg]
        bad = failed(sg) or failed(tg)
        if bad and not opt["failed"]:
            case.seen("failed_pair_excluded")
            continue
        roots = sg.root is not None and tg.root is not None and (sg.root, tg.root) in p.align
        if not roots and not opt["roots"]:
            case.seen("excluded_pair")
            continue
        row["CGP"] += 1
        if bad:
            row["CGPFP"] += 1
            case.seen("failed_pair")
        elif roots:
            row["CGPFU"] += 1
        if not roots:
            row["CGPUR"] += 1
            unal.update([(p.sb, p.sg), (p.tb, p.tg)])
            case.seen("unaligned_roots")
        used.setdefault((p.sb, p.sg), []).append("s")
        used.setdefault((p.tb, p.tg), []).append("t")
        for (s, t), r in p.align.items():
            if counted(sg, s, opt) and counted(tg, t, opt):
                row["CNP"] += 1
                row["C" + COL[r]] += 1
                nodes.update([(p.sb, p.sg, s), (p.tb, p.tg, t)])
    return row, used, unal, nodes


def bank_row(case, b, opt, used, unal, nodes):
    row = dict((k, 0) for k in "CG CGA CGU CGSA CGMA CGUR CGFP CT CN CNA CNU".split())
    for g in b.graphs:
        n = len(used.get((b.path, g.id), ()))
        if failed(g) and not opt["failed"]:
            case.seen("failed_graph_excluded")
            continue
        if not n and not opt["graphs"]:
            if failed(g):
                case.seen("failed_unaligned_excluded")
            continue
        if failed(g):
            row["CGFP"] += 1
            case.seen("failed_graph")
        if (b.path, g.id) in unal:
            row["CGUR"] += 1
        row["CG"] += 1
        row["CGA" if n else "CGU"] += 1
        case.seen("unaligned_graph" if not n else "single_aligned" if n == 1 else "multiple_aligned")
        if n and len(set(used[b.path, g.id])) == 2:
            case.seen("both_directions")
        if n:
            row["CGSA" if n == 1 else "CGMA"] += 1
        for t in g.tokens:
            if opt["punc"] or t not in PUNCT:
                row["CT"] += 1
            else:
                case.seen("punct_token")
        for x in g.order:
            if punct(g, x):
                case.seen("punct_node")
            if not g.ntokens[x]:
                case.seen("empty_node")
            if counted(g, x, opt):
                row["CN"] += 1
                row["CNA" if (b.path, g.id, x) in nodes else "CNU"] += 1
    return row


def pct(a, b):
    return 100.0 * a / b if b else 0.0


def finish_pgc(r):
    for x in ("FU", "FP", "UR"):
        r["PGP" + x] = pct(r["CGP" + x], r["CGP"])
    for x in COL.values():
        r["P" + x] = pct(r["C" + x], r["CNP"])
    return r


def finish_gb(r):
    r["PGA"], r["PGUR"], r["PGFP"] = [pct(r[k], r["CG"]) for k in ("CGA", "CGUR", "CGFP")]
    r["PGSA"], r["PGMA"] = [pct(r[k], r["CGA"]) for k in ("CGSA", "CGMA")]
    r["ATG"], r["ANG"] = [r[k] / float(r["CG"]) if r["CG"] else 0.0 for k in ("CT", "CN")]
    r["PNA"] = pct(r["CNA"], r["CN"])
    return r


def total(rows, finish):
    out = {}
    for r in rows:
        for k, v in r.items():
            if k.startswith("C"):
                out[k] = out.get(k, 0) + v
    return finish(out) if rows else {}


def table_rows(case, table, name):
    cols = list(table.keys())
    n = set(len(table[c]) for c in cols)
    case.equal(len(n), 1, "ragged", "column lengths differ")
    return [(table[name][i], dict((c, table[c][i]) for c in cols if c != name)) for i in range(len(table[name]))]


def cmp_rows(case, got, want, what):
    """rows as multisets of (name, figures)"""
    left = list(want)
    for name, row in got:
        best = None
        for j, (wn, wr) in enumerate(left):
            if wn == name:
                bad = [k for k in wr if not isnum(row.get(k), wr[k])]
                if not bad:
                    best = j
                    break
        if best is None:
            wr = [w for w in left if w[0] == name]
            bad = [(k, row.get(k), wr[0][1][k]) for k in sorted(wr[0][1]) if not isnum(row.get(k), wr[0][1][k])] if wr else "no such row"
            case.fail("row", "%s: row %s: (column, got, expected) %s" % (what, name, bad))
        del left[best]
        case.check(len(row) == len(want[0][1]), "columns", "%s: columns %s", what, sorted(row))
        if not any(row.values()):
            case.seen("zero_row")
    case.check(not left, "row-missing", "%s: missing rows %s", what, left)


EPS = [1e-9]


def isnum(a, b):
    return a is not None and abs(a - b) <= EPS[0]


def check_overall(case, table, want, name, what, empty):
    for c in table.keys():
        if c == name:
            continue
        o = table[c].overall
        if want:
            w = want[c]
            # percentages and averages over nothing may stay without an overall value
            case.check(o is not None and isnum(o, w) or (o is None and w == 0 and not c.startswith("C")), "overall",
                       "%s: total of %s is %s, expected %s", what, c, o, w)
        else:
            case.check(not o, "overall", "%s: total of %s is %s for no files", what, c, o)


def check_wholes(case, row, kind):
    if kind == "pgc":
        case.check(max(row["CGPUR"], row["CGPFP"]) <= row["CGP"] - row["CGPFU"] <= row["CGPUR"] + row["CGPFP"], "parts", "kinds of graph pairs: %s", row)
        case.equal(sum(row["C" + x] for x in COL.values()), row["CNP"], "parts", "relations")
    else:
        case.equal(row["CGA"] + row["CGU"], row["CG"], "parts", "graphs")
        case.check(row["CGFP"] <= row["CG"] and row["CGUR"] <= row["CG"], "parts", "failed parses and unaligned roots among graphs: %s", row)
        case.equal(row["CGSA"] + row["CGMA"], row["CGA"], "parts", "aligned graphs")
        case.equal(row["CNA"] + row["CNU"], row["CN"], "parts", "nodes")


def printed(case, text):
    """tables printed: list of (columns, rows, overall line words)"""
    lines = text.split("\n")
    out, i = [], 0
    while i < len(lines):
        if i + 1 < len(lines) and lines[i + 1].startswith("----") and lines[i].strip():
            cols = lines[i].split()
            i += 2
            rows = []
            while not lines[i].startswith("----"):
                rows.append(lines[i].split())
                i += 1
            out.append((cols, rows, lines[i + 1].split()))
            i += 2
        else:
            i += 1
    return out


def check_printed(case, tab, want, ov, name):
    cols, rows, overall = tab
    case.equal(cols[0], name, "printed", "first column")
    for r in rows:
        case.equal(len(r), len(cols), "printed", "values in row %s" % r[0])
    EPS[0] = 0.00501
    cmp_rows(case, [(r[0], dict((c, float(x)) for c, x in zip(cols[1:], r[1:]))) for r in rows], want, "printed " + name)
    case.check(fits(cols[1:], overall, ov or {}), "printed", "printed totals of %s are %s, expected %s", cols, overall, ov)
    EPS[0] = 1e-9


def fits(cols, words, ov):
    """words are the totals of the columns, save that those over nothing may be left out"""
    if not cols:
        return not words
    w = ov.get(cols[0], 0)
    if words and isnum(float(words[0]), w) and fits(cols[1:], words[1:], ov):
        return True
    return w == 0 and (not ov or not cols[0].startswith("C")) and fits(cols[1:], words, ov)


def case_pgc(case, large=None):
    rng = case.rng
    banks = mkbanks(case, large)
    bym = dict((b.path, b) for b in banks)
    files, models = [], []
    for i in range(rng.weighted([(0, 1), (1, 5), (2, 4), (3, 3)]) if large is None else rng.int(26, 29) if large == 3 else 1):
        m = gen.rmodel(rng, rng.sample(banks, rng.int(1, len(banks))) if large is None else banks,
                       maxpairs=rng.choice([0, 2, 5, 9]) if large in (None, 3) else rng.int(60, 160), rels=RELS, maxalign=6 if large != 2 else 60)
        for p in m.pairs:
            sg, tg = bym[p.sb].by_id[p.sg], bym[p.tb].by_id[p.tg]
            if rng.chance(60) and sg.root and tg.root:
                p.add(sg.root, tg.root, rng.choice(RELS))
        fn = os.path.join(case.scratch, "corpus%02d.pgc" % i)
        gen.put(fn, gen.pgc_xml(rng, m, case.scratch, [("b%d" % k, b.path, b.path) for k, b in enumerate(banks)]))
        files.append(fn)
        models.append(m)
        if not m.pairs:
            case.seen("empty_corpus")
    opt = dict((k, rng.chance(50)) for k in ("punc", "empty", "roots", "graphs", "failed"))
    script = files and rng.chance(25)
    if script and rng.chance(30):
        opt = dict.fromkeys(opt, True)
    pw, gw = [], []
    for fn, m in zip(files, models):
        row, used, unal, nodes = corpus_row(case, m, bym, opt)
        pw.append((os.path.basename(fn), finish_pgc(row)))
        for b in sorted(set(x for p in m.pairs for x in (p.sb, p.tb))):
            gw.append((os.path.basename(b), finish_gb(bank_row(case, bym[b], opt, used, unal, nodes))))
    ov_p, ov_g = total([r for _, r in pw], finish_pgc), total([r for _, r in gw], finish_gb)
    before = [gen.get(f) for f in files]
    if script:
        flags = dict(punc=["-p", "--with-punc-nodes"], empty=["-e", "--with-empty-nodes"], roots=["-r", "--with-unaligned-roots"],
                     graphs=["-u", "--with_unaligned-graphs"], failed=["-f", "--with-failed-parses"])
        if all(opt.values()) and rng.chance(60):
            args = [rng.choice(["-a", "--with-all"])]
        else:
            args = [rng.choice(flags[k]) for k in sorted(opt) if opt[k]]
        if rng.chance(50):
            args.append("-l")
        pattern = "*.pgc" if rng.chance(50) else os.path.join(case.scratch, "corpus??.pgc")
        code, out, err = gen.run_script("pgc_stats.py", args + [pattern], case.scratch)
        case.equal(code, 0, "script", "exit status (%s)" % err[-300:])
        case.seen("script_pgc")
        tabs = printed(case, out)
        case.equal(len(tabs), 2, "printed", "number of tables")
        check_printed(case, tabs[0], pw, ov_p, "CORPUS")
        check_printed(case, tabs[1], gw, ov_g or None, "BANK")
    else:
        # everything is left out by default
        pt, gt = pgc_stats(files, **dict((k, v) for k, v in [("with_empty_nodes", opt["empty"]), ("with_failed_parses", opt["failed"]), ("with_punc", opt["punc"]),
                                                             ("with_unaligned_roots", opt["roots"]), ("with_unaligned_graphs", opt["graphs"])] if v or rng.chance(50)))
        rows = table_rows(case, pt, "CORPUS")
        case.equal([r[0] for r in rows], [r[0] for r in pw], "row-order", "corpora")
        cmp_rows(case, rows, pw, "corpora")
        for _, r in rows:
            check_wholes(case, r, "pgc")
        rows = table_rows(case, gt, "BANK")
        cmp_rows(case, rows, gw, "banks")
        for _, r in rows:
            check_wholes(case, r, "gb")
        check_overall(case, pt, ov_p, "CORPUS", "corpora", not files)
        check_overall(case, gt, ov_g, "BANK", "banks", not gw)
    case.equal([gen.get(f) for f in files], before, "input-changed", "corpus files")
    case.seen("several_files" if len(files) > 1 else "no_files" if not files else "one_file")
    if any(r["CG"] for _, r in gw):
        case.distinct((sorted(opt.items()), pw, gw))
    case.sample(dict(options=opt, corpora=pw[:1], banks=gw[:1]))


def case_large(case):
    """more banks, graphs, nodes or files than elsewhere"""
    k = case.index // 2
    if case.index % 2:
        case_gb(case, k % 3)
    else:
        case_pgc(case, k % 4)
    case.seen("large")


def case_gb(case, large=None):
    rng = case.rng
    banks = mkbanks(case, large)
    form = rng.choice([u"graphml", u"other"])
    for b in banks:
        for g in b.graphs:
            g.format = form
    opt = dict(punc=rng.chance(50), empty=rng.chance(50), failed=rng.chance(50), graphs=True)
    script = rng.chance(30)
    if script and rng.chance(40):
        opt = dict.fromkeys(opt, True)
    want = [(os.path.basename(b.path), finish_gb(bank_row(case, b, opt, {}, set(), set()))) for b in banks]
    ov = total([r for _, r in want], finish_gb)
    if script:
        args = ["-F", str(form)]
        if all(opt.values()):
            args.append("-a")
        else:
            args += [f for k, f in (("punc", "-p"), ("empty", "-e"), ("failed", "-f")) if opt[k]]
        if rng.chance(50):
            args.append("-l")
        code, out, err = gen.run_script("gb_stats.py", args + ["bank*.xml"], case.scratch)
        case.equal(code, 0, "script", "exit status (%s)" % err[-300:])
        case.seen("script_gb")
        tabs = printed(case, out)
        case.equal(len(tabs), 1, "printed", "number of tables")
        check_printed(case, tabs[0], want, ov, "BANK")
    else:
        t = gb_stats([b.path for b in banks], form, **dict((k, v) for k, v in [("with_empty_nodes", opt["empty"]), ("with_failed_parses", opt["failed"]),
                                                                               ("with_punc", opt["punc"])] if v or rng.chance(50)))
        rows = table_rows(case, t, "BANK")
        case.equal([r[0] for r in rows], [w[0] for w in want], "row-order", "banks")
        cmp_rows(case, rows, want, "banks")
        for _, r in rows:
            check_wholes(case, r, "gb")
        check_overall(case, t, ov, "BANK", "banks", False)
    case.distinct((sorted(opt.items()), want))
    case.sample(want)


GROUPS = [("pgc", case_pgc, 300, 5000), ("gb", case_gb, 90, 1200), ("large", case_large, 12, 120)]
