# -*- coding: utf-8 -*-
"""C14: statistics tables and segment reports"""
import os, StringIO
import gen, c13
from daeso.stats.table import StatsTable
from daeso.stats.corpus import corpus_seg_stats
from daeso.pgc.pgcstats import PgcStatsTable
from daeso.gb.gbstats import GbStatsTable

RULE = ("random tables (three kinds of columns, counts up to 10^12, names with blanks and non-ASCII) written and read back, alone and after "
        "earlier rows; every truncation of small tables; histories of segment reports over real directory trees with changing files "
        "and targets; non-trivial = table with rows")
REQUIRED = ["many_rows", "many_subsegments", "rows_read_back", "large_count", "blank_name", "nonascii_name", "truncated", "appended", "empty_table", "legenda",
            "seg_runs", "seg_targeted", "seg_from_file", "seg_missing", "seg_emptied", "seg_na", "stream", "seg_several_annots"]
ASSUMPTIONS = ["names are not empty, do not start with '----' and have no blanks at their ends"]


class OwnTable(StatsTable):
    columns_def = """
    NAME string  a name

    CA   count   first count
    PB   percent a percentage of things
    CC   count
    AVD  average some average
    """


class NumTable(StatsTable):
    columns_def = """
    CX count x
    CY count y
    """


NAMES = ["a", "corpus.pgc", "my corpus  1.pgc", u"naïef.pgc", "x" * 60, "1", "1 2 3", u"東京 b", "a-b_c", "12.5", "-", u"plain",
         "dir/a b.xml", "/data/x.pgc", "one/two/three", "./here", "c:\\x", "a/", "#1", "\"q\"", "%s", "a;b"]


def enc(x):
    return x.encode("utf-8") if isinstance(x, unicode) else x


def fill(rng, table, n):
    rows = []
    for _ in range(n):
        row = []
        for c in table.values():
            if c.type == "string":
                # mostly short names followed by wide ones in long tables
                v = rng.choice(NAMES) if len(rows) >= n - 3 or rng.chance(50) else "a"
            elif c.type == "count":
                v = rng.choice([0, 1, 7, rng.below(100), rng.below(10 ** 6), 10 ** rng.int(0, 12), 12345678, 99999999, 123456789])
            else:
                v = rng.choice([0.0, 100.0, rng.float() * 100, rng.float() * 10 ** rng.int(0, 9), 99.995, 1 / 3.0])
            row.append(v)
        rows.append(row)
    how = rng.below(2)
    if how:
        table.grow(n)
        off = len(table.values()[0]) - n
        for i, row in enumerate(rows):
            for c, v in zip(table.values(), row):
                c[off + i] = v
    else:
        for row in rows:
            for c, v in zip(table.values(), row):
                c.append(v)
    return rows


def compare(case, table, rows, what):
    for j, c in enumerate(table.values()):
        case.equal(len(c), len(rows), "rows-lost", "%s: values in column %s" % (what, c.label))
        for i, row in enumerate(rows):
            got, want = c[i], row[j]
            if c.type == "string":
                case.equal(enc(got), enc(want), "name", "%s: name in row %d" % (what, i))
            elif c.type == "count":
                case.check(got == want and int(got) == got, "count", "%s: count %s in row %s is %s, written %s", what, c.label, i, got, want)
            else:
                case.check(abs(got - want) <= 0.0050001, "float", "%s: %s in row %s is %s, written %s", what, c.label, i, got, want)
        case.seen("rows_read_back", len(rows))


KINDS = [OwnTable, NumTable, PgcStatsTable, GbStatsTable]


def case_table(case):
    rng = case.rng
    kind = rng.choice(KINDS)
    t = kind(size=0) if rng.chance(80) else kind()
    n = rng.weighted([(0, 2), (1, 6), (3, 8), (12, 2), (40, 1)])
    if n > 25:
        case.seen("many_rows")
    rows = fill(rng, t, n)
    case.check(t.is_empty() == (not rows), "is-empty", "is_empty() of %s rows", n)
    if rng.chance(60):
        t.summarize()
        for j, c in enumerate(t.values()):
            if c.type == "count":
                case.equal(c.overall, sum(r[j] for r in rows), "sum", "total of " + c.label)
    if not rows:
        case.seen("empty_table")
    for r in rows:
        for v in r:
            if isinstance(v, (int, long)) and v >= 10 ** 8:
                case.seen("large_count")
            if isinstance(v, basestring):
                if " " in v:
                    case.seen("blank_name")
                if isinstance(v, unicode) and enc(v) != v:
                    case.seen("nonascii_name")
    kw = {}
    if rng.chance(60):
        kw["legenda"] = rng.chance(50)
        case.seen("legenda")
    fn = os.path.join(case.scratch, "table")
    f = open(fn, "wb")
    t.write(out=f, **kw)
    f.close()
    compare(case, t, rows, "after writing")
    text = gen.get(fn)
    if kw.get("legenda"):
        # a line for each column, at the end
        got = [l.split(None, 2) for l in text.decode("utf-8").rstrip("\n").split("\n")[-len(t.values()):]]
        case.equal(got, [[unicode(i + 1)] + (u"%s %s" % (enc(c.label).decode("utf-8"), enc(c.descr).decode("utf-8"))).split(None, 1) for i, c in enumerate(t.values())], "legenda", "lines about the columns")
    old = kind()
    earlier = []
    for _ in range(rng.weighted([(0, 3), (1, 2), (2, 1)])):
        more = kind()
        e = fill(rng, more, rng.int(0, 3))
        out = StringIO.StringIO()
        more.write(out=out, legenda=False)
        old.read(StringIO.StringIO(out.getvalue()))
        earlier += e
        case.seen("appended")
    if rng.chance(40):
        old.read(StringIO.StringIO(text))
        case.seen("stream")
    else:
        old.read(fn)
    compare(case, old, earlier + rows, "read back")
    # second generation
    if rng.chance(30):
        old.summarize()
        out = StringIO.StringIO()
        old.write(out=out)
        new = kind()
        new.read(StringIO.StringIO(out.getvalue()))
        compare(case, new, earlier + rows, "read back twice")
    if rows:
        case.distinct((kind.__name__, rows))
    case.sample(text[:400])


def case_cut(case):
    """every proper prefix of a table file"""
    rng = case.rng
    kind = rng.choice([OwnTable, NumTable, OwnTable, GbStatsTable])
    t = kind()
    rows = fill(rng, t, rng.int(1, 3))
    out = StringIO.StringIO()
    t.write(out=out, legenda=False)
    text = out.getvalue()
    lines = text.split("\n")
    seps = [i for i, l in enumerate(lines) if l.startswith("----")]
    body = len("\n".join(lines[:seps[1]])) + 1
    fn = os.path.join(case.scratch, "t")
    # every cut of the first few tables, a sample of the larger ones
    cuts = range(body + 3) if len(text) < 500 else sorted(set([rng.below(body + 4) for _ in range(60)] + [0, body, body + 3]))
    for k in cuts:
        new = kind()
        if k % 7 == 0:
            gen.put(fn, text[:k])
            src = fn
        else:
            src = StringIO.StringIO(text[:k])
        case.raises((EOFError, ValueError), new.read, src, kind="truncation-accepted", what="read of first %d of %d bytes" % (k, len(text)))
        case.seen("truncated")
    for k in range(body + 4, len(text) + 1, 5):
        new = kind()
        try:
            new.read(StringIO.StringIO(text[:k]))
        except (EOFError, ValueError):
            continue
        compare(case, new, rows, "cut after the rows")
    case.distinct((kind.__name__, rows))
    case.sample(text)


# ---------------------------------------------------------------- segments

def seg_rows(case, m, bym, annot):
    opt = dict(punc=False, empty=False, roots=annot == "na", graphs=False, failed=False)
    row, used, unal, nodes = c13.corpus_row(case, m, bym, opt)
    banks = sorted(set(x for p in m.pairs for x in (p.sb, p.tb)))
    return (c13.finish_pgc(row), [(os.path.basename(b), c13.finish_gb(c13.bank_row(case, bym[b], opt, used, unal, nodes)))
                                  for b in banks])


def check_file(case, fn, want, cols, finish, what):
    """a table file holds exactly the rows (as multiset), and their sums"""
    if not want:
        case.check(not os.path.exists(fn), "table-superfluous", "%s exists without rows: %s", fn, os.path.exists(fn) and gen.get(fn))
        return
    case.check(os.path.exists(fn), "table-missing", "no table %s", fn)
    tabs = c13.printed(case, gen.get(fn))
    case.equal(len(tabs), 1, "printed", "tables in " + fn)
    ov = c13.total([r for _, r in want], finish)
    c13.check_printed(case, tabs[0], want, ov, cols)
    counts = [c for c in tabs[0][0][1:]]
    case.check(len(tabs[0][2]) >= sum(c.startswith("C") for c in counts), "printed", "totals of %s: %s", fn, tabs[0][2])


def case_segment(case):
    rng = case.rng
    banks = c13.mkbanks(case)
    bym = dict((b.path, b) for b in banks)
    seg = rng.choice(["news", "rss"])
    root = os.path.join(case.scratch, "data", seg)
    annots = rng.choice([["ma", "aa", "na"], ["ma"], ["na", "ma"], ["x"]])
    subsegs = rng.sample(["one", "two", "deep/one", "deep/er", "s4", "One", "on", "one2"], rng.int(1, 4))
    if rng.chance(6):
        subsegs = ["s%d" % i for i in range(30)]
        annots = annots[:1]
        case.seen("many_subsegments")
    if len(annots) > 1:
        case.seen("seg_several_annots")
    state = {}      # (annot, subseg) -> {file name: model}, on disk
    tables = {}     # (annot, subseg) -> rows in the table files
    cwd = os.path.join(case.scratch, "work")
    os.makedirs(cwd)
    os.chdir(cwd)
    sig = []
    pattern = rng.choice([None, "*.pgc", "p*.pgc"])
    for rnd in range(rng.weighted([(1, 3), (2, 4), (3, 2)])):
        # change the files
        for a in annots:
            for s in subsegs:
                d = os.path.join(root, "pgc", a, s)
                files = state.setdefault((a, s), {})
                for _ in range(rng.below(3)):
                    name = rng.choice(["part1.pgc", "p2.pgc", "whole.pgc", "other.txt"])
                    if not os.path.isdir(d):
                        os.makedirs(d)
                    if name in files and rng.chance(60):
                        del files[name]
                        os.remove(os.path.join(d, name))
                        continue
                    m = gen.rmodel(rng, banks, maxpairs=rng.choice([0, 3, 5]), rels=c13.RELS, meta=False, maxalign=6)
                    for p in m.pairs:
                        sg, tg = bym[p.sb].by_id[p.sg], bym[p.tb].by_id[p.tg]
                        if rng.chance(70) and sg.root and tg.root:
                            p.add(sg.root, tg.root, rng.choice(c13.RELS))
                    files[name] = m
                    rel = rng.chance(50)
                    gen.put(os.path.join(d, name), gen.pgc_xml(
                        rng, m, d, [("b%d" % k, os.path.relpath(b.path, d) if rel else b.path, b.path) for k, b in enumerate(banks)]))
        kind = rng.below(5)
        if kind == 0:
            targets = None
        elif kind == 1:
            targets = ["all"]
        elif kind == 2:
            targets = rng.sample(annots, rng.int(1, len(annots)))
        elif kind == 3:
            targets = rng.sample(subsegs, rng.int(1, len(subsegs)))
        else:
            targets = rng.sample(["%s.%s" % (a, s) for a in annots for s in subsegs], rng.int(1, 2)) + rng.choice([[], ["unknown"], [subsegs[0].upper()], [subsegs[0][:-1], " " + annots[0], annots[0] + ".", annots[0][:1]]])
        if targets and targets != ["all"]:
            case.seen("seg_targeted")
        for a in annots:
            for s in subsegs:
                if not targets or "all" in targets or a in targets or s in targets or a + "." + s in targets:
                    pr, gr = [], []
                    for name, m in state[a, s].items():
                        if name.endswith(".pgc") and (pattern != "p*.pgc" or name.startswith("p")):
                            p, g = seg_rows(case, m, bym, a)
                            pr.append((name, p))
                            gr += g
                            if a == "na" and p["CGPUR"]:
                                case.seen("seg_na")
                    if not pr and tables.get((a, s), ([],))[0]:
                        case.seen("seg_emptied")
                    tables[a, s] = pr, gr
                elif (a, s) in tables:
                    case.seen("seg_from_file")
                else:
                    case.seen("seg_missing")
        kw = dict(annot_dirs=annots, subseg_dirs=subsegs)
        if rng.chance(50):
            kw["verbose"] = rng.chance(50)
        if pattern:
            kw["pgc_files_pattern"] = pattern
        sd = root if rng.chance(50) else os.path.relpath(root, cwd)
        if rng.chance(30):
            sd += "/"
        corpus_seg_stats(targets, sd, **kw)
        gen.TAP.take()
        case.equal(os.path.realpath(os.getcwd()), os.path.realpath(cwd), "cwd", "working directory afterwards")
        case.seen("seg_runs")
        allp, allg = [], []
        for a in annots:
            ap, ag = [], []
            for s in subsegs:
                pr, gr = tables.get((a, s), ([], []))
                base = "stats.%s.%s.%s." % (seg, a, s.replace("/", "."))
                check_file(case, base + "pgc", pr, "CORPUS", c13.finish_pgc, "sub-segment")
                check_file(case, base + "gb", gr, "BANK", c13.finish_gb, "sub-segment")
                ap += pr
                ag += gr
            check_file(case, "stats.%s.%s.pgc" % (seg, a), ap, "CORPUS", c13.finish_pgc, "annotation")
            check_file(case, "stats.%s.%s.gb" % (seg, a), ag, "BANK", c13.finish_gb, "annotation")
            allp += ap
            allg += ag
        check_file(case, "stats.%s.pgc" % seg, allp, "CORPUS", c13.finish_pgc, "segment")
        check_file(case, "stats.%s.gb" % seg, allg, "BANK", c13.finish_gb, "segment")
        sig.append((targets, allp))
        if allp:
            case.distinct(sig)
    case.sample(sig[:1])


GROUPS = [("table", case_table, 300, 5000), ("cut", case_cut, 24, 300), ("segment", case_segment, 110, 1500)]
