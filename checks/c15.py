# -*- coding: utf-8 -*-
"""C15: graph corpora from text alignments"""
import os
import gen, ptcgen
from daeso.pgc.creation import pgc_from_ptc
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.relations import RELATIONS
from daeso.pair import Pair

RULE = ("random documents with links on many tags, graph banks with the graphs named (and others), random limits, tags and relations, through the "
        "library and the script, result compared in memory and in the file written; non-trivial = at least one link on the focus tags")
REQUIRED = ["large", "long_elements", "many_corpora", "selected", "other_tag", "too_long", "too_similar", "limit_exact", "diff_exact", "source_tag_differs", "script", "library", "relations_given",
            "default_relations", "same_link_twice", "relative_doc", "several_files", "id_on_other_tag", "reloaded", "count_mismatch", "case_folded",
            "formats_differ", "formats_alike"]
ASSUMPTIONS = ["alignment by identifier, as documented"]

FEW = u"de kat zit op mat De KAT .".split()
LIKE = u"de dé d één eén een zoe zoë ZOË kat katten 東 京 dé-".split()


def tokens(doc, e):
    return ptcgen.text_of(e).lower().split()


def diff(a, b):
    return len([x for x in a if x not in b]) + len([x for x in b if x not in a])


def setup(case, d, k, stag, ttag):
    """one text corpus with banks"""
    rng = case.rng
    tags = (u"p", u"s", u"s", u"s", u"w")
    n = 14 if rng.chance(94) else 90
    if n > 14:
        case.seen("large")
    words = LIKE if rng.chance(25) else FEW
    d1 = ptcgen.rdoc(rng, n, "all", words, tags, root=u"doc")
    d2 = ptcgen.rdoc(rng, n, "all", words, tags, root=u"doc")
    if n == 14 and rng.chance(15):
        # long and nearly the same
        case.seen("long_elements")
        few = [u"w%d" % i for i in range(70)]
        for e in d1.flat() + d2.flat():
            if e.tag in (stag, ttag):
                some = list(few)
                for _ in range(rng.int(0, 3)):
                    some[rng.below(len(some))] = rng.choice([u"x", u"W1", u"w2"])
                e.text = u" ".join(some if rng.chance(50) else rng.shuffle(some))
    sub = os.path.join(d, "c%d" % k)
    d1.write(os.path.join(sub, "texts", "src.xml"))
    d2.write(os.path.join(sub, "texts", "tgt.xml"))
    links = ptcgen.rlinks(rng, d1, d2, rng.int(1, 4), dup=True) + ptcgen.rlinks(rng, d1, d2, rng.int(0, 8 if n == 14 else 60), [stag], [ttag], dup=True)
    if links and rng.chance(30):
        links.append(rng.choice(links))
    rng.shuffle(links)
    banks = []
    for name, doc, tag in (("src.graphml", d1, stag), ("tgt.graphml", d2, ttag)):
        names = [e.id for e in doc.tagged(tag)] + [u"extra"]
        graphs = [gen.rgraph(rng, g, 4) for g in rng.shuffle(names)]
        p = os.path.join(sub, name)
        gen.put(p, gen.graphml(graphs))
        banks.append(gen.BankModel(p, graphs))
    if rng.chance(30):
        n1, n2 = u"texts/src.xml", u"src.xml"
        n2 = rng.choice([u"texts/tgt.xml", os.path.join(sub, "texts", "tgt.xml")])
        case.seen("relative_doc")
    else:
        n1, n2 = d1.path, d2.path
    fn = os.path.join(sub, "corpus%d.ptc" % k)
    gen.put(fn, ptcgen.ptc_xml(n1, n2, [ptcgen.link_attrs(d1, d2, l, "id") for l in links], "id"))
    return d1, d2, links, banks, fn


def expected(case, d1, d2, links, banks, stag, ttag, mx, mn, rels):
    m = gen.CorpusModel(rels, None, [])
    have = set()
    for l in links:
        a, b = l
        if (a.tag, b.tag) != (stag, ttag):
            case.seen("other_tag")
            if a.id in banks[0].by_id and b.id in banks[1].by_id:
                case.seen("id_on_other_tag")
            continue
        if l in have:
            case.seen("same_link_twice")
        have.add(l)
        s, t = tokens(d1, a), tokens(d2, b)
        if len(s) > mx or len(t) > mx:
            case.seen("too_long")
            continue
        if max(len(s), len(t)) == mx:
            case.seen("limit_exact")
        n = diff(s, t)
        if n < mn:
            case.seen("too_similar")
            continue
        if n == mn:
            case.seen("diff_exact")
        if s != ptcgen.text_of(a).split():
            case.seen("case_folded")
        case.seen("selected")
        m.pairs.append(gen.PairModel(banks[0].path, a.id, banks[1].path, b.id))
    return m


def case_create(case):
    rng = case.rng
    base = os.path.realpath(case.scratch)
    stag, ttag = rng.weighted([((u"s", u"s"), 4), ((u"s", u"p"), 1), ((u"p", u"s"), 1), ((u"w", u"w"), 1)])
    if stag != ttag:
        case.seen("source_tag_differs")
    mx = rng.weighted([(99999, 3), (8, 2), (4, 2), (2, 1), (0, 1)])
    mn = rng.weighted([(0, 3), (1, 2), (2, 2), (4, 1)])
    rels = rng.sample(gen.RELS, rng.int(1, 4)) if rng.chance(50) else None
    want_rels = rels or gen.RELS
    k = rng.int(1, 3) if rng.chance(98) else 27
    if k > 25:
        case.seen("many_corpora")
    sets = [setup(case, base, i, stag, ttag) for i in range(k)]
    texts = [(tokens(d1, a), tokens(d2, b)) for d1, d2, links, _, _ in sets for a, b in links if (a.tag, b.tag) == (stag, ttag)]
    # limits that decide about some text
    if texts and rng.chance(50):
        x = rng.choice(texts)
        mn = diff(*x) + rng.below(2)
        if rng.chance(70):
            mx = 99999
    if texts and rng.chance(25):
        mx = max(map(len, rng.choice(texts))) - rng.below(2)
        mx = max(mx, 0)
    inputs = {}
    for d, _, fs in os.walk(base):
        for f in fs:
            inputs[os.path.join(d, f)] = gen.get(os.path.join(d, f))
    form = [rng.choice(["graphml", "other", "GraphML", "Other"]) for _ in range(2)]
    for x in sets:
        for b, f in zip(x[3], form):
            for g in b.graphs:
                g.format = f
    case.seen("formats_differ" if form[0].lower() != form[1].lower() else "formats_alike")
    models = [expected(case, d1, d2, ls, bs, stag, ttag, mx, mn, want_rels) for d1, d2, ls, bs, fn in sets]
    focus = 0
    for (d1, d2, ls, bs, fn), m in zip(sets, models):
        focus += len([l for l in ls if (l[0].tag, l[1].tag) == (stag, ttag)])
    if rng.chance(45):
        case.seen("script")
        out = os.path.join(base, "out")
        os.mkdir(out)
        args = ["-p"] + [x[4] for x in sets] + ["-s"] + [x[3][0].path for x in sets] + ["-t"] + [x[3][1].path for x in sets]
        args += ["--source-format", form[0], "--target-format", form[1]]
        if (stag, ttag) != ("s", "s") or rng.chance(50):
            args += ["--source-tag", stag, "--target-tag", ttag]
        if mx != 99999:
            args += ["--max-token-len", str(mx)]
        if mn:
            args += ["--min-token-diff", str(mn)]
        if rels:
            args += ["--relations"] + rels
        args = [str(a) for a in args]
        if rng.chance(15):
            drop = sets[0][3][rng.below(2)].path
            bad = [a for a in args if a != drop]
            code, so, se = gen.run_script("pgc_from_ptc.py", bad, out)
            case.check(code != 0, "no-error", "script accepts lists of different lengths: %s", bad)
            case.equal(os.listdir(out), [], "written", "files written after an error")
            case.seen("count_mismatch")
        code, so, se = gen.run_script("pgc_from_ptc.py", args, out)
        case.equal(code, 0, "script", "exit status (%s)" % se)
        case.equal(sorted(os.listdir(out)), sorted("corpus%d.pgc" % i for i in range(k)), "script-files", "files written")
        for i, m in enumerate(models):
            got, listed = gen.xml_key(gen.dom_file(os.path.join(out, "corpus%d.pgc" % i)), out)
            for p, f in listed.values():
                w = form[0] if os.path.realpath(os.path.join(out, p)) == os.path.realpath(sets[i][3][0].path) else form[1]
                case.equal(f, w, "format", "format of bank %s" % p)
            d = gen.diff_key(got, m.key())
            case.check(not d, "script-content", "corpus %d: %s", i, d)
        if k > 1:
            case.seen("several_files")
    else:
        case.seen("library")
        for (d1, d2, ls, bs, fn), m in zip(sets, models):
            kw = dict(graph_formats=Pair(*form))
            if (stag, ttag) != ("s", "s") or rng.chance(50):
                kw["focus_tags"] = Pair(stag, ttag)
            if mx != 99999:
                kw["max_token_len"] = mx
            if mn or rng.chance(50):
                kw["min_token_diff"] = mn
            if rels:
                kw["relations"] = list(rels)
            c = pgc_from_ptc(fn, bs[0].path, bs[1].path, **kw)
            case.check(isinstance(c, ParallelGraphCorpus), "type", "result is %s", type(c))
            d = gen.diff_key(gen.corpus_key(c), m.key())
            case.check(not d, "content", "corpus: %s", d)
            for gp, pm in zip(c, m.pairs):
                case.equal([b.get_format() for b in gp.get_banks()], form, "format", "formats of banks")
                gen.check_graph(case, gp.get_source_graph(), bs[0].by_id[pm.sg])
                gen.check_graph(case, gp.get_target_graph(), bs[1].by_id[pm.tg])
            if rng.chance(40):
                out = os.path.join(base, "x.pgc")
                c.write(out)
                c2 = ParallelGraphCorpus(inf=out)
                d = gen.diff_key(gen.corpus_key(c2), m.key())
                case.check(not d, "reload", "corpus read again: %s", d)
                case.seen("reloaded")
                os.remove(out)
    case.seen("relations_given" if rels else "default_relations")
    case.equal(sorted(RELATIONS), gen.RELS, "default-relations", "default relations")
    for p in inputs:
        case.equal(gen.get(p), inputs[p], "input-changed", "input " + p)
    if focus:
        case.distinct((stag, ttag, mx, mn, rels, [m.key() for m in models]))
    case.sample([m.key() for m in models])


GROUPS = [("create", case_create, 200, 2500)]
