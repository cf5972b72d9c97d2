# -*- coding: utf-8 -*-
"""C33: damaged files are refused and nothing is destroyed"""
import os
import gen, ptcgen
from gen import TAP
from java.lang import Exception as JException
from daeso.gb.graphbank import GraphBank
from daeso.gb.graphml import GraphmlParser
from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_ALL, LOAD_SPARSE, LOAD_NONE
from daeso.ptc.document import HitaextDoc
from daeso.ptc.ielemtree import IndexElemTree

RULE = ("valid files are made, then cut off, overwritten, partly zeroed or otherwise damaged at random places, every place for small files, or removed; Java's "
        "DOM parser tells whether the damaged file is still XML; readers and scripts are run on them, and all files compared with those "
        "before; non-trivial = a file that is no XML")
REQUIRED = ["cut", "cut_in_tag", "cut_in_text", "cut_at_end", "zeroed", "empty", "byte", "lost", "twice", "missing", "still_xml", "no_xml", "corpus", "corpus_bank", "bank",
            "bank_retry", "parser_reuse", "pieces", "ptc", "tree", "first_damaged", "later_damaged", "script", "script_bank", "script_document", "script_missing", "intact_script"]
ASSUMPTIONS = ["a damaged file is one that Java's DOM parser refuses; damage that leaves well-formed XML is only followed up when its content is the same"]


def is_xml(data):
    """content according to the reference parser, or None"""
    try:
        return gen.canon(gen.dom_bytes(data))
    except (JException, Exception):
        return None


def damage(case, data):
    rng = case.rng
    n = len(data)
    how = rng.weighted([("cut", 6), ("end", 2), ("zeroed", 2), ("empty", 1), ("byte", 4), ("lost", 2), ("twice", 2)])
    if how == "cut":
        k = rng.below(n)
        case.seen("cut")
        case.seen("cut_in_tag" if data.rfind("<", 0, k) > data.rfind(">", 0, k) else "cut_in_text")
        return data[:k]
    if how == "end":
        # only the last few bytes are missing
        case.seen("cut_at_end")
        return data[:n - rng.int(1, min(n, 30))]
    if how == "zeroed":
        # the last block of the file was never written
        k = rng.below(n)
        case.seen("zeroed")
        return data[:k] + "\0" * (n - k)
    if how == "empty":
        case.seen("empty")
        return rng.choice(["", "", " \n", "<", "\0"])
    if how == "byte":
        k = rng.below(n)
        case.seen("byte")
        return data[:k] + rng.choice(["<", "&", ">", "\0", "\xff", "\xc3", '"', "/", "x"]) + data[k + 1:]
    i = rng.below(n)
    j = min(n, i + rng.choice([1, 3, 20, 200]))
    if how == "lost":
        case.seen("lost")
        return data[:i] + data[j:]
    case.seen("twice")
    return data[:j] + data[i:]


def broken(case, data):
    """damaged data, no longer XML"""
    for _ in range(30):
        d = damage(case, data)
        if is_xml(d) is None:
            return d
    return data[:len(data) // 2]


def refuse(case, what, f, *args, **kw):
    """f must raise an error"""
    try:
        f(*args, **kw)
    except (JException, Exception):
        case.seen("no_xml")
        return
    case.fail("accepted", "%s is accepted" % what)


def snap(d):
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            out[p] = gen.get(p)
    return out


def check_corpus(case, c, m, by):
    d = gen.diff_key(gen.corpus_key(c), m.key())
    case.check(not d, "content", "intact corpus: %s", d)
    for gp, p in zip(c, m.pairs):
        for g, b, i in ((gp.get_source_graph(), p.sb, p.sg), (gp.get_target_graph(), p.tb, p.tg)):
            gen.check_graph(case, g, by[b].by_id[i])


def corpus(case, base, name, banks, maxpairs=4, m=None, rels=None):
    rng = case.rng
    while m is None or not m.pairs:
        m = gen.rmodel(rng, banks, maxpairs, rels=rels)
    fn = os.path.join(base, name)
    gen.put(fn, gen.pgc_xml(rng, m, base, [(u"k%d" % i, b.path, b.path) for i, b in enumerate(banks)]))
    return fn, m


def banks_for(case, base, n=None):
    for _ in range(50):
        banks = gen.rbanks(case.rng, base, n or case.rng.int(1, 2), 3, 5)
        if sum(len(b.graphs) for b in banks) > 1:
            return banks


def case_corpus(case):
    rng = case.rng
    base = os.path.realpath(case.scratch)
    banks = banks_for(case, base)
    by = dict((b.path, b) for b in banks)
    fn, m = corpus(case, base, "c.pgc", banks)
    good = gen.get(fn)
    same = is_xml(good)
    loads = [LOAD_ALL, LOAD_SPARSE, LOAD_NONE]
    for _ in range(4):
        bad = damage(case, good)
        gen.put(fn, bad)
        c = is_xml(bad)
        load = rng.choice(loads)
        if rng.chance(50):
            read = lambda: ParallelGraphCorpus(inf=fn, graph_loading=load)
        else:
            read = lambda: ParallelGraphCorpus().read(fn, graph_loading=load)
        if c is None:
            refuse(case, "damaged corpus %r" % bad[-60:], read)
            case.seen("corpus")
            case.distinct(bad)
        elif c == same:
            check_corpus(case, ParallelGraphCorpus(inf=fn), m, by)
            case.seen("still_xml")
        case.check(gen.get(fn) == bad, "changed", "file changed by reading")
    gen.put(fn, good)
    # a bank that is used
    p = rng.choice(m.pairs)
    b = rng.choice([p.sb, p.tb])
    text = gen.get(b)
    bad = broken(case, text)
    if rng.chance(12):
        os.remove(b)
        case.seen("missing")
    else:
        gen.put(b, bad)
    for load in (LOAD_ALL, LOAD_SPARSE):
        refuse(case, "corpus with damaged bank %r" % bad[-60:], lambda: ParallelGraphCorpus(inf=fn, graph_loading=load))
        case.seen("corpus_bank")
    d = gen.diff_key(gen.corpus_key(ParallelGraphCorpus(inf=fn, graph_loading=LOAD_NONE)), m.key())
    case.check(not d, "content", "corpus read without graphs: %s", d)
    gen.put(b, text)
    check_corpus(case, ParallelGraphCorpus(inf=fn, graph_loading=rng.choice(loads[:2])), m, by)
    case.sample(dict(pairs=len(m.pairs), bytes=len(good)))


def check_bank(case, g, b):
    """g: graphs by id"""
    case.equal(sorted(g), sorted(x.id for x in b.graphs), "content", "graph ids")
    for x in b.graphs:
        gen.check_graph(case, g[x.id], x)


def case_bank(case):
    rng = case.rng
    base = os.path.realpath(case.scratch)
    b = banks_for(case, base, 1)[0]
    good = gen.get(b.path)
    same = is_xml(good)
    parser = GraphmlParser()
    for _ in range(4):
        bad = damage(case, good)
        gen.put(b.path, bad)
        c = is_xml(bad)
        if c is not None and c != same:
            continue
        if c is not None:
            gb = GraphBank(b.path, "graphml")
            gb.load()
            check_bank(case, dict((g.id, g) for g in gb), b)
            case.seen("still_xml")
            continue
        case.distinct(bad)
        gb = GraphBank(b.path, "graphml")
        refuse(case, "damaged bank %r" % bad[-60:], gb.load)
        case.seen("bank")
        how = rng.below(3)
        if how == 0:
            refuse(case, "damaged bank", parser.parse_file, b.path)
        elif how == 1:
            def read():
                f = open(b.path, "rb")
                try:
                    parser.parse_file(f, rng.choice([None, {}]), sparse=rng.chance(50))
                finally:
                    f.close()
            refuse(case, "damaged bank", read)
        else:
            def read():
                q = GraphmlParser()
                k = rng.below(len(bad) + 1)
                q.parse_string(bad[:k])
                q.parse_string(bad[k:])
                q.close()
            refuse(case, "damaged bank in pieces", read)
            case.seen("pieces")
        case.check(gen.get(b.path) == bad, "changed", "file changed by reading")
        if rng.chance(50):
            # repaired
            gen.put(b.path, good)
            gb.load()
            check_bank(case, dict((g.id, g) for g in gb), b)
            for x in b.graphs:
                gen.check_graph(case, gb.get_graph(x.id), x)
            case.seen("bank_retry")
    gen.put(b.path, good)
    check_bank(case, GraphmlParser().parse_file(b.path), b)
    case.seen("parser_reuse")
    case.sample(dict(bytes=len(good)))


def ptc(case, base, name):
    rng = case.rng
    d1, d2 = [ptcgen.rdoc(rng, 8, "all", root=u"doc") for _ in range(2)]
    d1.write(os.path.join(base, name + "-1.xml"))
    d2.write(os.path.join(base, name + "-2.xml"))
    links = ptcgen.rlinks(rng, d1, d2, rng.int(1, 5))
    m = rng.choice(["n", "id"])
    fn = os.path.join(base, name + ".ptc")
    els = (u'<p ignore="False"/>', u'<s/>')
    gen.put(fn, ptcgen.ptc_xml(d1.path, d2.path, [ptcgen.link_attrs(d1, d2, l, m) for l in links], m, u' size="1"', els))
    return fn, d1, d2, links


def case_text(case):
    rng = case.rng
    base = os.path.realpath(case.scratch)
    fn, d1, d2, links = ptc(case, base, "t")
    good = gen.get(fn)
    same = is_xml(good)
    for _ in range(4):
        bad = damage(case, good)
        gen.put(fn, bad)
        c = is_xml(bad)
        if c is None:
            refuse(case, "damaged text corpus %r" % bad[-60:], HitaextDoc, file=fn)
            case.seen("ptc")
            case.distinct(bad)
        elif c == same:
            d = HitaextDoc(file=fn)
            case.equal(d.get_filename("from"), d1.path, "content", "file name")
            case.equal(len(d.alignment), len(links), "content", "links")
            case.seen("still_xml")
    gen.put(fn, good)
    doc = rng.choice([d1, d2])
    text = gen.get(doc.path)
    for _ in range(3):
        bad = broken(case, text)
        gen.put(doc.path, bad)
        if rng.chance(50):
            refuse(case, "damaged document %r" % bad[-60:], IndexElemTree, doc.path)
        else:
            refuse(case, "damaged document of a text corpus %r" % bad[-60:], lambda: HitaextDoc(file=fn).get_doc_trees())
        case.seen("tree")
    gen.put(doc.path, text)
    trees = HitaextDoc(file=fn).get_doc_trees()
    ptcgen.match(case, d1, trees.source)
    ptcgen.match(case, d2, trees.target)
    case.check(gen.get(fn) == good and gen.get(doc.path) == text, "changed", "file changed by reading")
    case.sample(dict(bytes=len(good)))


# scripts: name -> (kind of arguments, reads banks or documents)
PGC = {"pgc_split.py": True, "pgc_join.py": True, "pgc_zip.py": False, "pgc_cp.py": False, "pgc_chdir.py": False, "pgc_extract_phrases.py": True,
       "pgc_diff.py": True, "pgc_agreement.py": True, "pgc_stats.py": True, "gb_stats.py": True}
PTC = {"ptc_n_to_id.py": True, "ptc_chdir.py": False, "ptc_diff.py": False, "ptc_eval.py": False, "pgc_from_ptc.py": True}
# those that change their files
INPLACE = ("pgc_chdir.py", "ptc_chdir.py", "ptc_n_to_id.py")


def run(case, name, args, cwd):
    """exit status (not 0 if an exception comes out), output, notes"""
    try:
        return gen.run_script(name, args, cwd)
    except (JException, Exception), e:
        return "%s: %s" % (e.__class__.__name__, e), gen.TAP.take(), gen.ERR.take()


def case_pgc_script(case):
    rng = case.rng
    base = os.path.realpath(case.scratch)
    out_dir = os.path.join(base, "cwd")
    os.makedirs(out_dir)
    names = sorted(PGC)
    name = names[case.index % len(names)]
    banks = banks_for(case, base)
    # evaluation knows these relations only
    first, m = corpus(case, base, "c0.pgc", banks, rels=gen.RELS if name in ("pgc_diff.py", "pgc_agreement.py", "pgc_stats.py") else None)
    fns = [first]
    k = 2 if name in ("pgc_diff.py", "pgc_agreement.py") else 1 if name == "pgc_split.py" else rng.int(1, 3)
    for i in range(1, k):
        fns.append(corpus(case, base, "c%d.pgc" % i, banks, m=m)[0])
    args = list(fns)
    if name == "pgc_zip.py":
        args = [os.path.join(out_dir, "new.zip")] + fns
    elif name == "pgc_cp.py":
        args = fns + [out_dir]
    elif name == "pgc_chdir.py":
        args = fns + ["-p", rng.choice(["/", base]), "/new/"]
    elif name == "pgc_agreement.py":
        args = ["-w"] + fns
    elif name == "pgc_stats.py":
        args = [os.path.join(base, "c*.pgc")]
    elif name == "gb_stats.py":
        args = ["-F", "graphml", os.path.join(base, "only", "*.xml")]
        os.makedirs(os.path.join(base, "only"))
        fns = []
        for i in range(rng.int(1, 3)):
            p = os.path.join(base, "only", "b%d.xml" % i)
            gen.put(p, gen.get(rng.choice(banks).path))
            fns.append(p)
    elif name == "pgc_split.py":
        args = fns + ["-s", "1"]
    if name == "pgc_diff.py" and rng.chance(50):
        args.append("-e")
    # run on intact files, in a copy
    hit = rng.below(len(fns))
    victim = fns[hit]
    what = "script"
    if PGC[name] and name != "gb_stats.py" and rng.chance(40):
        p = rng.choice(m.pairs)
        victim = rng.choice([p.sb, p.tb])
        hit = 0
        what = "script_bank"
    text = gen.get(victim)
    gone = False
    if rng.chance(10) and what == "script" and name not in ("pgc_stats.py", "gb_stats.py", "pgc_join.py", "pgc_zip.py"):
        os.remove(victim)
        gone = True
        case.seen("script_missing")
    else:
        gen.put(victim, broken(case, text))
    before = snap(base)
    code, out, err = run(case, name, args, out_dir)
    after = snap(base)
    judge(case, name, code, out, err, before, after, victim, fns, hit, out_dir)
    case.seen(what)
    case.seen("later_damaged" if hit else "first_damaged")
    # and with the file restored it runs
    for p in set(after) - set(before):
        os.remove(p)
    for p in before:
        gen.put(p, before[p])
    gen.put(victim, text)
    code, out, err = run(case, name, args, out_dir)
    case.equal(code, 0, "intact-fails", "exit status of %s on intact files (%s)" % (name, err))
    case.seen("intact_script")
    case.distinct((name, gone, what, hit, len(fns), before.get(victim)))
    case.sample(dict(script=name, victim=os.path.basename(victim), code=str(code)[:80]))


def judge(case, name, code, out, err, before, after, victim, fns, hit, out_dir):
    new = sorted(set(after) - set(before))
    if name == "pgc_cp.py":
        # skips it with a warning
        case.equal(code, 0, "exit", "exit status of pgc_cp (%s)" % err)
        case.check("warning" in err and repr(victim) in err, "no-warning", "no warning about %s: %s", victim, err)
        case.equal(new, sorted(os.path.join(out_dir, os.path.basename(f)) for f in fns if f != victim), "files", "files copied")
    else:
        case.check(code != 0, "accepted", "%s ends with status 0 although %s is damaged; output %r", name, victim, out[-80:])
        allowed = []
        if name == "pgc_zip.py":
            allowed = [os.path.join(out_dir, "new.zip")]
        elif name == "pgc_from_ptc.py":
            allowed = [os.path.join(out_dir, os.path.splitext(os.path.basename(f))[0] + ".pgc") for f in fns[:hit]]
        case.check(set(new) <= set(allowed), "output", "%s writes %s although %s is damaged", name, new, victim)
    for p in before:
        if name in INPLACE and p in fns[:hit]:
            # done already; still a complete file
            case.check(p in after and is_xml(after[p]) is not None, "destroyed", "%s: %s is no longer XML", name, p)
        else:
            case.check(after.get(p) == before[p], "destroyed", "%s: %s has changed or is gone", name, p)
    if name == "pgc_join.py":
        case.check("<parallel_graph_corpus" not in out, "output", "pgc_join writes a corpus although %s is damaged", victim)


def case_ptc_script(case):
    rng = case.rng
    base = os.path.realpath(case.scratch)
    out_dir = os.path.join(base, "cwd")
    os.makedirs(out_dir)
    names = sorted(PTC)
    name = names[case.index % len(names)]
    k = 2 if name == "ptc_diff.py" else rng.int(1, 3)
    made = [ptc(case, base, "t%d" % i) for i in range(k)]
    fns = [x[0] for x in made]
    args = list(fns)
    if name == "ptc_chdir.py":
        args = fns + ["-d", "new"]
    elif name == "ptc_diff.py":
        # two alignments of the same documents
        gen.put(fns[1], gen.get(fns[0]))
    elif name == "ptc_eval.py":
        args = ["-t"] + fns + ["-p"] + fns
    elif name == "pgc_from_ptc.py":
        # linked elements have graphs with the same ids
        src, tgt = [], []
        for fn, d1, d2, links in made:
            for d, lst, n in ((d1, src, "s"), (d2, tgt, "t")):
                p = fn + n + ".gb"
                gs = [gen.rgraph(rng, e.id, 3) for e in d.tagged(u"s")]
                gen.put(p, gen.graphml(gs))
                lst.append(p)
            ls = [l for l in links if l[0].tag == l[1].tag == u"s"]
            gen.put(fn, ptcgen.ptc_xml(d1.path, d2.path, [ptcgen.link_attrs(d1, d2, l, "id") for l in ls], "id"))
        args = ["-p"] + fns + ["-s"] + src + ["-t"] + tgt + ["--source-format", "graphml", "--target-format", "graphml"]
    hit = rng.below(k)
    victim, what = fns[hit], "script"
    if PTC[name] and rng.chance(40):
        victim = rng.choice(made[hit][1:3]).path
        what = "script_document"
        if name == "pgc_from_ptc.py" and rng.chance(60):
            victim = rng.choice([src, tgt])[hit]
            what = "script_bank"
    text = gen.get(victim)
    if rng.chance(10):
        os.remove(victim)
        case.seen("script_missing")
    else:
        gen.put(victim, broken(case, text))
    before = snap(base)
    code, out, err = run(case, name, args, out_dir)
    after = snap(base)
    judge(case, name, code, out, err, before, after, victim, fns, hit, out_dir)
    case.seen(what)
    case.seen("later_damaged" if hit else "first_damaged")
    for p in set(after) - set(before):
        os.remove(p)
    for p in before:
        gen.put(p, before[p])
    gen.put(victim, text)
    code, out, err = run(case, name, args, out_dir)
    case.equal(code, 0, "intact-fails", "exit status of %s on intact files (%s)" % (name, err))
    case.seen("intact_script")
    case.distinct((name, what, hit, len(fns), before.get(victim)))
    case.sample(dict(script=name, victim=os.path.basename(victim), code=str(code)[:80]))


def case_every(case):
    """a small file of each kind cut off at every place"""
    rng = case.rng
    base = os.path.realpath(case.scratch)
    g = [gen.rgraph(rng, u"g%d" % i, 2) for i in (1, 2)]
    b = os.path.join(base, "b.xml")
    gen.put(b, gen.graphml(g))
    kind = case.index % 4
    if kind == 0:
        m = gen.CorpusModel([u"r"], None, [gen.PairModel(b, u"g1", b, u"g2", {(g[0].order[0], g[1].order[0]): u"r"})])
        fn = os.path.join(base, "c.pgc")
        gen.put(fn, gen.pgc_xml(rng, m, base, [(u"1", b, b)]))
        read = lambda: ParallelGraphCorpus(inf=fn, graph_loading=LOAD_NONE)
    elif kind == 1:
        fn = b
        def read():
            GraphBank(b, "graphml").load()
    elif kind == 2:
        d1 = ptcgen.rdoc(rng, 2)
        fn = os.path.join(base, "x.ptc")
        gen.put(fn, ptcgen.ptc_xml("a.xml", "b.xml", [dict(from_tag=u"s", from_n=u"1", to_tag=u"s", to_n=u"1")], "n"))
        read = lambda: HitaextDoc(file=fn)
    else:
        d1 = ptcgen.rdoc(rng, 6)
        fn = os.path.join(base, "d.xml")
        d1.write(fn)
        read = lambda: IndexElemTree(fn)
    data = gen.get(fn)
    step = 1 if case.tier != "quick" else 1 + len(data) // 400
    for k in range(case.rng.below(step), len(data), step):
        gen.put(fn, data[:k])
        if is_xml(data[:k]) is None:
            refuse(case, "first %d of %d bytes" % (k, len(data)), read)
        else:
            read()
    gen.put(fn, data)
    read()
    case.distinct(data)
    case.sample(len(data))


GROUPS = [("corpus", case_corpus, 100, 2000), ("bank", case_bank, 120, 2500), ("text", case_text, 120, 2500), ("pgc_script", case_pgc_script, 150, 2500),
          ("ptc_script", case_ptc_script, 100, 1500), ("every", case_every, 8, 80)]
