# -*- coding: utf-8 -*-
"""C02: graphs, banks and loading modes"""
import gc, os, threading, time
import gen
from java.lang import System, Thread
from daeso.exception import DaesoError
from daeso.pgc.corpus import (ParallelGraphCorpus, LOAD_ALL, LOAD_SPARSE,
                              LOAD_NONE)
from daeso.gb.graphstub import GraphStub

RULE = ("random corpus files over 1-5 GraphML banks of 1-6 graphs (same graph ids in "
        "different banks, listed but unused banks, pairs sharing graphs) read in every "
        "loading mode and compared with the generator's model of the banks; corpus files "
        "with one fault each; deletion of pairs under forced garbage collections, also by a "
        "concurrent thread; non-trivial = at least one pair or a fault")
REQUIRED = ["graph_checked", "shared_graph", "fault_refused", "gc_kept",
            "gc_released", "stubs", "gc_during_read"]
ASSUMPTIONS = ["java.lang.System.gc() performs a collection within the polling time",
               "pairs of a graph with itself are outside the property (documented in graphstub.py)"]
MODES = [LOAD_ALL, LOAD_SPARSE, LOAD_NONE]


def setup(case, maxpairs=7, nbanks=None, minpairs=0, twice=False):
    rng = case.rng
    while True:
        banks = gen.rbanks(rng, case.scratch, nbanks, 5)
        model = gen.rmodel(rng, banks, maxpairs)
        if len(model.pairs) >= minpairs:
            break
    ids = rng.sample([u"1", u"2", u"10", u"b-3", u"x.y"], len(banks))
    entries = []
    for i, b in zip(ids, banks):
        p = b.path if rng.chance(50) else os.path.relpath(b.path, case.scratch)
        entries.append((i, p, b.path))
    if twice:
        # another entry for a bank, by the same or another path
        for k in range(rng.int(1, 2)):
            i, p, real = rng.choice(entries)
            entries.insert(rng.below(len(entries) + 1), (u"again%d" % k, rng.choice([p, real, os.path.join(".", os.path.relpath(real, case.scratch))]), real))
    path = os.path.join(case.scratch, "c.pgc")
    gen.put(path, gen.pgc_xml(rng, model, case.scratch, entries))
    return banks, model, entries, path


def used(model):
    u = {}
    for p in model.pairs:
        u.setdefault(p.sb, set()).add(p.sg)
        u.setdefault(p.tb, set()).add(p.tg)
    return u


def check_corpus(case, c, model, banks, mode, after_gc=False, twice=False):
    by = dict((b.path, b) for b in banks)
    case.equal(len(c), len(model.pairs), "pair-count", "number of pairs")
    u = {}
    graphs, bankobj = {}, {}
    for gp, pm in zip(c, model.pairs):
        for bank, graph, path, gid in (
                (gp.get_source_bank(), gp.get_source_graph(), pm.sb, pm.sg),
                (gp.get_target_bank(), gp.get_target_graph(), pm.tb, pm.tg)):
            case.equal(os.path.realpath(bank.get_file_path()), os.path.realpath(path),
                       "wrong-bank", "bank of %s" % gid)
            case.equal(graph.id, gid, "wrong-graph-id", "graph id")
            key = (path, id(bank)) if twice else path
            u.setdefault(key, set()).add(gid)
            case.check(bankobj.setdefault(key, bank) is bank, "bank-not-shared",
                       "two bank objects for one <file> %s", path)
            if mode == LOAD_NONE:
                case.check(isinstance(graph, GraphStub), "stub", "%s is no stub", graph)
                case.seen("stubs")
                continue
            gen.check_graph(case, graph, by[path].by_id[gid])
            if (key, gid) in graphs:
                case.seen("shared_graph")
            case.check(graphs.setdefault((key, gid), graph) is graph,
                       "graph-not-shared", "pairs naming graph %s of %s have distinct objects",
                       gid, path)
            case.check(bank.get_graph(gid) is graph, "bank-graph-differs",
                       "bank returns another object for %s than its pair has", gid)
        d = gen.diff_key(((), None, (gen.pair_key(gp),)), ((), None, (pm.key(),)))
        case.check(d is None, "pair-differs", "%s", d)
    if len(set(k[0] if twice else k for k in bankobj)) < len(bankobj):
        case.seen("listed_twice")
    for key, bank in bankobj.items():
        path = key[0] if twice else key
        if mode == LOAD_ALL:
            case.equal(len(bank), len(by[path].graphs), "bank-size", "fully loaded bank")
            for gm in by[path].graphs:
                gen.check_graph(case, bank.get_graph(gm.id), gm)
        elif mode == LOAD_SPARSE:
            if not after_gc:
                # (Jython's weak dictionaries count dead graphs for a while)
                case.equal(len(bank), len(u[key]), "bank-size", "sparsely loaded bank")
            case.equal(sorted(g.id for g in bank), sorted(u[key]), "bank-size",
                       "graphs of sparse bank")
            other = [g.id for g in by[path].graphs if g.id not in u[key]]
            for gid in other:
                case.raises(KeyError, bank.get_graph, gid, kind="sparse-has-more",
                            what="get_graph")
        if mode != LOAD_NONE:
            case.raises(KeyError, bank.get_graph, u"no such", kind="get-unknown",
                        what="get_graph")


def sig(model, *more):
    return repr((model.relations, [(os.path.basename(p.sb), p.sg, os.path.basename(p.tb), p.tg,
                                    sorted(p.align.items())) for p in model.pairs]) + more)


def g_modes(case):
    twice = case.rng.chance(20)
    banks, model, entries, path = setup(case, twice=twice)
    res = []
    for mode in MODES:
        c = ParallelGraphCorpus()
        how = case.rng.below(2)
        if how:
            c.read(path, graph_loading=mode)
        else:
            f = open(path, "rb")
            c.read(f, graph_loading=mode)
            f.close()
        check_corpus(case, c, model, banks, mode, twice=twice)
        res.append(c)
    # a mode does not influence equality
    for a in res:
        for b in res:
            case.check(bool(a == b), "modes-differ", "corpora read in different modes differ")
    # default is sparse
    c = ParallelGraphCorpus(inf=path)
    check_corpus(case, c, model, banks, LOAD_SPARSE, twice=twice)
    if model.pairs:
        case.distinct(sig(model))
    case.sample([e[:2] for e in entries])


def g_append_read(case):
    """reading into a corpus that already has pairs"""
    banks, model, entries, path = setup(case, minpairs=1)
    mode = case.rng.choice(MODES)
    c = ParallelGraphCorpus()
    c.read(path, graph_loading=mode)
    check_corpus(case, c, model, banks, mode)
    c2 = ParallelGraphCorpus(inf=path, graph_loading=mode)
    s = c + c2
    model2 = gen.CorpusModel(model.relations, model.meta, model.pairs * 2)
    case.equal(len(s), len(model2.pairs), "sum", "len")
    # purge keeps graphs
    s.purge()
    for gp, pm in zip(s, model2.pairs):
        d = gen.diff_key(((), None, (gen.pair_key(gp),)), ((), None, (pm.key(),)))
        case.check(d is None, "purge-differs", "%s", d)
        if mode != LOAD_NONE:
            by = dict((b.path, b) for b in banks)
            gen.check_graph(case, gp.get_source_graph(), by[pm.sb].by_id[pm.sg])
            gen.check_graph(case, gp.get_target_graph(), by[pm.tb].by_id[pm.tg])
    case.distinct(sig(model, mode))


def g_faults(case):
    rng = case.rng
    banks, model, entries, path = setup(case, minpairs=1, maxpairs=5)
    k = case.index % 8
    mode = MODES[(case.index // 8) % 3]
    text = gen.get(path).decode("utf-8")
    head, tail = text.split(u"<graph_pair ", 1)
    parts = (u"<graph_pair " + tail).split(u"<graph_pair ")[1:]
    i = rng.below(len(parts))
    side = rng.choice([u"from", u"to"])
    applies = True
    import re
    if k == 0:                      # bank file missing, maybe of an unused bank
        b = rng.choice(banks)
        os.remove(b.path)
        applies = mode != LOAD_NONE
    elif k in (1, 2):               # unknown bank
        parts[i] = re.sub(side + u'_bank_id="[^"]*"', side + u'_bank_id="%s"' % rng.choice([u"nobank", u"bank \xe9"]), parts[i], 1)
    elif k in (3, 4):               # unknown graph
        parts[i] = re.sub(side + u'_graph_id="[^"]*"',
                          side + u'_graph_id="%s"' % rng.choice([u"g99", u"nograph", u"n0", u"gr\xe1f"]),
                          parts[i], 1)
        applies = mode != LOAD_NONE
    elif k in (5, 6):               # attribute missing
        a = side + rng.choice([u"_bank_id", u"_graph_id"])
        parts[i] = re.sub(a + u'="[^"]*"', u"", parts[i], 1)
    else:                           # graph removed from bank
        b = [x for x in banks if used(model).get(x.path)][0]
        gid = sorted(used(model)[b.path])[0]
        b.graphs = [g for g in b.graphs if g.id != gid]
        gen.put(b.path, gen.graphml(b.graphs))
        applies = mode != LOAD_NONE
    gen.put(path, head + u"".join(u"<graph_pair " + p for p in parts))
    c = ParallelGraphCorpus()
    if applies:
        kw = dict(graph_loading=mode)
        if rng.chance(40) and not (k == 0 and os.path.exists(os.path.join(case.scratch, os.path.basename(b.path)))):
            # not found next to the corpus either
            kw["relax_gb_paths"] = True
            case.seen("fault_relaxed")
        case.raises(DaesoError, c.read, path, kind="fault-accepted",
                    what="read(fault %d, mode %d)" % (k, mode), **kw)
        case.seen("fault_refused")
        case.seen("fault_%d" % k)
    else:
        c.read(path, graph_loading=mode, relax_gb_paths=rng.chance(30))
        case.equal(len(c), len(model.pairs), "none-mode", "pairs with LOAD_NONE")
        case.seen("fault_not_applicable")
    case.distinct(sig(model, k, mode))


def collect():
    for _ in range(3):
        System.gc()
        Thread.sleep(5)


def edit(case, c, model):
    """delete pairs in some way"""
    rng = case.rng
    for _ in range(rng.int(1, 3)):
        n = len(model.pairs)
        if not n:
            return
        op = rng.below(5)
        if op == 0:
            i = rng.below(n)
            del c[i]
            del model.pairs[i]
        elif op == 1:
            i = rng.below(n)
            j = rng.int(i, n)
            del c[i:j]
            del model.pairs[i:j]
        elif op == 2:
            c.pop()
            model.pairs.pop()
        elif op == 3:
            c.reverse()
            model.pairs.reverse()
        else:
            i = rng.below(n)
            c[i:i + 1] = ParallelGraphCorpus(relations=c.get_relations())
            del model.pairs[i]


def bank_sizes(bankobj):
    return dict((p, sorted(g.id for g in b)) for p, b in bankobj.items())


def g_gc(case):
    rng = case.rng
    banks, model, entries, path = setup(case, minpairs=3, maxpairs=8)
    stop = []
    t = None
    if rng.chance(50):
        def churn():
            while not stop:
                System.gc()
                Thread.sleep(rng.int(1, 4))
        t = threading.Thread(target=churn)
        t.setDaemon(True)
        t.start()
    try:
        c = ParallelGraphCorpus()
        c.read(path, graph_loading=LOAD_SPARSE)
    finally:
        stop.append(1)
        if t:
            t.join()
            case.seen("gc_during_read")
    check_corpus(case, c, model, banks, LOAD_SPARSE, True)
    collect()
    check_corpus(case, c, model, banks, LOAD_SPARSE, True)
    case.seen("gc_kept")
    bankobj = {}
    for gp in c:
        for b in gp.get_banks():
            bankobj[os.path.realpath(b.get_file_path())] = b
    gp = b = None
    steps = 0
    while model.pairs and steps < 3:
        edit(case, c, model)
        steps += 1
        u = used(model)
        deadline = time.time() + 30
        while True:
            collect()
            got = bank_sizes(bankobj)
            want = dict((p, sorted(u.get(p, ()))) for p in bankobj)
            for p in want:
                miss = set(want[p]) - set(got[p])
                case.check(not miss, "graph-lost", "graphs %s in use are gone from %s", miss, p)
            if got == want:
                break
            if time.time() > deadline:
                case.fail("graph-kept", "graphs %r still alive, only %r in use" % (got, want))
        case.seen("gc_released")
        check_corpus(case, c, model, banks, LOAD_SPARSE, True)
    case.distinct(sig(model, steps))


def g_gc_threads(case):
    """threads holding different corpora over the same files, while others collect"""
    rng = case.rng
    banks, model, entries, path = setup(case, minpairs=2, maxpairs=8)
    errs = []

    def reader():
        try:
            for _ in range(3):
                c = ParallelGraphCorpus(inf=path, graph_loading=LOAD_SPARSE)
                if rng.below(2):
                    System.gc()
                sub = c[:1]
                c = None
                System.gc()
                g = sub[0].get_source_graph()
                if sub[0].get_source_bank().get_graph(g.id) is not g:
                    errs.append("bank has another graph")
        except Exception, e:
            errs.append("%s: %s" % (e.__class__.__name__, e))
    ts = [threading.Thread(target=reader) for _ in range(3)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    case.check(not errs, "concurrent-read", "%s", errs)
    case.seen("concurrent_reads", 9)
    case.distinct(sig(model))


GROUPS = [("modes", g_modes, 140, 1500), ("append_read", g_append_read, 40, 300),
          ("faults", g_faults, 144, 1200), ("gc", g_gc, 24, 200),
          ("gc_threads", g_gc_threads, 10, 80)]
