# -*- coding: utf-8 -*-
"""C03: alignment of graph pairs under histories of additions and deletions"""
import copy, itertools, os, re, StringIO, sys
import gen
from daeso.pair import Pair
from daeso.gb.graphbank import GraphBank
from daeso.gb.graphstub import GraphStub
from daeso.graph.daesograph import DaesoGraph
from daeso.pgc.graphpair import GraphMatching, GraphMapping, GraphPair
from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_NONE
from networkx import NetworkXError

RULE = ("random histories of add/delete on graph pairs over small node name sets shared by "
        "source and target, all queries compared with a dictionary model after every "
        "operation; every history of at most 3 (thorough 4) operations over 2x2 nodes "
        "enumerated; non-trivial = history with at least one displacement or deletion")
REQUIRED = ["many_alignments", "displaced", "deleted", "self_named", "relabelled", "mapping_ops", "from_file",
            "roots_aligned_true", "dumped"]
ASSUMPTIONS = ["an empty list of relations means no filter, as the code documents no other use"]


class Model(object):
    def __init__(self, one2one):
        self.one2one, self.a = one2one, {}

    def add(self, s, t, rel):
        gone = 0
        if self.one2one:
            for k in list(self.a):
                if (k[0] == s) != (k[1] == t):
                    del self.a[k]
                    gone += 1
        self.a[s, t] = rel
        return gone


def graphs(root_s, root_t):
    out = []
    for name, root in ((u"g1", root_s), (u"g2", root_t)):
        g = DaesoGraph(id=name)
        for n in NODES:
            g.add_node(n, label=u"x")
            g.set_node_token_string(n, u"t " + n)
        g.root = root
        out.append(g)
    return Pair(*out)


NODES = [u"n0", u"n1", u"n2", u"n3", u"n4"]


def verify(case, gp, m, nodes, roots):
    got = sorted(((p.source, p.target), r) for p, r in gp.alignments())
    want = sorted(m.a.items())
    case.equal(got, want, "alignments", "alignments()")
    got = sorted(((p.source, p.target), r) for p, r in gp.alignments_iter())
    case.equal(got, want, "alignments", "alignments_iter()")
    case.equal(len(gp), len(m.a), "length", "len")
    case.equal(sorted(gp.nodes()), sorted(set(n for k in m.a for n in k)), "nodes",
               "nodes taking part in the alignment")
    for s in nodes:
        for t in nodes:
            case.equal(gp.get_align(Pair(s, t)), m.a.get((s, t)), "get-align",
                       "get_align(%s,%s)" % (s, t))
    for rels in (["equals"], ["equals", "specifies"], set(["restates"]), ("none",)):
        got = sorted(((p.source, p.target), r) for p, r in gp.alignments(relations=rels))
        case.equal(got, sorted((k, v) for k, v in m.a.items() if v in rels),
                   "filter", "alignments(%s)" % (rels,))
        got2 = sorted(((p.source, p.target), r) for p, r in gp.alignments_iter(rels))
        case.equal(got2, got, "filter", "alignments_iter(%s)" % (rels,))
    if m.one2one:
        fwd = dict(k for k in m.a)
        back = dict((t, s) for s, t in m.a)
        case.check(len(fwd) == len(m.a) == len(back), "model", "model not one-to-one")
        for n in nodes + [u"unknown"]:
            case.equal(gp.get_aligned_target_node(n), fwd.get(n), "partner",
                       "target of %s" % n)
            case.equal(gp.get_aligned_source_node(n), back.get(n), "partner",
                       "source of %s" % n)
    want = (roots[0], roots[1]) in m.a
    case.equal(bool(gp.roots_aligned()), want, "roots", "roots_aligned()")
    if want:
        case.seen("roots_aligned_true")


def dumped(case, gp, m):
    """what dump_alignments prints"""
    old, sys.stdout = sys.stdout, StringIO.StringIO()
    try:
        gp.dump_alignments()
        text = sys.stdout.getvalue()
    finally:
        sys.stdout = old
    got = []
    for l in text.splitlines():
        if "<==" in l:
            x = re.match(r"\[(.*?)\] (.*) <==(.*)==> \[(.*?)\] (.*)$", l)
            case.check(x, "dump", "dump_alignments prints %r", l)
            got.append(x.groups())
    case.equal(sorted(got), sorted((s, repr(u"t " + s), r.upper(), t, repr(u"t " + t)) for (s, t), r in m.a.items()),
               "dump", "dump_alignments")
    case.seen("dumped")


def fresh(case, one2one, roots):
    b = GraphBank("/nonexistent/b1.xml", "graphml"), GraphBank("/nonexistent/b2.xml", "graphml")
    cls = GraphMatching if one2one else GraphMapping
    return cls(Pair(*b), graphs(*roots)), Model(one2one)


def apply_op(case, gp, m, op):
    if op[0] == "add":
        _, s, t, rel = op
        old = m.a.get((s, t))
        if old is not None and old != rel:
            case.seen("relabelled")
        if s == t:
            case.seen("self_named")
        gp.add_align(Pair(s, t), rel)
        if m.add(s, t, rel):
            case.seen("displaced")
    else:
        _, s, t = op
        if (s, t) in m.a:
            gp.del_align(Pair(s, t))
            del m.a[s, t]
            case.seen("deleted")
        else:
            # not there: refused, or nothing happens
            try:
                gp.del_align(Pair(s, t))
            except (NetworkXError, KeyError):
                case.seen("refused_deletion")
    case.note(op)


def g_history(case):
    rng = case.rng
    one2one = rng.chance(75)
    roots = (rng.choice(NODES + [None]), rng.choice(NODES + [None]))
    nodes = NODES[:rng.int(1, 5)]
    gp, m = fresh(case, one2one, roots)
    if one2one and rng.chance(15):
        gp = GraphPair(gp.get_banks(), gp.get_graphs())
    if not one2one:
        case.seen("mapping_ops")
    hist = []
    for _ in range(rng.int(1, 40)):
        if rng.chance(65) or not m.a:
            op = ("add", rng.choice(nodes), rng.choice(nodes), rng.choice(gen.RELS))
        elif rng.chance(85):
            s, t = rng.choice(sorted(m.a))
            op = ("del", s, t)
        else:
            op = ("del", rng.choice(nodes), rng.choice(nodes))
        apply_op(case, gp, m, op)
        hist.append(op)
        verify(case, gp, m, nodes, roots)
        if rng.chance(5):
            gp = copy.deepcopy(gp)
            verify(case, gp, m, nodes, roots)
            dumped(case, gp, m)
    case.distinct(repr((one2one, roots, hist)))
    case.sample(hist[:6])


OPS = ([("add", s, t, r) for s in NODES[:2] for t in NODES[:2]
        for r in ("equals", "restates")] +
       [("del", s, t) for s in NODES[:2] for t in NODES[:2]])


def n_enum(k):
    # one case per first operation and class
    return lambda: 2 * len(OPS)


def g_enum(case, length):
    one2one = case.index % 2 == 0
    first = OPS[case.index // 2]
    n = 0
    for rest in itertools.product(OPS, repeat=length - 1):
        gp, m = fresh(case, one2one, (u"n0", u"n1"))
        case.log = []
        for op in (first,) + rest:
            apply_op(case, gp, m, op)
        verify(case, gp, m, NODES[:2], (u"n0", u"n1"))
        n += 1
    case.seen("enumerated_histories", n)
    case.distinct(repr(first))


def g_enum3(case):
    g_enum(case, 3)


def g_enum_tier(case):
    g_enum(case, 4 if case.tier == "thorough" else 3)


def g_file(case):
    """a corpus file with conflicting node pairs is read as a history"""
    rng = case.rng
    banks = gen.rbanks(rng, case.scratch, 2, 1)
    model = gen.CorpusModel(gen.RELS, None, [])
    graphs = banks[0].graphs[0], banks[1].graphs[0]
    pm = gen.PairModel(banks[0].path, graphs[0].id, banks[1].path, graphs[1].id)
    nodes = rng.sample(sorted(set(graphs[0].order + graphs[1].order)), 5)
    nodes += [n for n in NODES if n not in nodes][:5 - len(nodes)]
    model.pairs.append(pm)
    text = gen.pgc_xml(rng, model, case.scratch, [(u"1", banks[0].path, banks[0].path),
                                                  (u"2", banks[1].path, banks[1].path)])
    m = Model(True)
    lines = []
    for _ in range(rng.int(1, 12)):
        s, t, r = rng.choice(nodes), rng.choice(nodes), rng.choice(gen.RELS)
        lines.append(u'<node_pair from_node_id="%s" to_node_id="%s" relation="%s"/>' % (s, t, gen.esc(r)))
        m.add(s, t, r)
    path = os.path.join(case.scratch, "c.pgc")
    gen.put(path, text.replace(u"</graph_pair>", u"".join(lines) + u"</graph_pair>"))
    c = ParallelGraphCorpus(inf=path)
    verify(case, c[0], m, nodes, (graphs[0].root, graphs[1].root))
    case.seen("from_file")
    case.distinct(repr(lines))


def g_many(case):
    """many nodes"""
    rng = case.rng
    one2one = rng.chance(60)
    gp, m = fresh(case, one2one, (u"n0", u"n0"))
    n = rng.choice([300, 60])
    all_rels = gen.RELS + ([u"r%d" % i for i in range(25)] if rng.chance(50) else [])
    for _ in range(900):
        if rng.chance(80) or not m.a:
            apply_op(case, gp, m, ("add", u"n%d" % rng.below(n), u"n%d" % rng.below(n),
                                   rng.choice(all_rels)))
        else:
            s, t = rng.choice(sorted(m.a))
            apply_op(case, gp, m, ("del", s, t))
    got = sorted(((p.source, p.target), r) for p, r in gp.alignments())
    case.equal(got, sorted(m.a.items()), "alignments", "alignments()")
    case.equal(len(gp), len(m.a), "length", "len")
    case.equal(sorted(gp.nodes()), sorted(set(x for k in m.a for x in k)), "nodes", "nodes taking part in the alignment")
    for rels in (["equals"], gen.RELS[1:3], rng.shuffle(list(all_rels)), all_rels[::-1][:20], set(all_rels[2:])):
        case.equal(sorted(((p.source, p.target), r) for p, r in gp.alignments(relations=rels)),
                   sorted((k, v) for k, v in m.a.items() if v in rels), "filter", "alignments(%s)" % (rels,))
    for s, t in m.a:
        case.equal(gp.get_align(Pair(s, t)), m.a[s, t], "get-align", "get_align")
        if one2one:
            case.equal(gp.get_aligned_target_node(s), t, "partner", "target")
            case.equal(gp.get_aligned_source_node(t), s, "partner", "source")
    if len(m.a) > 40:
        case.seen("many_alignments")
    case.log = []
    case.distinct(repr(sorted(m.a)[:20]))


GROUPS = [("history", g_history, 500, 8000), ("enum", g_enum_tier, n_enum(3), n_enum(4)),
          ("file", g_file, 80, 800), ("many", g_many, 6, 60)]
