# -*- coding: utf-8 -*-
"""C08: ordered digraph"""
import copy, itertools
import networkx
from networkx import NetworkXError
from daeso.graph.ograph import ODiGraph
from daeso.graph.daesograph import DaesoGraph

RULE = ("random histories of node and edge additions and removals (single and bulk, with attributes, illegal "
        "arguments included) on an ordered digraph, on a plain networkx digraph and on an ordered model; all "
        "queries compared after every operation; every history of 4 (thorough 5) operations from a small set "
        "enumerated; construction from all kinds of data; non-trivial = history with a removal")
REQUIRED = ["large", "removed_node", "removed_edge", "readded", "illegal_same", "attributes_updated", "bulk",
            "from_data", "self_loop", "cleared", "enumerated_histories", "labelled", "labelled_bulk"]
ASSUMPTIONS = ["networkx' DiGraph is a correct digraph"]

NODES = [0, 1, u"a", "b", (1, 2), -7, u"zz", 10 ** 12, u"A", u"a ", u"1", u"section_heading_a", u"section_heading_b", u"\u00e9"]


class Order(object):
    """insertion order of everything"""
    def __init__(self):
        self.nodes, self.succ, self.pred = [], {}, {}

    def add_node(self, n):
        if n not in self.nodes:
            self.nodes.append(n)
            self.succ[n], self.pred[n] = [], []

    def add_edge(self, u, v):
        self.add_node(u)
        self.add_node(v)
        if v not in self.succ[u]:
            self.succ[u].append(v)
            self.pred[v].append(u)

    def sync(self, d):
        """removals and partly done operations: follow the plain digraph"""
        for u in list(self.nodes):
            for v in list(self.succ[u]):
                if not d.has_edge(u, v):
                    self.succ[u].remove(v)
                    self.pred[v].remove(u)
        for n in list(self.nodes):
            if n not in d:
                self.nodes.remove(n)
                del self.succ[n], self.pred[n]


def verify(case, g, d, o, nodes, cls=ODiGraph):
    case.equal(sorted(g.nodes(), key=repr), sorted(o.nodes, key=repr), "nodes", "nodes()")
    case.equal(sorted(d.nodes(), key=repr), sorted(o.nodes, key=repr), "model", "model nodes")
    case.equal(list(g.adj), o.nodes, "node-order", "keys of adj")
    case.equal(list(g.pred), o.nodes, "node-order", "keys of pred")
    case.equal(dict(g.nodes(data=True)), dict(d.nodes(data=True)), "node-attributes", "nodes(data)")
    case.equal(len(g), len(o.nodes), "length", "len")
    edges = [(u, v) for u in o.nodes for v in o.succ[u]]
    case.equal(g.edges(), edges, "edge-order", "edges()")
    case.equal(g.number_of_edges(), len(edges), "edge-count", "number_of_edges")
    case.equal([(u, v) for u, v, _ in g.edges(data=True)], edges, "edge-order", "edges(data)")
    inn = [(u, v) for v in o.nodes for u in o.pred[v]]
    case.equal(g.in_edges(), inn, "edge-order", "in_edges()")
    for u, v, data in g.edges(data=True):
        case.equal(data, d[u][v], "edge-attributes", "edge %r-%r" % (u, v))
        case.check(g.succ[u][v] is g.pred[v][u] and g.adj[u][v] is g.succ[u][v] and g[u][v] is data,
                   "edge-data-shared", "views of edge %s-%s have different data", u, v)
    for n in o.nodes:
        case.equal(list(g.successors(n)), o.succ[n], "succ-order", "successors(%r)" % (n,))
        case.equal(list(g.predecessors(n)), o.pred[n], "pred-order", "predecessors(%r)" % (n,))
        case.equal(list(g[n]), o.succ[n], "succ-order", "graph[%r]" % (n,))
        case.equal(list(g.neighbors(n)), o.succ[n], "succ-order", "neighbors(%r)" % (n,))
        case.equal((g.in_degree(n), g.out_degree(n)), (len(o.pred[n]), len(o.succ[n])), "degree", "degree")
    for u in nodes:
        case.equal(g.has_node(u), u in o.nodes, "has-node", "has_node")
        for v in nodes:
            case.equal(bool(g.has_edge(u, v)), u in o.nodes and v in o.succ[u], "has-edge", "has_edge")
    # storage
    stores = [id(g.node[n]) for n in o.nodes] + [id(g[u][v]) for u, v in edges]
    case.check(len(set(stores)) == len(stores), "shared-storage", "two nodes or edges share a dictionary")
    case.check(type(g) is cls, "type", "%s", type(g))


def rattr(rng):
    return dict((rng.choice(["w", "label", "x"]), rng.int(0, 9)) for _ in range(rng.int(0, 2)))


def ebunch(rng, nodes, bad=True):
    out = []
    for _ in range(rng.int(0, 5)):
        e = (rng.choice(nodes), rng.choice(nodes))
        if rng.chance(30):
            e += (rattr(rng),)
        out.append(e)
    if bad and rng.chance(15):
        out.insert(rng.int(0, len(out)), rng.choice([(1,), (1, 2, {}, 4), ()]))
    return out


def same(case, what, f, g, d):
    """the same call on both; errors must be alike"""
    res = []
    for x in (d, g):
        try:
            f(x)
            res.append(None)
        except Exception, e:
            res.append(e)
    a, b = res
    if a is None and b is not None:
        raise b
    if a is not None:
        case.check(b is not None, "no-error", what + " is accepted, plain digraph raises %s", a)
        case.check(type(a) is type(b), "error-type", what + " raises %s, plain digraph %s", b, a)
        case.seen("illegal_same")
    return a is None


def step(case, g, d, o, nodes):
    rng = case.rng
    op = rng.weighted([("add_node", 4), ("add_nodes", 2), ("add_edge", 8), ("add_edges", 3), ("del_node", 2),
                       ("del_nodes", 1), ("del_edge", 3), ("del_edges", 1), ("clear", 1 if rng.chance(20) else 0),
                       ("bad", 1), ("path", 1), ("star", 1)])
    case.note(op)
    was = set(o.nodes)
    if op == "add_node":
        n, kw = rng.choice(nodes), rattr(rng)
        ad = rattr(rng) if rng.chance(30) else None
        if n in was and (kw or ad):
            case.seen("attributes_updated")
        same(case, op, lambda x: x.add_node(n, None if ad is None else dict(ad), **kw), g, d)
        o.add_node(n)
    elif op == "add_nodes":
        ns, kw = [rng.choice(nodes) for _ in range(rng.int(0, 4))], rattr(rng)
        kind = rng.below(3)
        same(case, op, lambda x: x.add_nodes_from([ns, tuple(ns), iter(list(ns))][kind] if kind < 2 else iter(list(ns)), **kw), g, d)
        for n in ns:
            o.add_node(n)
        case.seen("bulk")
    elif op == "add_edge":
        u, v, kw = rng.choice(nodes), rng.choice(nodes), rattr(rng)
        ad = rattr(rng) if rng.chance(30) else None
        if u == v:
            case.seen("self_loop")
        same(case, op, lambda x: x.add_edge(u, v, None if ad is None else dict(ad), **kw), g, d)
        o.add_edge(u, v)
    elif op == "add_edges":
        eb, kw = ebunch(rng, nodes), rattr(rng)
        ad = rattr(rng) if rng.chance(30) else None
        same(case, op, lambda x: x.add_edges_from(list(eb), None if ad is None else dict(ad), **kw), g, d)
        for e in eb:
            if len(e) not in (2, 3):
                break
            o.add_edge(*e[:2])
        case.seen("bulk")
    elif op == "del_node":
        n = rng.choice(nodes)
        if same(case, op, lambda x: x.remove_node(n), g, d):
            case.seen("removed_node")
        o.sync(d)
    elif op == "del_nodes":
        ns = [rng.choice(nodes) for _ in range(rng.int(0, 3))]
        same(case, op, lambda x: x.remove_nodes_from(ns), g, d)
        o.sync(d)
    elif op == "del_edge":
        es = [(u, v) for u in o.nodes for v in o.succ[u]]
        e = rng.choice(es) if es and rng.chance(75) else (rng.choice(nodes), rng.choice(nodes))
        if same(case, op, lambda x: x.remove_edge(*e), g, d):
            case.seen("removed_edge")
        o.sync(d)
    elif op == "del_edges":
        eb = ebunch(rng, nodes, False)
        same(case, op, lambda x: x.remove_edges_from(eb), g, d)
        o.sync(d)
    elif op == "clear":
        g.clear()
        d.clear()
        o.__init__()
        case.seen("cleared")
    elif op == "bad":
        k = rng.below(4)
        u, v = rng.choice(nodes), rng.choice(nodes)
        f = [lambda x: x.add_node(u, "no dict", a=1), lambda x: x.add_edge(u, v, 12, a=1),
             lambda x: x.add_edges_from([(u, v)], [1], a=2),
             lambda x: x.add_edge([1], 2)][k]
        same(case, "bad %d" % k, f, g, d)
        o.sync(d)
        for n in d.nodes():
            case.check(n in o.nodes, "illegal-added", "node %s added by a refused call", n)
    elif op in ("path", "star"):
        ns = rng.sample(nodes, rng.int(0, 4))
        if op == "path":
            g.add_path(ns)
            d.add_path(ns)
            es = zip(ns[:-1], ns[1:])
        else:
            if not ns:
                return op
            g.add_star(ns)
            d.add_star(ns)
            es = [(ns[0], n) for n in ns[1:]]
        for e in es:
            o.add_edge(*e)
        if len(ns) == 1:
            if ns[0] in d:
                o.add_node(ns[0])
    return op


def g_history(case):
    rng = case.rng
    nodes = rng.sample(NODES, rng.int(2, len(NODES)))
    g, d, o = ODiGraph(), networkx.DiGraph(), Order()
    ops, ever = [], set()
    large = rng.chance(4)
    if large:
        case.seen("large")
        nodes += rng.shuffle([u"m%d" % i for i in range(40)])
        for n in nodes:
            for x in (g, d, o):
                x.add_node(n)
        for n in nodes[:2]:
            for k in nodes[2:]:
                for u, v in ((n, k), (k, n)):
                    for x in (g, d, o):
                        x.add_edge(u, v)
    for _ in range(rng.int(3, 40) if not large else 6):
        before = set(o.nodes)
        ops.append(step(case, g, d, o, nodes))
        if (set(o.nodes) - before) & ever:
            case.seen("readded")
        ever |= set(o.nodes)
        verify(case, g, d, o, nodes)
    if any(x.startswith("del") for x in ops):
        case.distinct(repr((nodes, ops, g.edges())))
    # copies are independent and alike
    h = copy.deepcopy(g) if rng.chance(50) else g.copy()
    verify(case, h, d, o, nodes)
    step(case, h, d.copy(), copy.deepcopy(o), nodes)
    case.log = case.log[-25:]
    verify(case, g, d, o, nodes)
    case.sample(ops)


OPS = ([("an", n) for n in (0, 1)] + [("ae", u, v) for u in (0, 1, 2) for v in (0, 1, 2) if (u + v) % 2 or u == v == 1]
       + [("dn", n) for n in (0, 1)] + [("de", 0, 1), ("de", 1, 0), ("de", 1, 1)])


def g_enum(case):
    first = OPS[case.index]
    n = 0
    for rest in itertools.product(OPS, repeat=3 if case.tier == "quick" else 4):
        g, d, o = ODiGraph(), networkx.DiGraph(), Order()
        for op in (first,) + rest:
            try:
                if op[0] == "an":
                    o.add_node(op[1])
                    d.add_node(op[1])
                    g.add_node(op[1])
                elif op[0] == "ae":
                    o.add_edge(op[1], op[2])
                    d.add_edge(op[1], op[2])
                    g.add_edge(op[1], op[2])
                elif op[0] == "dn":
                    if op[1] in d:
                        g.remove_node(op[1])
                        d.remove_node(op[1])
                    else:
                        case.raises(NetworkXError, g.remove_node, op[1], kind="no-error")
                elif d.has_edge(op[1], op[2]):
                    g.remove_edge(op[1], op[2])
                    d.remove_edge(op[1], op[2])
                else:
                    case.raises(NetworkXError, g.remove_edge, op[1], op[2], kind="no-error")
                if op[0][0] == "d":
                    o.sync(d)
            except NetworkXError, e:
                case.fail("exc", "%s: %s" % (((first,) + rest,), e))
        got = (list(g.adj), [list(g.succ[x]) for x in g.adj], [list(g.pred[x]) for x in g.adj], list(g.pred))
        want = (o.nodes, [o.succ[x] for x in o.nodes], [o.pred[x] for x in o.nodes], o.nodes)
        if got != want:
            case.fail("order", "%r: got %r, expected %r" % ((first,) + rest, got, want))
        n += 1
    case.seen("enumerated_histories", n)
    case.distinct(repr(first))


def g_data(case):
    """construction from data"""
    rng = case.rng
    nodes = rng.sample(NODES, rng.int(2, 6))
    edges = [(rng.choice(nodes), rng.choice(nodes)) for _ in range(rng.int(0, 8))]
    kind = case.index % 8
    mk = None
    ordered = False
    if kind == 0:
        mk, ordered = (lambda: list(edges)), True
    elif kind == 1:
        es = [e + (dict(w=i),) for i, e in enumerate(edges)]
        mk, ordered = (lambda: [(u, v, dict(x)) for u, v, x in es]), True
    elif kind == 2:
        src = networkx.DiGraph(edges, name='orig', extra=1)
        src.add_node(u"lonely", x=1)
        mk = lambda: src
    elif kind == 3:
        src = networkx.Graph(edges)
        mk = lambda: src
    elif kind == 4:
        src = ODiGraph()
        for i, e in enumerate(edges):
            src.add_edge(*e, w=i)
        src.add_node(nodes[0], y=2)
        mk = lambda: src
    elif kind == 5:
        dl = dict((u, [v for a, v in edges if a == u]) for u in nodes)
        mk = lambda: dl
    elif kind == 6:
        dd = dict((u, dict((v, {"w": 1}) for a, v in edges if a == u)) for u in nodes)
        mk = lambda: dd
    else:
        bad = rng.choice([1, 12.5, object(), [(1,)], [1, 2], "x"])
        mk = lambda: bad
    kw = rng.choice([{}, dict(day="Friday"), dict(a=1, b=2)])
    name = rng.choice([None, "nm"])
    if name:
        kw = dict(kw, name=name)
    res = []
    for cls in (networkx.DiGraph, ODiGraph):
        try:
            res.append(cls(mk(), **kw))
        except Exception, e:
            res.append(e)
    d, g = res
    if isinstance(d, Exception):
        case.check(type(g) is type(d), "error-type", "from data %s: %s, plain digraph raises %s", mk(), g, d)
        case.seen("illegal_same")
    else:
        if isinstance(g, Exception):
            raise g
        case.equal(sorted(g.nodes(data=True), key=repr), sorted(d.nodes(data=True), key=repr), "data-nodes", "nodes from data kind %d" % kind)
        case.equal(sorted(g.edges(data=True), key=repr), sorted(d.edges(data=True), key=repr), "data-edges", "edges from data kind %d" % kind)
        case.equal(g.graph, d.graph, "data-graph", "graph attributes from data kind %d" % kind)
        case.equal(g.name, d.name, "data-name", "name")
        for u, v, x in g.edges(data=True):
            case.check(g.succ[u][v] is g.pred[v][u], "edge-data-shared", "from data")
        if kind in (2, 4):
            # independent of its origin
            g.add_edge(u"new", u"new2", z=1)
            for n in g.nodes():
                g.node[n]["mark"] = 1
            for u, v, x in g.edges(data=True):
                x["mark"] = 1
            case.check(u"new" not in src and not any("mark" in a for _, a in src.nodes(data=True)) and
                       not any("mark" in a for _, _, a in src.edges(data=True)),
                       "data-shared", "graph built from a graph shares its data")
        if ordered:
            o = Order()
            for e in edges:
                o.add_edge(*e)
            g2 = ODiGraph(mk())
            case.equal(g2.edges(), [(u, v) for u in o.nodes for v in o.succ[u]], "data-order", "edges of graph from list")
        case.seen("from_data")
    case.distinct(repr((kind, edges, kw)))


def g_labelled(case):
    """the graphs of banks, whose nodes and edges have labels"""
    rng = case.rng
    nodes = rng.sample(NODES, rng.int(2, len(NODES)))
    g, d, o = DaesoGraph(id=u"g"), networkx.DiGraph(), Order()
    ops = []
    for _ in range(rng.int(3, 25)):
        op = rng.weighted([("add_node", 6), ("add_edge", 8), ("add_edges", 4), ("del_node", 1), ("del_edge", 2), ("unknown", 1)])
        case.note(op)
        ops.append(op)
        ad = rattr(rng) if rng.chance(40) else None
        kw = dict((k, v) for k, v in rattr(rng).items() if k != "label")
        label = rng.choice([None, u"hd", u"su", u""])
        every = dict(ad or {})
        every.update(kw)
        if op == "add_node":
            n, toks = rng.choice(nodes), rng.choice([None, [u"a"], [u"b", u"c"]])
            every.update(label=label, tokens=toks or [])
            given = {"attr_dict": ad} if ad is not None else {}
            if toks is None and rng.chance(50):
                g.add_node(n, label, **dict(given, **kw))
            else:
                g.add_node(n, label, toks, **dict(given, **kw))
            d.add_node(n, dict(every))
            o.add_node(n)
        elif op in ("add_edge", "add_edges") and o.nodes:
            every["label"] = label
            if op == "add_edge":
                u, v = rng.choice(o.nodes), rng.choice(o.nodes)
                form = rng.below(3)
                if form == 0:
                    g.add_edge(u, v, label, None if ad is None else dict(ad), **kw)
                elif form == 1:
                    g.add_edge(u, v, label=label, attr_dict=None if ad is None else dict(ad), **kw)
                else:
                    every = dict(kw, label=None)
                    g.add_edge(u, v, **kw)
                d.add_edge(u, v, dict(every))
                o.add_edge(u, v)
            else:
                eb = ebunch(rng, o.nodes, False)
                g.add_edges_from(list(eb), label, None if ad is None else dict(ad), **kw)
                d.add_edges_from(eb, dict(every))
                for e in eb:
                    o.add_edge(*e[:2])
                case.seen("labelled_bulk")
        elif op == "del_node" and o.nodes:
            n = rng.choice(o.nodes)
            g.remove_node(n)
            d.remove_node(n)
            o.sync(d)
        elif op == "del_edge":
            es = [(u, v) for u in o.nodes for v in o.succ[u]]
            if es:
                e = rng.choice(es)
                g.remove_edge(*e)
                d.remove_edge(*e)
                o.sync(d)
        elif op == "unknown":
            n = rng.choice(nodes)
            names = [u"unknown", unicode(n) + u"\xe9", unicode(n).upper(), unicode(n) + u" ", u"0" + unicode(n), u"", None, unicode(n) * 9]
            x = rng.choice([x for x in names if x not in o.nodes])
            case.raises(ValueError, g.add_edge, n, x, kind="unknown-node", what="edge to an unknown node")
            case.raises(ValueError, g.add_edges_from, [(x, n)], kind="unknown-node", what="edge from an unknown node")
        verify(case, g, d, o, nodes + [u"unknown"], DaesoGraph)
    verify(case, copy.deepcopy(g), d, o, nodes, DaesoGraph)
    if len(o.nodes) > 1:
        case.seen("labelled")
        case.distinct(repr((nodes, ops, g.edges())))


GROUPS = [("history", g_history, 350, 5000), ("enum", g_enum, lambda: len(OPS), lambda: len(OPS)),
          ("data", g_data, 200, 2000), ("labelled", g_labelled, 200, 3000)]
