# -*- coding: utf-8 -*-
"""C09: terminals and yields"""
import itertools, string
import gen
from networkx import NetworkXError
from daeso.graph.daesograph import DaesoGraph

RULE = ("random rooted trees and acyclic and cyclic graphs with integer (0 included), string and tuple nodes, "
        "some with several parents, punctuation-only and token-less terminals; all graphs on 4 nodes "
        "0-3 enumerated by edge set; terminals, non-terminals and yields under all option combinations compared with a recursive "
        "model; non-trivial = graph with an edge")
REQUIRED = ["large", "yield_compared", "shared_child", "node_zero", "punct_dropped", "empty_dropped", "default_root",
            "cycle", "refused_edge", "terminal_as_root", "enumerated_graphs",
            "empty_string"]
ASSUMPTIONS = ["tokens are punctuation when they are single punctuation symbols, as the code documents"]

PUNCT = list(string.punctuation)


class Model(object):
    def __init__(self):
        self.order, self.kids, self.tokens = [], {}, {}

    def empty(self, n):
        return not self.tokens[n]

    def punct(self, n):
        t = self.tokens[n]
        return bool(t) and all(len(x) == 1 and x in PUNCT for x in t)

    def terminal(self, n, p=True, e=True):
        return (not self.kids[n] and (p or not self.punct(n)) and (e or not self.empty(n)))

    def yield_(self, n, p, e):
        out, seen = [], set()

        def walk(x):
            if x in seen:
                return
            seen.add(x)
            if self.terminal(x, p, e):
                out.append(x)
            for k in self.kids[x]:
                walk(k)
        walk(n)
        return out


def verify(case, g, m, root):
    for p, e in ((True, True), (False, True), (True, False), (False, False)):
        kw = dict(with_punct=p, with_empty=e)
        want = [n for n in m.order if m.terminal(n, p, e)]
        case.equal(sorted(g.terminals(**kw), key=repr), sorted(want, key=repr), "terminals", "terminals %s" % kw)
        case.equal(sorted(g.terminals_iter(**kw), key=repr), sorted(want, key=repr), "terminals", "terminals_iter %s" % kw)
        case.equal(len(g.terminals(**kw)), len(want), "terminals", "number of terminals %s" % kw)
        if not p and len(want) < len([n for n in m.order if m.terminal(n, True, e)]):
            case.seen("punct_dropped")
        if not e and len(want) < len([n for n in m.order if m.terminal(n, p, True)]):
            case.seen("empty_dropped")
        for n in m.order:
            case.equal(bool(g.node_is_terminal(n, **kw)), m.terminal(n, p, e), "is-terminal", "node_is_terminal(%r) %s" % (n, kw))
            w = m.yield_(n, p, e)
            case.equal(g.terminal_yield(n, **kw), w, "yield", "terminal_yield(%r) %s" % (n, kw))
            case.equal(g.terminal_yield(n, p, e), w, "yield", "terminal_yield(%r,%s,%s)" % (n, p, e))
            if n == 0:
                case.seen("node_zero")
            if not m.kids[n]:
                case.seen("terminal_as_root")
            case.seen("yield_compared")
        if root is not None:
            case.equal(g.terminal_yield(**kw), m.yield_(root, p, e), "yield", "terminal_yield() %s" % kw)
            case.seen("default_root")
    # by default, everything counts
    want = [n for n in m.order if m.terminal(n)]
    case.equal(sorted(g.terminals(), key=repr), sorted(want, key=repr), "terminals", "terminals()")
    case.equal(sorted(g.terminals_iter(), key=repr), sorted(want, key=repr), "terminals", "terminals_iter()")
    for n in m.order:
        case.equal(bool(g.node_is_terminal(n)), m.terminal(n), "is-terminal", "node_is_terminal(%r)" % (n,))
        case.equal(g.terminal_yield(n), m.yield_(n, True, True), "yield", "terminal_yield(%r)" % (n,))
    nt = [n for n in m.order if m.kids[n]]
    case.equal(sorted(g.non_terminals(), key=repr), sorted(nt, key=repr), "non-terminals", "non_terminals")
    case.equal(sorted(g.non_terminals_iter(), key=repr), sorted(nt, key=repr), "non-terminals", "non_terminals_iter")
    case.equal(len(g.non_terminals()), len(nt), "non-terminals", "number of non_terminals")
    for n in m.order:
        case.equal(bool(g.node_is_non_terminal(n)), bool(m.kids[n]), "is-non-terminal", "node_is_non_terminal(%r)" % (n,))
        case.equal(bool(g.node_is_punct(n)), m.punct(n), "is-punct", "node_is_punct(%r)" % (n,))
        case.equal(bool(g.node_is_empty(n)), m.empty(n), "is-empty", "node_is_empty(%r)" % (n,))


def rtokens(rng):
    k = rng.below(6)
    if k == 0:
        return rng.choice([[], None])
    if k == 1:
        return [rng.choice(PUNCT) for _ in range(rng.int(1, 3))]
    if k == 2:
        return [rng.choice(PUNCT), rng.choice(gen.PLAIN)]
    return [rng.choice(gen.PLAIN + [u"a.", u"U.S.", u"é", u"'s", u"-lijk", u"(on)zin", u".5", u"a-", u"-é-", u"%s", u"–"]) for _ in range(rng.int(1, 3))]


def g_random(case, large=False):
    rng = case.rng
    n = rng.int(1, 14) if not large else rng.int(60, 120)
    pool = range(500) if large else rng.choice([range(0, 20), [u"n%d" % i for i in range(20)], [(i, "x") for i in range(20)],
                       [0, "0", u"é", -1, 1.5] + range(100, 120), range(-9, 12)])
    nodes = rng.sample(pool, n) if rng.chance(60) else list(pool[:n])
    g, m = DaesoGraph(id=u"g", tokens=[u"x"]), Model()
    for x in nodes:
        m.order.append(x)
        m.kids[x] = []
        m.tokens[x] = rtokens(rng)
        k = rng.below(3)
        if k == 0:
            g.add_node(x, u"lab", m.tokens[x])
        elif k == 1:
            g.add_node(x, label=u"lab")
            g.set_node_tokens(x, m.tokens[x])
        else:
            g.add_node(x, u"lab", tokens=None)
            if m.tokens[x]:
                g.set_node_token_string(x, u" ".join(m.tokens[x]))
    shape = rng.choice(["tree", "dag", "dag", "cyclic"])
    edges = []
    for i in range(1, n):
        if rng.chance(92):
            edges.append((nodes[rng.below(i)], nodes[i]))
    if shape != "tree":
        for _ in range(rng.int(1, n)):
            i, j = rng.below(n), rng.below(n)
            if shape == "dag" and i >= j:
                continue
            edges.append((nodes[i], nodes[j]))
            case.seen("shared_child" if shape == "dag" else "cycle")
    rng.shuffle(edges)
    bulk = rng.chance(30)
    if bulk:
        g.add_edges_from(edges, label=u"e")
    for u, v in edges:
        if not bulk:
            g.add_edge(u, v, rng.choice([None, u"hd"]))
        if v not in m.kids[u]:
            m.kids[u].append(v)
    root = nodes[0] if rng.chance(70) else rng.choice(nodes)
    g.root = root
    verify(case, g, m, root)
    # removal and re-addition moves an edge to the end
    for _ in range(rng.int(0, 4)):
        es = [(u, v) for u in m.order for v in m.kids[u]]
        if not es:
            break
        u, v = rng.choice(es)
        g.remove_edge(u, v)
        m.kids[u].remove(v)
        if rng.chance(60):
            g.add_edge(u, v, label=u"again")
            m.kids[u].append(v)
        verify(case, g, m, root)
    # unknown nodes
    for u, v in ((nodes[0], u"unknown"), (u"unknown", nodes[0]), (u"unknown", u"unknown2")):
        case.raises(ValueError, g.add_edge, u, v, kind="edge-accepted", what="add_edge")
        case.raises(ValueError, g.add_edges_from, [(u, v)], kind="edge-accepted", what="add_edges_from")
        case.raises(ValueError, g.add_edges_from, [(u, v, {})], kind="edge-accepted", what="add_edges_from")
        case.seen("refused_edge")
    case.equal(sorted(g.nodes(), key=repr), sorted(nodes, key=repr), "edge-refused-changed", "nodes after refused edges")
    case.raises(NetworkXError, g.add_edge, nodes[0], nodes[0], u"l", "nodict", kind="edge-accepted", what="add_edge")
    case.raises(NetworkXError, g.add_edges_from, [(nodes[0],)], kind="edge-accepted", what="add_edges_from")
    verify(case, g, m, root)
    if any(m.kids.values()):
        case.distinct(repr((nodes, edges, m.tokens)))
    case.sample((nodes, edges))


def g_strings(case):
    rng = case.rng
    g = DaesoGraph(id=u"g")
    case.check(g.get_graph_token_string() is None, "tokens-unset", "token string of a graph without tokens")
    sig = []
    for _ in range(20):
        ws = [rng.choice(gen.WORDS) for _ in range(rng.int(0, 8))]
        s = u" ".join(ws)
        g.set_graph_token_string(s)
        case.equal(g.get_graph_token_string(), s, "graph-string", "graph token string")
        case.equal(g.tokens, ws, "graph-string", "graph tokens")
        n = rng.below(5)
        if n not in g:
            g.add_node(n, u"l")
            case.equal(g.get_node_token_string(n), u"", "node-string", "token string of node without tokens")
            g.set_node_tokens(n, None)
            case.check(g.get_node_token_string(n) is None, "tokens-unset", "token string of a node whose tokens are None: %s", g.get_node_token_string(n))
            g.set_node_tokens(n, [])
            case.equal(list(g.get_node_tokens(n) or []), [], "node-string", "tokens")
        g.set_node_token_string(n, s)
        case.equal(g.get_node_token_string(n), s, "node-string", "node token string")
        case.equal(g.get_node_tokens(n), ws, "node-string", "node tokens")
        case.equal(bool(g.node_is_empty(n)), not ws, "node-string", "node_is_empty after setting %r" % s)
        if not ws:
            case.seen("empty_string")
        ws2 = ws[::-1]
        g.set_node_tokens(n, ws2)
        case.equal(g.get_node_tokens(n), ws2, "node-string", "node tokens")
        case.equal(g.get_node_token_string(n), u" ".join(ws2), "node-string", "node token string")
        sig.append(s)
    case.seen("strings")
    case.distinct(repr(sig))


PAIRS4 = [(a, b) for a in range(4) for b in range(4) if a < b]


def g_enum(case):
    """all acyclic graphs over 0..3, in two orders of adding edges, from node root"""
    root = case.index % 2
    perm = [range(4), [3, 1, 0, 2], [1, 0, 3, 2]][case.index // 2]
    n = 0
    for mask in range(1 << len(PAIRS4)):
        edges = [(perm[a], perm[b]) for i, (a, b) in enumerate(PAIRS4) if mask >> i & 1]
        if mask % 2:
            edges.reverse()
        g, m = DaesoGraph(id=u"e"), Model()
        for x in range(4):
            t = [[u"de", u"kat"], [u"."], [], [u"!", u"x"]][x]
            g.add_node(x, u"l", list(t))
            m.order.append(x)
            m.kids[x], m.tokens[x] = [], t
        for u, v in edges:
            g.add_edge(u, v)
            m.kids[u].append(v)
        g.root = perm[0] if root else 0
        verify(case, g, m, g.root)
        n += 1
    case.seen("enumerated_graphs", n)
    case.distinct(case.index)


def g_large(case):
    g_random(case, True)
    case.seen("large")


def g_deep(case):
    """deeper than the recursion limit, or very broad"""
    if case.index:
        n = 1500
        g = DaesoGraph(id=u"b")
        for i in range(n):
            g.add_node(i, u"l", [u"t%d" % i])
            if i:
                g.add_edge(0, i)
        g.root = 0
        case.equal(g.terminal_yield(), range(1, n), "deep", "yield of broad graph")
        case.equal(sorted(g.terminals()), range(1, n), "deep", "terminals of broad graph")
        case.equal(list(g.non_terminals()), [0], "deep", "non-terminals of broad graph")
        case.distinct("broad")
        return
    n = 3000
    g = DaesoGraph(id=u"d")
    for i in range(n):
        g.add_node(i, u"l", [u"t%d" % i])
    for i in range(n - 2):
        g.add_edge(i, i + 1)
    g.add_edge(0, n - 1)
    g.root = 0
    case.equal(g.terminal_yield(), [n - 2, n - 1], "deep", "yield of deep graph")
    case.equal(g.terminal_yield(n // 2), [n - 2], "deep", "yield of deep graph")
    case.seen("deep")
    case.distinct("deep")


GROUPS = [("random", g_random, 350, 5000), ("strings", g_strings, 60, 500), ("enum", g_enum, 6, 6),
          ("large", g_large, 8, 60), ("deep", g_deep, 2, 2)]
