# -*- coding: utf-8 -*-
"""C07: GraphML banks"""
import os, StringIO
import gen
from daeso.exception import DaesoError
from daeso.gb.graphbank import GraphBank, SparseGraphBank
from daeso.gb.graphml import GraphmlParser
from daeso.graph.daesograph import DaesoGraph

RULE = ("random GraphML documents: keys for graph, node, edge, all and other elements with and without "
        "defaults, data anywhere inside their element, comments, CDATA, entities, namespaces, "
        "descriptions, several encodings, up to 200 kB of text; read whole and for random subsets by parser and "
        "bank, and compared with the generator's model; documents with one defect; "
        "non-trivial = at least one graph")
REQUIRED = ["parsed", "sparse", "default_used", "default_overridden", "data_after_nodes", "refused_label",
            "refused_node_tokens", "refused_graph_tokens", "refused_key", "refused_absent", "all_key",
            "other_key", "two_defaults", "long_text", "nonascii", "no_tokens", "in_pieces", "shared_id", "shared_id_all"]
ASSUMPTIONS = ["documents are valid GraphML, with nodes declared before the edges that use them"]

VALUES = [u"x", u"a b", u"naïef", u"<&>\"'", u"東京", u"1", u"n0", u"  padded ", u"]]", u"a\tb"]


class Key(object):
    def __init__(self, id, for_, name, default=None):
        self.id, self.for_, self.name, self.default = id, for_, name, default


class Doc(object):
    pass


def text(rng, s):
    """XML for text s, in one of several forms"""
    k = rng.below(5)
    if k == 0 and u"]]>" not in s and s and all(ord(c) < 128 for c in s):
        return u"<![CDATA[%s]]>" % s
    if k == 1:
        return u"".join(u"&#%d;" % ord(c) if rng.chance(40) else gen.esc(c) for c in s)
    if k == 2 and len(s) > 1:
        i = rng.int(1, len(s) - 1)
        return gen.esc(s[:i]) + u"<!-- x -->" + gen.esc(s[i:])
    return gen.esc(s)


def words(rng, lo=1, hi=5):
    return u" ".join(rng.choice(gen.WORDS) for _ in range(rng.int(lo, hi)))


def make(case, encoding="utf-8", big=False):
    rng = case.rng
    keys = [Key(u"kt", rng.choice([None, u"all"]), u"tokens")]
    if rng.chance(50):
        # separate keys for the components
        keys = [Key(u"ktg", u"graph", u"tokens"), Key(u"ktn", u"node", u"tokens")]
    k = rng.below(3)
    if k == 0:
        keys.append(Key(u"kl", rng.choice([None, u"all"]), u"label"))
    else:
        keys.append(Key(u"kln", u"node", u"label"))
        keys.append(Key(u"kle", u"edge", u"label"))
    if rng.chance(70):
        keys.append(Key(u"kr", u"graph", u"root"))
    for i in range(rng.int(0, 5)):
        f = rng.choice([u"graph", u"node", u"edge", u"all", None])
        keys.append(Key(u"x%d" % i, f, u"attr%d" % (i if rng.chance(70) else 9),
                        rng.choice([None, u"", u"dflt%d" % i, u"<d & é>"])))
    if rng.chance(25):
        # a general default and one for the component
        keys.append(Key(u"x7", rng.choice([None, u"all"]), u"attr8", u"general"))
        for i, f in enumerate(rng.sample([u"graph", u"node", u"edge"], rng.int(1, 3))):
            keys.append(Key(u"x8%d" % i, f, u"attr8", u"for %s" % f))
        case.seen("two_defaults")
    # distinct names for one component, or the meaning is open
    seen, kk = set(), []
    for key in keys:
        f = key.for_ or u"all"
        if (f, key.name) not in seen:
            seen.add((f, key.name))
            kk.append(key)
    keys = kk
    for key in keys:
        if key.name in (u"tokens", u"label") and rng.chance(25):
            key.default = words(rng, 1, 3) if key.name == u"tokens" else u"deflabel"
    if rng.chance(30):
        keys.append(Key(u"p1", rng.choice([u"port", u"graphml", u"hyperedge", u"endpoint"]), u"portname",
                        rng.choice([None, u"pd"])))
        case.seen("other_key")
    if rng.chance(40) and len(keys) > 1:
        # the same id for keys of different components; the key of the component itself goes first
        for _ in range(rng.int(1, 3)):
            k1, k2 = rng.sample(keys, 2)
            alls = [k.for_ for k in (k1, k2)].count(u"all") + [k.for_ for k in (k1, k2)].count(None)
            if k1.for_ == k2.for_ or alls == 2 or alls and not (k1.id[0] == k2.id[0] == u"x"):
                continue
            if any(k.id in (k1.id, k2.id) and k is not k1 and k is not k2 for k in keys):
                continue
            k1.id = k2.id
            case.seen("shared_id_all" if alls else "shared_id")
    rng.shuffle(keys)
    doc = Doc()
    doc.keys = keys
    doc.graphs = []
    for gi in range(rng.int(1, 5)):
        g = Doc()
        g.id = u"g%d" % (gi + 1) if rng.chance(80) else u"gr&aph %d" % gi
        g.parts = []
        n = rng.int(0, 8)
        g.nodes = [u"n%d" % i for i in range(n)]
        if rng.chance(20):
            g.nodes = [u"%d" % i for i in range(n)]
        rng.shuffle(g.nodes)
        g.data = data(rng, case, keys, u"graph", big)
        if u"root" in g.data and g.nodes:
            g.data[u"root"] = rng.choice(g.nodes)
        g.ndata = dict((x, data(rng, case, keys, u"node", big)) for x in g.nodes)
        g.edges, done = [], set()
        for _ in range(rng.int(0, 2 * n) if n else 0):
            e = rng.choice(g.nodes), rng.choice(g.nodes)
            if e not in done:
                done.add(e)
                g.edges.append(e + (data(rng, case, keys, u"edge", False),))
        doc.graphs.append(g)
    if len(set(g.id for g in doc.graphs)) < len(doc.graphs):
        return make(case, encoding, big)
    doc.xml = render(case, doc, encoding)
    return doc


def default(keys, comp, name):
    d = None
    for f in ((None, u"all"), (comp,)):
        for k in keys:
            if k.for_ in f and k.name == name and k.default is not None:
                d = k.default
    return d


def usable(keys, comp):
    """keys which a component can refer to"""
    own = set(k.id for k in keys if k.for_ == comp)
    return [k for k in keys if k.for_ == comp or k.for_ in (None, u"all") and k.id not in own]


def data(rng, case, keys, comp, big):
    """own values of a component"""
    out = {}
    for k in usable(keys, comp):
        if k.name not in out:
            has_def = default(keys, comp, k.name) is not None
            need = (k.name == u"tokens" and comp in (u"graph", u"node")) or (
                k.name == u"label" and comp == u"node")
            if need and not has_def or rng.chance(50):
                if k.name == u"tokens":
                    out[k.name] = words(rng)
                    if comp == u"node" and rng.chance(10):
                        out[k.name] = u""
                        case.seen("no_tokens")
                    if big and rng.chance(30):
                        out[k.name] = words(rng, 600, 2500)
                        case.seen("long_text")
                elif k.name == u"label":
                    out[k.name] = rng.choice([u"np", u"vp", u"é<&>", u"a b"])
                else:
                    out[k.name] = rng.choice(VALUES + [u""])
                if has_def:
                    case.seen("default_overridden")
    return out


def datael(rng, case, keys, comp, name, value):
    ks = [k for k in usable(keys, comp) if k.name == name]
    # a key of the component itself or one for all
    k = rng.choice(ks)
    if k.for_ in (None, u"all"):
        case.seen("all_key")
    if any(ord(c) > 127 for c in value):
        case.seen("nonascii")
    return u'<data key="%s">%s</data>' % (k.id, text(rng, value))


def junk(rng):
    return rng.weighted([(u"", 6), (u"\n  ", 3), (u"<!-- <node id='c'/> -->", 1),
                         (u"<desc>some &amp; text</desc>", 1), (u"<?pi x?>", 1)])


def render(case, doc, encoding):
    rng = case.rng
    keys = doc.keys
    out = [u'<?xml version="1.0" encoding="%s"?>\n' % encoding]
    if rng.chance(40):
        out.append(u'<graphml xmlns="http://graphml.graphdrawing.org/xmlns" '
                   u'xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" '
                   u'xsi:schemaLocation="http://graphml.graphdrawing.org/xmlns x.xsd">')
    else:
        out.append(u"<graphml>")
    for k in keys:
        out.append(junk(rng))
        f = u' for="%s"' % k.for_ if k.for_ else u""
        t = rng.choice([u' attr.type="string"', u""])
        out.append(u'<key id="%s"%s attr.name="%s"%s>' % (k.id, f, k.name, t))
        if k.default is not None:
            out.append(junk(rng) + u"<default>%s</default>" % text(rng, k.default))
        out.append(u"</key>\n")
    for g in doc.graphs:
        out.append(junk(rng) + u'<graph id="%s" edgedefault="directed">' % gen.esc(g.id))
        items = []
        for n in g.nodes:
            ds = [datael(rng, case, keys, u"node", a, v) for a, v in sorted(g.ndata[n].items())]
            rng.shuffle(ds)
            items.append(u'<node id="%s">%s</node>\n' % (gen.esc(n), u"".join(junk(rng) + d for d in ds)))
        for s, t, d in g.edges:
            ds = [datael(rng, case, keys, u"edge", a, v) for a, v in sorted(d.items())]
            items.append(u'<edge source="%s" target="%s">%s</edge>\n' % (gen.esc(s), gen.esc(t), u"".join(
                junk(rng) + x for x in ds)))
        for a, v in sorted(g.data.items()):
            i = rng.int(0, len(items))
            if i and items:
                case.seen("data_after_nodes")
            items.insert(i, datael(rng, case, keys, u"graph", a, v))
        out.append(u"".join(junk(rng) + x for x in items) + u"</graph>\n")
    out.append(junk(rng) + u"</graphml>\n")
    return u"".join(out).encode(encoding, "xmlcharrefreplace")


def values(case, doc, comp, own):
    """all values of a component, defaults included"""
    out = {}
    for k in doc.keys:
        if k.for_ in (None, u"all", comp):
            d = default(doc.keys, comp, k.name)
            if d is not None:
                out[k.name] = d
    for k in out:
        if k not in own:
            case.seen("default_used")
    out.update(own)
    return out


def verify(case, g, gm, doc, what):
    case.check(isinstance(g, DaesoGraph), "not-graph", what + ": %s", g)
    case.equal(g.id, gm.id, "graph-id", what)
    v = values(case, doc, u"graph", gm.data)
    what = what + " graph %s " % gm.id
    case.equal(g.tokens, v.pop(u"tokens").split(), "graph-tokens", what + "tokens")
    case.equal(g.root, v.get(u"root"), "graph-root", what + "root")
    got = dict(g.graph)
    if not got.get("name"):
        got.pop("name", None)
    case.equal(got, v, "graph-attributes", what + "attributes")
    case.equal(sorted(g.nodes()), sorted(gm.nodes), "nodes", what + "nodes")
    for n in gm.nodes:
        v = values(case, doc, u"node", gm.ndata[n])
        v[u"tokens"] = v[u"tokens"].split()
        case.equal(dict(g.node[n]), v, "node-attributes", what + "node %s" % n)
    # edges in document order per source node; sources in order of the nodes
    want = [(s, t) for n in gm.nodes for s, t, _ in gm.edges if s == n]
    case.equal(g.edges(), want, "edges", what + "edges")
    for s, t, d in gm.edges:
        v = dict(values(case, doc, u"edge", d))
        v.setdefault(u"label", None)
        case.equal(dict(g[s][t]), v, "edge-attributes", what + "edge %s-%s" % (s, t))
    for n in gm.nodes:
        case.equal(list(g.predecessors(n)), [s for s, t, _ in gm.edges if t == n], "predecessors", what + n)
    case.seen("graphs_compared")


def verify_all(case, table, doc, wanted, what):
    case.equal(sorted(table), sorted(wanted), "graph-ids", what + ": graphs read")
    for g in doc.graphs:
        if g.id in wanted:
            verify(case, table[g.id], g, doc, what)


def chunks(case, p, xml, table, sparse=False):
    """parse in one or more pieces; gives the table"""
    rng = case.rng
    cuts = sorted(rng.below(len(xml) + 1) for _ in range(rng.weighted([(0, 2), (1, 2), (4, 1)])))
    t = table
    for i, j in zip([0] + cuts, cuts + [len(xml)]):
        t = p.parse_string(xml[i:j], t, sparse) if sparse or rng.chance(50) else p.parse_string(xml[i:j], t)
    p.close()
    if cuts:
        case.seen("in_pieces")
    return t


def g_parse(case, big=False):
    rng = case.rng
    enc = rng.weighted([("utf-8", 6), ("iso-8859-1", 1), ("utf-16", 1), ("us-ascii", 1)])
    doc = make(case, enc, big)
    ids = [g.id for g in doc.graphs]
    path = os.path.join(case.scratch, "b.xml")
    gen.put(path, doc.xml)
    for how in range(5):
        if how == 0:
            t = GraphmlParser().parse_file(path)
        elif how == 1:
            f = open(path, "rb")
            t = {}
            r = GraphmlParser().parse_file(f, t)
            f.close()
            case.check(r is t, "table", "parser does not return the table given")
        elif how == 2:
            gb = GraphBank(path, rng.choice(["graphml", "GraphML", "GRAPHML"]))
            case.equal(len(gb), 0, "lazy", "bank before load")
            gb.load()
            case.equal(len(gb), len(ids), "bank-length", "len(bank)")
            case.equal(sorted(g.id for g in gb), sorted(ids), "graph-ids", "iteration")
            t = dict((i, gb.get_graph(i)) for i in ids)
            case.raises(KeyError, gb.get_graph, u"absent", kind="absent-graph", what="get_graph")
        elif how == 3 and enc != "utf-16":
            p = GraphmlParser()
            given = rng.choice([None, {}])
            t = chunks(case, p, doc.xml, given)
            case.check(given is None or t is given, "table", "parser does not fill the table given")
        elif how == 4:
            t = GraphmlParser().parse_file(StringIO.StringIO(doc.xml), None)
        else:
            continue
        verify_all(case, t, doc, ids, "way %d" % how)
        case.seen("parsed")
    # subsets
    for _ in range(3):
        wanted = rng.sample(ids, rng.int(0, len(ids)))
        how = rng.below(3)
        if how == 0:
            gb = SparseGraphBank(path, "graphml")
            from daeso.pair import Pair
            from daeso.pgc.graphpair import GraphPair
            clients = []
            stubs = [gb.get_graph_stub(i) for i in wanted]
            dummy = gb.get_graph_stub(wanted[0]) if wanted else None
            for s in stubs:
                # the other side is a stub of a bank which is not loaded
                other = SparseGraphBank(path + "-absent", "graphml")
                side = rng.below(2)
                c = GraphPair(Pair(*[(gb, other), (other, gb)][side]),
                              Pair(*[(s, other.get_graph_stub("x")), (other.get_graph_stub("x"), s)][side]))
                c.side = side
                s.add_client(c)
                clients.append(c)
            gb.load()
            for c, i in zip(clients, wanted):
                case.check(list(c.get_graphs())[c.side] is gb.get_graph(i), "stub", "client has another graph")
            t = dict((g.id, g) for g in [list(c.get_graphs())[c.side] for c in clients])
        elif how == 1 or enc == "utf-16":
            t = dict.fromkeys(wanted)
            GraphmlParser().parse_file(path, t, sparse=True)
        else:
            t = dict.fromkeys(wanted)
            chunks(case, GraphmlParser(), doc.xml, t, True)
        verify_all(case, t, doc, wanted, "subset, way %d" % how)
        case.seen("sparse")
    case.distinct(repr([(g.id, g.data, sorted(g.ndata.items()), g.edges) for g in doc.graphs][:3]))
    case.sample(doc.xml[:500])


def g_big(case):
    g_parse(case, True)


def g_defects(case):
    rng = case.rng
    while True:
        doc = make(case)
        gs = [g for g in doc.graphs if g.nodes]
        if gs:
            break
    g = rng.choice(gs)
    n = rng.choice(g.nodes)
    keys = doc.keys
    kind = case.index % 5
    path = os.path.join(case.scratch, "b.xml")
    if kind in (0, 1, 2):
        comp, name, table = [(u"node", u"label", g.ndata[n]), (u"node", u"tokens", g.ndata[n]),
                             (u"graph", u"tokens", g.data)][kind]
        for k in keys:
            if k.name == name:
                k.default = None
        # everything else keeps its own value
        for h in doc.graphs:
            h.data.setdefault(u"tokens", u"t")
            for d in h.ndata.values():
                d.setdefault(u"tokens", u"t")
                d.setdefault(u"label", u"l")
        table.pop(name)
        xml = render(case, doc, "utf-8")
        seen = ["refused_label", "refused_node_tokens", "refused_graph_tokens"][kind]
    elif kind == 3:
        xml = doc.xml
        where = rng.choice([u"<node id=", u"</graph>"] + ([u"</edge>"] if g.edges else []))
        parts = xml.decode("utf-8").split(u"</node>")
        i = rng.below(len(parts) - 1)
        parts[i] += u'<data key="nokey">x</data>'
        xml = u"</node>".join(parts).encode("utf-8")
        g = None
        seen = "refused_key"
    else:
        ids = [h.id for h in doc.graphs]
        gen.put(path, doc.xml)
        wanted = rng.sample(ids, rng.int(0, len(ids))) + [u"absent"]
        case.raises(DaesoError, GraphmlParser().parse_file, path, dict.fromkeys(wanted), True,
                    kind="absent-accepted", what="sparse parse_file")
        p = GraphmlParser()
        p.parse_string(doc.xml, dict.fromkeys(wanted), True)
        case.raises(DaesoError, p.close, kind="absent-accepted", what="sparse parse_string and close")
        case.seen("refused_absent")
        case.distinct(repr((kind, wanted)))
        return
    gen.put(path, xml)
    case.raises(DaesoError, GraphmlParser().parse_file, path, kind="defect-accepted", what="parse_file defect %d" % kind)
    case.raises(DaesoError, GraphBank(path, "graphml").load, kind="defect-accepted", what="load")
    case.seen(seen)
    case.distinct(repr((kind, n)) + xml[:2000])


GROUPS = [("parse", g_parse, 200, 3000), ("big", g_big, 6, 60), ("defects", g_defects, 100, 1000)]
