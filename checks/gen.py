# -*- coding: utf-8 -*-
"""Workload generators and reference readers shared by the corpus checks.

The reference reader of XML is Java's DOM parser, not the ElementTree code
that the framework uses.
"""
import os
import sys
import xml.etree.cElementTree as et

from javax.xml.parsers import DocumentBuilderFactory
from java.io import File, ByteArrayInputStream
from org.xml.sax import InputSource
from java.io import StringReader

class Tap(object):
    """stands in for sys.stdout / sys.stderr so that also output through default
    arguments bound at import time can be observed; import gen before daeso"""
    encoding = None

    def __init__(self):
        self.buf = []

    def write(self, text):
        self.buf.append(text)

    def flush(self):
        pass

    def take(self):
        b, self.buf = self.buf, []
        return "".join(x.encode("utf-8") if isinstance(x, unicode) else x for x in b)


TAP, ERR = Tap(), Tap()
sys.stdout = TAP


def run_script(name, args, cwd=None):
    """run a script of the framework as a user would; returns (exit status,
    standard output, standard error)"""
    old = sys.argv, sys.stdout, sys.stderr, os.getcwd()
    script = "/repo/bin/" + name
    TAP.take()
    ERR.take()
    sys.argv = [script] + list(args)
    sys.stdout, sys.stderr = TAP, ERR
    code = 0
    try:
        if cwd:
            os.chdir(cwd)
        try:
            execfile(script, {"__name__": "__main__", "__file__": script})
        except SystemExit, e:
            code = 0 if e.code is None else e.code
    finally:
        sys.argv, sys.stdout, sys.stderr = old[:3]
        os.chdir(old[3])
    return code, TAP.take(), ERR.take()


from otherformat import fmt, OtherGraph

RELS = ["equals", "generalizes", "intersects", "restates", "specifies"]

# sets of relations with names that begin, contain or resemble one another
ODD_RELS = [[u"eq", u"eq2", u"equals"], [u"a", u"ab", u"abc", u"b"], [u"Equals", u"equals", u"EQUALS"],
            [u"is een", u"is", u"een"], [u"gelijk\xe9", u"gelijke", u"a&b", u"<rel>"], [u"x"],
            [u"specifies", u"generalizes", u"other"], [u"1", u"2", u"10"],
            [u"een verband met een lange naam A", u"een verband met een lange naam B", u"een verband"]]


def rrels(rng, odd=25):
    """relation set of a corpus: mostly the usual one"""
    if rng.chance(odd / 3):
        # names made of anything, each without blanks around it
        chars = u"ab1#:;,/|()[]{}=+*%~`.-_!?@$^\\'\"&<>\xe9 "
        names = set()
        for _ in range(rng.int(1, 5)):
            name = u"".join(rng.choice(chars) for _ in range(rng.int(1, 6))).strip()
            if name:
                names.add(u" ".join(name.split()))
        if names:
            return sorted(names)
    if rng.chance(odd):
        return list(rng.choice(ODD_RELS))
    return list(RELS)


WORDS = (u"de kat zit op mat vandaag premier Balkenende zegt dat het regent "
         u"a b c 12 ? ! . , kater dek Kat naïeve Zoë €uro 東京 <b> & \"q\" 'x'").split()
PLAIN = u"de kat zit op mat vandaag premier zegt dat het regent a b c 12 kater dek Kat".split()
PUNCT = list(u".,?!:;()\"'-&<>")


# ---------------------------------------------------------------- XML reading

class Node(object):
    """element read by the reference XML reader"""
    def __init__(self, tag, attrib, text, tail, kids):
        self.tag, self.attrib, self.text = tag, attrib, text
        self.tail, self.kids = tail, kids

    def find(self, tag):
        for k in self.kids:
            if k.tag == tag:
                return k

    def all(self, tag):
        return [k for k in self.kids if k.tag == tag]


def _conv(el):
    attrib = {}
    at = el.getAttributes()
    for i in range(at.getLength()):
        a = at.item(i)
        attrib[a.getName()] = a.getValue()
    text, kids = u"", []
    ch = el.getChildNodes()
    for i in range(ch.getLength()):
        c = ch.item(i)
        t = c.getNodeType()
        if t == 1:
            kids.append(_conv(c))
        elif t in (3, 4):
            if kids:
                kids[-1].tail += c.getNodeValue()
            else:
                text += c.getNodeValue()
    return Node(el.getTagName(), attrib, text, u"", kids)


def dom_file(path):
    b = DocumentBuilderFactory.newInstance().newDocumentBuilder()
    b.setErrorHandler(None)
    return _conv(b.parse(File(path)).getDocumentElement())


def dom_bytes(data):
    b = DocumentBuilderFactory.newInstance().newDocumentBuilder()
    b.setErrorHandler(None)
    from java.lang import String
    raw = String(data, "ISO-8859-1").getBytes("ISO-8859-1")
    return _conv(b.parse(ByteArrayInputStream(raw)).getDocumentElement())


# encodings to write in, the first one being the default
ENCODINGS = ["utf-8", "utf-8", "iso-8859-1", "us-ascii", "windows-1252", "iso-8859-15", "UTF-8"]


def check_encoded(case, data, encoding):
    """XML data that says it is in an encoding is in that encoding"""
    case.check(data.startswith('<?xml version="1.0" encoding="%s"?>' % encoding), "header", "file in %s starts with %r", encoding, data[:60])
    case.equal(data.count("<?xml"), 1, "header", "headers")
    if encoding == "us-ascii":
        case.check(all(ord(c) < 128 for c in data), "encoding", "written in %s: %r", encoding, [c for c in data if ord(c) > 127][:5])
    if encoding.lower() != "utf-8":
        case.seen("other_encoding")


def _s(t):
    return (t or u"").strip()


def canon(el, top=True):
    """canonical form of an element (et.Element or Node), blank-insensitive"""
    kids = el.kids if isinstance(el, Node) else list(el)
    return (el.tag, tuple(sorted(el.attrib.items())), _s(el.text),
            u"" if top else _s(el.tail), tuple(canon(k, False) for k in kids))


EMPTY_GMD = ("graph_meta_data", (), u"", u"", ())


# ------------------------------------------------------------ random elements

def rtext(rng, maxw=5):
    return u" ".join(rng.choice(WORDS) for _ in range(rng.int(1, maxw)))


TAGS = ["annotator", "comment", "p", "x-y", "date", "history"]
# names which mean something outside meta-data
TRAP_TAGS = ["relation", "file", "graph_pair", "node_pair", "graphbanks",
             "node_relations", "aligned_graphs", "aligned_nodes",
             "parallel_graph_corpus", "graph_meta_data", "corpus_meta_data"]


def relem(rng, tag, depth=0, traps=False):
    e = et.Element(tag)
    for _ in range(rng.weighted([(0, 5), (1, 3), (2, 1)])):
        e.set(rng.choice(["n", "id", "val", "lang", "from_bank_id", "format"]),
              rng.choice([u"1", u"x y", u"naïef", u"<&>\"'", u""]))
    if rng.chance(70):
        e.text = rtext(rng)
    if depth < 3:
        for _ in range(rng.weighted([(0, 4), (1, 3), (2, 2), (3, 1)])):
            t = rng.choice(TRAP_TAGS if traps and rng.chance(40) else TAGS)
            k = relem(rng, t, depth + 1, traps)
            if rng.chance(15):
                k.tail = rtext(rng, 2)
            e.append(k)
    return e


def rmeta(rng, tag, traps=False):
    """user meta-data: none, leaf with only text/attributes, or a tree"""
    kind = rng.weighted([("none", 3), ("leaf", 3), ("empty", 1), ("tree", 6)])
    if kind == "none":
        return None
    e = et.Element(tag)
    if kind == "leaf":
        if rng.chance(70):
            e.text = rtext(rng)
        if not e.text or rng.chance(40):
            e.set("note", rtext(rng, 2))
        return e
    if kind == "empty":
        return e
    e = relem(rng, tag, 0, traps)
    return e


# --------------------------------------------------------------- graph banks

def esc(t):
    return (t.replace("&", "&amp;").replace("<", "&lt;")
             .replace(">", "&gt;").replace('"', "&quot;"))


class GraphModel(object):
    """what a graph in a bank contains, by construction"""
    def __init__(self, id):
        self.id = id
        self.tokens = []
        self.root = None
        self.order = []            # node ids in document order
        self.label = {}
        self.ntokens = {}
        self.edges = []            # (source, target, label) in document order

    def kids(self, n):
        return [t for s, t, _ in self.edges if s == n]


def rgraph(rng, gid, maxn=7, words=PLAIN, prefix=u"n", root=None):
    """random rooted tree-ish graph with tokens"""
    g = GraphModel(gid)
    n = rng.int(1, maxn)
    g.order = [u"%s%d" % (prefix, i) for i in range(n)]
    for i, node in enumerate(g.order):
        g.label[node] = rng.choice([u"np", u"vp", u"s", u"noun", u"det"])
        g.ntokens[node] = [rng.choice(words) for _ in range(rng.int(1, 4))]
    for i in range(1, n):
        p = rng.below(i)
        g.edges.append((g.order[p], g.order[i],
                        rng.choice([u"hd", u"su", u"obj"])))
    if n > 3 and rng.chance(15):
        # a node with two parents
        i = rng.int(2, n - 1)
        p = rng.below(i)
        if not [e for e in g.edges if e[:2] == (g.order[p], g.order[i])]:
            g.edges.append((g.order[p], g.order[i], u"ref"))
    g.tokens = [rng.choice(words) for _ in range(rng.int(1, 8))]
    g.root = g.order[0] if (root or (root is None and rng.chance(80))) else None
    return g


def graphml(graphs):
    out = [u'<?xml version="1.0" encoding="utf-8"?>\n<graphml>\n'
           u'<key id="kl" for="node" attr.name="label" attr.type="string"/>\n'
           u'<key id="ke" for="edge" attr.name="label" attr.type="string"/>\n'
           u'<key id="kt" attr.name="tokens" attr.type="string"/>\n'
           u'<key id="kr" for="graph" attr.name="root" attr.type="string"/>\n']
    for g in graphs:
        out.append(u'<graph id="%s" edgedefault="directed">\n' % esc(g.id))
        out.append(u'<data key="kt">%s</data>\n' % esc(u" ".join(g.tokens)))
        if g.root is not None:
            out.append(u'<data key="kr">%s</data>\n' % esc(g.root))
        for n in g.order:
            out.append(u'<node id="%s"><data key="kl">%s</data>'
                       u'<data key="kt">%s</data></node>\n' % (
                           esc(n), esc(g.label[n]), esc(u" ".join(g.ntokens[n]))))
        for s, t, l in g.edges:
            out.append(u'<edge source="%s" target="%s">' % (esc(s), esc(t)) +
                       (u'<data key="ke">%s</data>' % esc(l) if l is not None else u"")
                       + u'</edge>\n')
        out.append(u'</graph>\n')
    out.append(u'</graphml>\n')
    return u"".join(out)


def put(path, text):
    if isinstance(text, unicode):
        text = text.encode("utf-8")
    f = open(path, "wb")
    try:
        f.write(text)
    finally:
        f.close()


def get(path):
    f = open(path, "rb")
    try:
        return f.read()
    finally:
        f.close()


class BankModel(object):
    def __init__(self, path, graphs):
        self.path, self.graphs = path, graphs
        self.by_id = dict((g.id, g) for g in graphs)
        self.format = fmt(path)
        for g in graphs:
            g.format = self.format


def rbanks(rng, directory, nbanks=None, ngraphs=4, maxn=6, names=None):
    """write random GraphML banks below directory"""
    banks = []
    default = [u"bank1.xml", u"sub dir/bank2.xml", u"b&ank3.xml",
                      u"sub dir/deep/bank  4.xml", u"bank5.graphml"]
    # names which are alike but for case, blanks or their end
    alike = [u"bank1.xml", u"Bank1.xml", u"bank 1.xml", u"a rather long name of a bank 1.xml", u"a rather long name of a bank 2.xml"]
    names = names or rng.weighted([(default, 3), (alike, 1)])
    for i in range(nbanks or rng.int(1, len(names))):
        path = os.path.join(directory, str(names[i]))
        if not os.path.isdir(os.path.dirname(path)):
            os.makedirs(os.path.dirname(path))
        words = rng.weighted([(PLAIN, 3), (WORDS, 1), (PLAIN + PUNCT, 1)])
        gid = rng.weighted([(u"g%d", 4), (u"doc.p.1.s.%d", 1), (u"%d", 1), (u"zin-\xe9 & %d", 1)])
        prefix = rng.weighted([(u"n", 4), (u"", 1), (u"knoop \xe9", 1)])
        graphs = [rgraph(rng, gid % (k + 1), maxn, words, prefix)
                  for k in range(rng.int(1, ngraphs))]
        put(path, graphml(graphs))
        banks.append(BankModel(path, graphs))
    return banks


# --------------------------------------------------------------- corpus model

class PairModel(object):
    """expected content of one graph pair"""
    def __init__(self, sb, sg, tb, tg, align=None, meta=EMPTY_GMD):
        self.sb, self.sg, self.tb, self.tg = sb, sg, tb, tg
        self.align = dict(align or {})
        self.meta = meta

    def key(self):
        return (os.path.realpath(self.sb), self.sg, os.path.realpath(self.tb),
                self.tg, tuple(sorted(self.align.items())), self.meta)

    def copy(self):
        return PairModel(self.sb, self.sg, self.tb, self.tg, self.align, self.meta)

    def add(self, s, t, rel):
        for k in list(self.align):
            if k[0] == s or k[1] == t:
                del self.align[k]
        self.align[s, t] = rel


class CorpusModel(object):
    def __init__(self, relations, meta, pairs):
        self.relations = sorted(relations)
        self.meta, self.pairs = meta, pairs

    def key(self):
        return (tuple(self.relations), self.meta,
                tuple(p.key() for p in self.pairs))


def pair_key(gp):
    """content of a real graph pair, through its public accessors"""
    m = gp.get_meta_data()
    return (os.path.realpath(gp.get_source_bank().get_file_path()),
            gp.get_source_graph().id,
            os.path.realpath(gp.get_target_bank().get_file_path()),
            gp.get_target_graph().id,
            tuple(sorted(((p.source, p.target), r)
                         for p, r in gp.alignments())),
            EMPTY_GMD if m is None else canon(m))


def corpus_key(c):
    m = c.get_meta_data()
    return (tuple(c.get_relations()), None if m is None else canon(m),
            tuple(pair_key(gp) for gp in c))


def diff_key(got, want):
    if got[0] != want[0]:
        return "relations %r, expected %r" % (got[0], want[0])
    if got[1] != want[1]:
        return "corpus meta-data %r, expected %r" % (got[1], want[1])
    if len(got[2]) != len(want[2]):
        return "%d graph pairs, expected %d" % (len(got[2]), len(want[2]))
    names = ("source bank", "source graph", "target bank", "target graph",
             "alignments", "meta-data")
    for i, (a, b) in enumerate(zip(got[2], want[2])):
        for n, x, y in zip(names, a, b):
            if x != y:
                return "pair %d: %s %r, expected %r" % (i, n, x, y)


def xml_key(root, base):
    """content of a corpus file, read by the reference reader"""
    md = root.find("corpus_meta_data")
    files = {}
    for f in root.find("graphbanks").all("file"):
        files[f.attrib["id"]] = (f.text.strip(), f.attrib.get("format"))
    rels = tuple(r.text.strip() for r in root.find("node_relations").all("relation"))
    pairs = []
    for gp in root.find("aligned_graphs").all("graph_pair"):
        gm = gp.find("graph_meta_data")
        al = gp.all("node_pair")
        wrap = gp.find("aligned_nodes")
        if wrap is not None:
            al = al + wrap.all("node_pair")
        a = gp.attrib
        pairs.append((
            os.path.realpath(os.path.join(base, files[a["from_bank_id"]][0])),
            a["from_graph_id"],
            os.path.realpath(os.path.join(base, files[a["to_bank_id"]][0])),
            a["to_graph_id"],
            tuple(sorted(((x.attrib["from_node_id"], x.attrib["to_node_id"]),
                          x.attrib["relation"]) for x in al)),
            EMPTY_GMD if gm is None else canon(gm)))
    return (rels, None if md is None else canon(md), tuple(pairs)), files


# -------------------------------------------------------- building real corpora

def load_banks(banks, sparse=False):
    from daeso.gb.graphbank import GraphBank
    out = {}
    for b in banks:
        gb = GraphBank(b.path, b.format)
        gb.load()
        out[b.path] = gb
    return out


def rpair(rng, banks, gbs, dup=None, meta=True, traps=False, maxalign=5, rels=None):
    """random real graph pair and its model"""
    from daeso.pair import Pair
    from daeso.pgc.graphpair import GraphPair
    while True:
        sb, tb = rng.choice(banks), rng.choice(banks)
        sg, tg = rng.choice(sb.graphs), rng.choice(tb.graphs)
        if not (sb is tb and sg.id == tg.id):
            break
        if len(banks) == 1 and len(sb.graphs) == 1:
            return None, None
    md = rmeta(rng, "graph_meta_data", traps) if meta else None
    pm = PairModel(sb.path, sg.id, tb.path, tg.id,
                   meta=EMPTY_GMD if md is None else canon(md))
    gp = GraphPair(Pair(gbs[sb.path], gbs[tb.path]),
                   Pair(gbs[sb.path].get_graph(sg.id),
                        gbs[tb.path].get_graph(tg.id)), meta_data=md)
    for _ in range(rng.int(0, maxalign)):
        s, t, r = rng.choice(sg.order), rng.choice(tg.order), rng.choice(rels or RELS)
        gp.add_align(Pair(s, t), r)
        pm.add(s, t, r)
    return gp, pm


def rcorpus(rng, directory, maxpairs=6, meta=True, traps=False, nbanks=None,
            banks=None):
    from daeso.pgc.corpus import ParallelGraphCorpus
    if banks is None:
        banks = rbanks(rng, directory, nbanks)
    gbs = load_banks(banks)
    cm = rmeta(rng, "corpus_meta_data", traps) if meta else None
    use = rrels(rng)
    rels = rng.sample(use, rng.int(0, len(use))) if rng.chance(50) else list(use)
    model = CorpusModel(rels, None if cm is None else canon(cm), [])
    pairs = []
    for _ in range(rng.int(0, maxpairs)):
        gp, pm = rpair(rng, banks, gbs, meta=meta, traps=traps, rels=use)
        if gp is None:
            break
        pairs.append(gp)
        model.pairs.append(pm)
    c = ParallelGraphCorpus(pairs, relations=rels, meta_data=cm)
    return c, model, banks, gbs


# ------------------------------------------------- hand-made corpus files

def pgc_xml(rng, model, base, entries, header=True):
    """text of a corpus file for model; entries is a list of (id, path as
    written, real bank path) for its <file> elements"""
    real2id = {}
    for i, _, real in entries:
        real2id.setdefault(real, []).append(i)
    out = [u'<?xml version="1.0" encoding="utf-8"?>\n' if header else u"",
           u'<parallel_graph_corpus>']
    if model.meta is not None:
        out.append(canon_xml(model.meta))
    # a format for all banks which do not state theirs (deprecated)
    default = fmt(rng.choice(entries)[2]) if entries and rng.chance(15) else None
    out.append(u'<graphbanks format="%s">\n' % default if default else u'<graphbanks>\n')
    for i, p, _ in entries:
        if fmt(_) == default and rng.chance(70):
            out.append(u'<file id="%s">%s</file>\n' % (esc(i), esc(unicode(p))))
        else:
            out.append(u'<file id="%s" format="%s">%s</file>\n' % (esc(i), fmt(_), esc(unicode(p))))
    out.append(u'</graphbanks>\n<node_relations>')
    for r in model.relations:
        out.append(u'<relation>%s</relation>' % esc(r))
    out.append(u'</node_relations>\n<aligned_graphs>\n')
    for p in model.pairs:
        out.append(u'<graph_pair from_bank_id="%s" from_graph_id="%s" '
                   u'to_bank_id="%s" to_graph_id="%s">' % (
                       esc(rng.choice(real2id[p.sb])), esc(p.sg),
                       esc(rng.choice(real2id[p.tb])), esc(p.tg)))
        if p.meta != EMPTY_GMD:
            out.append(canon_xml(p.meta))
        wrap = rng.chance(15)
        out.append(u'<aligned_nodes>' if wrap else u'')
        for (s, t), r in sorted(p.align.items()):
            out.append(u'<node_pair from_node_id="%s" to_node_id="%s" '
                       u'relation="%s"/>' % (esc(s), esc(t), esc(r)))
        out.append(u'</aligned_nodes></graph_pair>\n' if wrap else u'</graph_pair>\n')
    out.append(u'</aligned_graphs></parallel_graph_corpus>\n')
    return u"".join(out)


def canon_xml(c):
    tag, attrib, text, tail, kids = c
    return u"<%s%s>%s%s</%s>%s" % (
        tag, u"".join(u' %s="%s"' % (k, esc(v)) for k, v in attrib), esc(text),
        u"".join(canon_xml(k) for k in kids), tag, esc(tail))


def rmodel(rng, banks, maxpairs=6, meta=True, rels=None, maxalign=5):
    """random corpus model over banks, without building anything real"""
    if rels is None:
        rels = rrels(rng)
    md = rmeta(rng, "corpus_meta_data") if meta else None
    model = CorpusModel(rels, None if md is None else canon(md), [])
    for _ in range(rng.int(0, maxpairs)):
        pm = rpairmodel(rng, banks, meta, rels, maxalign)
        if pm is None:
            break
        model.pairs.append(pm)
    return model


def rpairmodel(rng, banks, meta=True, rels=None, maxalign=5):
    for _ in range(50):
        sb, tb = rng.choice(banks), rng.choice(banks)
        sg, tg = rng.choice(sb.graphs), rng.choice(tb.graphs)
        if not (sb is tb and sg.id == tg.id):
            break
    else:
        return None
    md = rmeta(rng, "graph_meta_data") if meta else None
    pm = PairModel(sb.path, sg.id, tb.path, tg.id,
                   meta=EMPTY_GMD if md is None else canon(md))
    for _ in range(rng.int(0, maxalign)):
        pm.add(rng.choice(sg.order), rng.choice(tg.order), rng.choice(rels or RELS))
    return pm


def check_graph(case, g, gm, what="graph"):
    """a real graph holds exactly what its model holds"""
    from daeso.graph.daesograph import DaesoGraph
    case.check(isinstance(g, DaesoGraph), "no-graph", what + ": %s is no graph", g)
    f = getattr(gm, "format", None)
    if f:
        case.equal(isinstance(g, OtherGraph), f.lower() == "other", "graph-format", what + " made by the parser of the other format")
        if f != "graphml":
            case.seen("other_format")
    case.equal(g.id, gm.id, "graph-id", what + " id")
    case.equal(sorted(g.nodes()), sorted(gm.order), "graph-nodes", what + " %s nodes" % gm.id)
    case.equal(g.get_graph_token_string(), u" ".join(gm.tokens), "graph-tokens",
               what + " %s tokens" % gm.id)
    case.equal(g.root, gm.root, "graph-root", what + " %s root" % gm.id)
    for n in gm.order:
        case.equal(g.node[n].get("label"), gm.label[n], "graph-node-label",
                   what + " %s label of %s" % (gm.id, n))
        case.equal(g.get_node_token_string(n), u" ".join(gm.ntokens[n]),
                   "graph-node-tokens", what + " %s tokens of %s" % (gm.id, n))
    got = sorted((s, t, d.get("label")) for s, t, d in g.edges(data=True))
    case.equal(got, sorted(gm.edges), "graph-edges", what + " %s edges" % gm.id)
    case.seen("graph_checked")
