# -*- coding: utf-8 -*-
"""C01: writing a corpus and reading it back preserves it"""
import copy, os, warnings, StringIO, cStringIO
import xml.etree.cElementTree as et
import gen
from daeso.pgc.corpus import (ParallelGraphCorpus, PGCGenerator, LOAD_ALL, LOAD_SPARSE,
                              LOAD_NONE)
from daeso.pair import Pair
from daeso.exception import DaesoWarning

RULE = ("random corpora (1-5 GraphML banks, 0-6 pairs, unicode and markup "
        "characters, meta-data trees and leaves, meta-data using the corpus' own "
        "tag names) built through the API or read and edited, written with random "
        "target kind/path style/pprint, checked against the generator's model by "
        "Java's DOM parser and by re-reading; non-trivial = at least one pair or "
        "meta-data; plus injected write faults")
REQUIRED = ["written", "reread", "dom_parsed", "leaf_meta", "fault_write_failed", "unknown_elements", "other_encoding", "tree"]
ASSUMPTIONS = ["text is compared up to leading/trailing blanks, as the documentation states",
               "Java's DOM parser reads XML correctly"]
MODES = [LOAD_ALL, LOAD_SPARSE, LOAD_NONE]


class Sink(object):
    """file-like object, no file"""
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def value(self):
        return "".join(x.encode("utf-8") if isinstance(x, unicode) else x
                       for x in self.parts)


def verify_file(case, path, model, base, abs_path=None, encoding="utf-8"):
    raw = gen.get(path)
    gen.check_encoded(case, raw, encoding)
    try:
        root = gen.dom_file(path)
    except Exception, e:
        case.fail("output-not-xml", "written file is not well-formed: %s; tail %r" % (
            e, raw[-80:]))
    case.seen("dom_parsed")
    got, files = gen.xml_key(root, base)
    d = gen.diff_key(got, model.key())
    case.check(d is None, "written-differs", "written file: %s" % d)
    case.equal([e.attrib.get("n") for e in root.find("aligned_graphs").all("graph_pair")], [unicode(i + 1) for i in range(len(model.pairs))],
               "numbering", "numbers of graph pairs")
    for fid, (p, fmt) in files.items():
        case.check(fmt.lower() == gen.fmt(p).lower(), "format-lost", "bank format of %s is %s", p, fmt)
        if abs_path is not None:
            case.check(os.path.isabs(p) == bool(abs_path), "path-style",
                       "path %s with abs_path=%s", p, abs_path)


def verify_read(case, inf, model, mode):
    c = ParallelGraphCorpus()
    c.read(inf, graph_loading=mode)
    case.seen("reread")
    d = gen.diff_key(gen.corpus_key(c), model.key())
    case.check(d is None, "reread-differs", "re-read corpus: %s" % d)
    return c


def sig(model, *more):
    return "%r" % ((model.key()[0], hash(model.key()[1]),
                    tuple((p.sg, p.tg, len(p.align), p.meta is not gen.EMPTY_GMD)
                          for p in model.pairs)) + more,)


def note_meta(case, model):
    for m in [model.meta] + [p.meta for p in model.pairs]:
        if m and not m[4] and (m[1] or m[2]):
            case.seen("leaf_meta")


def write_somewhere(case, c, model):
    rng = case.rng
    d = case.scratch
    sub = rng.choice(["", "out", "out/x y"])
    outdir = os.path.join(d, sub)
    if not os.path.isdir(outdir):
        os.makedirs(outdir)
    path = os.path.join(outdir, rng.choice(["c.pgc", "na me.xml", "c&1.pgc"]))
    absp, pp = rng.chance(40), rng.chance(50)
    how = rng.choice(["path", "path", "path", "relpath", "file", "stream", "cstringio", "unicode"])
    kw = dict(abs_path=absp, pprint=pp)
    enc = rng.choice(gen.ENCODINGS)
    if enc != "utf-8" or rng.chance(30):
        kw["encoding"] = enc
    base = os.path.dirname(path)
    if rng.chance(20):
        # something longer already stands there
        gen.put(path, "x" * 200000)
    if how == "path" and rng.chance(30):
        # the generator behind it also returns what it has written
        tree = PGCGenerator().generate(c, path, **kw)
        case.equal(gen.canon(tree.getroot()), gen.canon(gen.dom_file(path)), "tree", "returned tree")
        case.seen("tree")
    elif how == "path":
        c.write(path, **kw)
    elif how == "unicode":
        c.write(unicode(path), **kw)
    elif how == "relpath":
        os.chdir(outdir)
        c.write(os.path.basename(path), **kw)
    elif how == "file":
        f = open(path, "wb")
        try:
            c.write(f, **kw)
        finally:
            f.close()
    else:
        # for file-like objects, paths are relative to the working directory
        os.chdir(outdir)
        s = Sink() if how == "stream" else cStringIO.StringIO()
        c.write(s, **kw)
        gen.put(path, s.value() if how == "stream" else s.getvalue())
    case.seen("written")
    case.seen("via_" + how)
    verify_file(case, path, model, base, absp, enc)
    return path, (how, absp, pp, sub)


def read_somewhere(case, path, model):
    rng = case.rng
    mode = rng.choice(MODES)
    how = rng.choice(["path", "path", "relpath", "file", "stringio", "ctor"])
    if how == "path":
        c = verify_read(case, path, model, mode)
    elif how == "relpath":
        os.chdir(os.path.dirname(path))
        c = verify_read(case, os.path.basename(path), model, mode)
    elif how == "file":
        f = open(path, "rb")
        try:
            c = verify_read(case, f, model, mode)
        finally:
            f.close()
    elif how == "stringio":
        os.chdir(os.path.dirname(path))
        c = verify_read(case, StringIO.StringIO(gen.get(path)), model, mode)
    else:
        c = ParallelGraphCorpus(inf=path, graph_loading=mode)
        d = gen.diff_key(gen.corpus_key(c), model.key())
        case.check(d is None, "reread-differs", "corpus(inf): %s" % d)
    return c, (how, mode)


def g_roundtrip(case):
    rng = case.rng
    c, model, banks, gbs = gen.rcorpus(rng, case.scratch, traps=rng.chance(40))
    note_meta(case, model)
    before = gen.corpus_key(c)
    d = gen.diff_key(before, model.key())
    case.check(d is None, "built-differs", "corpus as built: %s" % d)
    ref = copy.deepcopy(c)
    path, how = write_somewhere(case, c, model)
    d = gen.diff_key(gen.corpus_key(c), before)
    case.check(d is None, "write-changed-corpus", "after write: %s" % d)
    if model.pairs or model.meta:
        case.distinct(sig(model, how))
    case.sample((how, model.key()))
    r, _ = read_somewhere(case, path, model)
    for a, b in ((r, c), (c, r), (ref, r)):
        case.check(bool(a == b), "reread-not-equal", "re-read corpus is not == the one written")
        case.check(not (a != b), "reread-ne", "re-read corpus is != the one written")
    # write what was read, elsewhere
    path2, _ = write_somewhere(case, r, model)
    read_somewhere(case, path2, model)
    if rng.chance(20):
        os.chdir(case.scratch)
        s = str(c)
        got, _ = gen.xml_key(gen.dom_bytes(s), case.scratch)
        d = gen.diff_key(got, model.key())
        case.check(d is None, "str-differs", "str(corpus): %s" % d)


def g_edits(case):
    """read, edit, write, read ... """
    rng = case.rng
    c, model, banks, gbs = gen.rcorpus(rng, case.scratch, traps=rng.chance(20))
    extra = [gen.rpair(rng, banks, gbs) for _ in range(6)]
    extra = [e for e in extra if e[0] is not None]
    for rnd in range(rng.int(2, 4)):
        for _ in range(rng.int(1, 6)):
            n = len(model.pairs)
            op = rng.below(8)
            if op == 0 and extra:
                gp, pm = extra.pop()
                c.append(gp)
                model.pairs.append(pm)
            elif op == 1 and extra:
                gp, pm = extra.pop()
                i = rng.int(0, n)
                c.insert(i, gp)
                model.pairs.insert(i, pm)
            elif op == 2 and n:
                i = rng.below(n)
                del c[i]
                del model.pairs[i]
            elif op == 3 and n:
                i, j = rng.below(n), rng.below(n + 1)
                del c[i:j]
                del model.pairs[i:j]
            elif op == 4:
                c.reverse()
                model.pairs.reverse()
            elif op == 5:
                md = gen.relem(rng, "corpus_meta_data")
                c.set_meta_data(md)
                model.meta = gen.canon(md)
            elif op == 6 and n:
                i = rng.below(n)
                md = gen.rmeta(rng, "graph_meta_data")
                if md is not None:
                    c[i].set_meta_data(md)
                    model.pairs[i].meta = gen.canon(md)
            elif op == 7 and n:
                i = rng.below(n)
                gp, pm = c[i], model.pairs[i]
                if pm.align and rng.chance(40):
                    (s, t) = rng.choice(sorted(pm.align))
                    gp.del_align(Pair(s, t))
                    del pm.align[s, t]
                else:
                    s, t = u"n%d" % rng.below(5), u"n%d" % rng.below(5)
                    rel = rng.choice(gen.RELS)
                    gp.add_align(Pair(s, t), rel)
                    pm.add(s, t, rel)
        d = gen.diff_key(gen.corpus_key(c), model.key())
        case.check(d is None, "edited-differs", "after edits: %s" % d)
        path, how = write_somewhere(case, c, model)
        c, _ = read_somewhere(case, path, model)
        # shared meta-data objects were separated by reading
        case.distinct(sig(model, rnd, how))
        extra = [gen.rpair(rng, banks, gbs) for _ in range(4)]
        extra = [e for e in extra if e[0] is not None]
    case.sample(model.key())


def g_annotator(case):
    """annotator names survive and accumulate"""
    rng = case.rng
    c, model, banks, gbs = gen.rcorpus(rng, case.scratch, maxpairs=2)
    if c.get_meta_data() is None:
        c.set_meta_data(et.Element("corpus_meta_data"))
    md = c.get_meta_data()
    for a in md.findall("annotator"):
        md.remove(a)
    names = []
    for _ in range(rng.int(1, 4)):
        name = rng.choice([u"erwin", u"Iris H.", u"Zoë", u"a + b"])
        if rng.chance(30):
            c.set_annotator(name, append=False)
            names = [name]
        else:
            c.set_annotator(name)
            names.append(name)
        path = os.path.join(case.scratch, "c.pgc")
        c.write(path, pprint=rng.chance(50))
        r = ParallelGraphCorpus(inf=path, graph_loading=LOAD_NONE)
        case.equal(r.get_annotator(), u" + ".join(names), "annotator", "annotator read back")
        c.set_meta_data(r.get_meta_data())
        case.distinct(repr(names))
    case.seen("annotators")
    case.sample(names)


class Boom(IOError):
    pass


class Faulty(object):
    """file-like object of which the k-th write fails, and whose earlier
    writes are kept"""
    def __init__(self, k):
        self.k, self.n, self.data = k, 0, []

    def write(self, s):
        self.n += 1
        if self.n == self.k:
            raise Boom(28, "no space left (injected)")
        self.data.append(s)


def g_faults(case):
    rng = case.rng
    c, model, banks, gbs = gen.rcorpus(rng, case.scratch, maxpairs=4)
    before = gen.corpus_key(c)
    os.chdir(case.scratch)
    ok = Faulty(-1)
    c.write(ok)
    total = ok.n
    case.check(total > 0, "nothing-written", "write produced no output")
    ks = range(1, total + 1) if total <= 12 else sorted(set(
        [1, 2, 3, total, total - 1] + [rng.int(1, total) for _ in range(7)]))
    for k in ks:
        f = Faulty(k)
        case.raises(Boom, c.write, f, kind="write-error-swallowed", what="write")
        case.seen("fault_write_failed")
    d = gen.diff_key(gen.corpus_key(c), before)
    case.check(d is None, "fault-changed-corpus", "after failed write: %s" % d)
    # real file system faults
    case.raises((IOError, OSError), c.write,
                os.path.join(case.scratch, "no", "such", "dir.pgc"),
                kind="write-error-swallowed", what="write")
    case.raises((IOError, OSError), c.write, case.scratch,
                kind="write-error-swallowed", what="write")
    path = os.path.join(case.scratch, "ok.pgc")
    c.write(path)
    verify_file(case, path, model, case.scratch)
    verify_read(case, path, model, rng.choice(MODES))
    case.distinct(sig(model, tuple(ks)))
    case.sample((total, ks))


def g_big(case):
    """more output than any buffer holds"""
    rng = case.rng
    banks = gen.rbanks(rng, case.scratch, 3, 6)
    gbs = gen.load_banks(banks)
    c = ParallelGraphCorpus(relations=list(gen.RELS))
    model = gen.CorpusModel(gen.RELS, None, [])
    for _ in range(120):
        gp, pm = gen.rpair(rng, banks, gbs, maxalign=8)
        c.append(gp)
        model.pairs.append(pm)
    path = os.path.join(case.scratch, "big.pgc")
    c.write(path, pprint=rng.chance(50))
    verify_file(case, path, model, case.scratch)
    for mode in MODES:
        verify_read(case, path, model, mode)
    if os.path.exists("/dev/full"):
        # more than a buffer, as Jython's close() hides errors of the last flush
        case.raises((IOError, OSError), c.write, "/dev/full",
                    kind="write-error-swallowed", what="write")
        case.seen("dev_full")
    case.distinct(sig(model))
    case.seen("big")


def g_xmlforms(case):
    """hand-made corpus files in all layouts the reader accepts"""
    rng = case.rng
    banks = gen.rbanks(rng, case.scratch, 2, 4)
    rels = gen.rrels(rng)
    model = gen.CorpusModel(rng.sample(rels, rng.int(1, len(rels))), None, [])
    out = [u'<?xml version="1.0" encoding="%s"?>\n<parallel_graph_corpus>\n']
    if rng.chance(60):
        md = gen.rmeta(rng, "corpus_meta_data", True)
        if md is not None:
            model.meta = gen.canon(md)
            out.append(et.tostring(md, "utf-8").decode("utf-8").split("?>\n")[-1])
    out.append(u"<graphbanks>\n")
    ids = rng.sample([u"1", u"b2", u"x-y", u"7"], 2)
    for b, i in zip(banks, ids):
        p = b.path if rng.chance(50) else os.path.relpath(b.path, case.scratch)
        pad = rng.choice([u"", u"\n   ", u" "])
        out.append(u'<file id="%s" format="%s">%s%s%s</file>' % (
            i, rng.choice([b.format, b.format.lower(), b.format.upper()]), pad, gen.esc(unicode(p)), pad))
    out.append(u"</graphbanks><node_relations>")
    for r in model.relations:
        out.append(u"<relation>%s%s%s</relation>\n" % (rng.choice([u"", u" ", u"\n"]), gen.esc(r),
                                                     rng.choice([u"", u" "])))
    out.append(u"</node_relations><aligned_graphs>")
    for n in range(rng.int(0, 5)):
        i, j = rng.below(2), rng.below(2)
        sg, tg = rng.choice(banks[i].graphs), rng.choice(banks[j].graphs)
        if i == j and sg.id == tg.id:
            continue
        pm = gen.PairModel(banks[i].path, sg.id, banks[j].path, tg.id)
        model.pairs.append(pm)
        out.append(u'<graph_pair from_bank_id="%s" from_graph_id="%s" '
                   u'to_bank_id="%s" to_graph_id="%s">' % (
                       ids[i], gen.esc(sg.id), ids[j], gen.esc(tg.id)))
        md = gen.rmeta(rng, "graph_meta_data", True)
        if md is not None:
            pm.meta = gen.canon(md)
            out.append(et.tostring(md, "utf-8").decode("utf-8").split("?>\n")[-1])
        wrap = rng.chance(50)
        if wrap:
            out.append(u"<aligned_nodes>")
        for _ in range(rng.int(0, 4)):
            s, t, r = rng.choice(sg.order), rng.choice(tg.order), rng.choice(rels)
            pm.add(s, t, r)
            out.append(u'<node_pair from_node_id="%s" to_node_id="%s" relation="%s"/>' % (
                gen.esc(s), gen.esc(t), gen.esc(r)))
        if wrap:
            out.append(u"</aligned_nodes>")
        out.append(u"</graph_pair>")
    out.append(u"</aligned_graphs></parallel_graph_corpus>")
    odd = []
    if rng.chance(30):
        # elements the format does not define, where they cannot be meta-data
        slots = [i for i in range(1, len(out)) if out[i][:11] in
                 (u"<graphbanks", u"<file id=\"1", u"<graph_pair", u"</graph_pai", u"<node_pair ", u"</node_rela", u"</aligned_g")]
        for i in sorted(rng.sample(slots, min(len(slots), rng.int(1, 3))), reverse=True):
            tag = rng.choice([u"note", u"zo\xeb", u"Relation", u"pair", u"graph"])
            odd.append(tag)
            out.insert(i, u'<%s id="1">%s</%s>' % (tag, rng.choice([u"", u"x", u"equals"]), tag))
    path = os.path.join(case.scratch, "hand.pgc")
    text = u"".join(out)
    text = text.replace(u'encoding="%s"', u'encoding="utf-8"', 1)
    gen.put(path, text)
    if odd:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            ParallelGraphCorpus().read(path)
        got = [x.message for x in w if issubclass(x.category, DaesoWarning)]
        case.equal(len(got), len(odd), "unknown-element", "warnings for unknown elements %s" % odd)
        case.check(all(t in unicode(m.args[0]) for t, m in zip(odd[::-1], got)), "unknown-element", "warnings %s", got)
        case.seen("unknown_elements")
        with warnings.catch_warnings(record=True):
            c, how = read_somewhere(case, path, model)
    else:
        c, how = read_somewhere(case, path, model)
    case.distinct(sig(model, how))
    case.seen("hand_made")
    case.sample(text[:600])
    path2, _ = write_somewhere(case, c, model)
    read_somewhere(case, path2, model)


GROUPS = [
    ("roundtrip", g_roundtrip, 240, 6000),
    ("edits", g_edits, 80, 2000),
    ("annotator", g_annotator, 30, 300),
    ("faults", g_faults, 30, 500),
    ("big", g_big, 6, 40),
    ("xmlforms", g_xmlforms, 120, 2500),
]
