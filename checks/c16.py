# -*- coding: utf-8 -*-
"""C16: text corpus documents"""
import os, StringIO
import gen, ptcgen
from daeso.ptc.document import HitaextDoc
from daeso.ptc.ielemtree import IndexElemTree

RULE = ("random histories on text corpora (file names, render settings, links, writing and reading, from scratch and from hand-made files), "
        "links injected into and extracted from random documents by number and by identifier, every arrangement of existing document files; "
        "non-trivial = history with links, corpus with links, or search with a choice of files")
REQUIRED = ["large", "id_missing", "links_ignored_tags", "write_path", "write_stream", "reread", "link_added", "cleared", "elem_added", "init_elems", "hand_made", "inject_n", "inject_id", "extract_n",
            "extract_id", "link_many", "link_order_changed", "search_given", "search_doc", "search_next", "search_none", "failed_write",
            "unknown_method", "relative_corpus", "nested_same_tag", "other_encoding"]
ASSUMPTIONS = ["file names have no blanks at their ends", "identifiers are unique among the elements with the same tag"]

SIDES = ("from", "to")
VALUES = ["True", "False"]


class Side(object):
    def __init__(self):
        self.fn, self.root, self.elems = u"", None, []


class Model(object):
    def __init__(self):
        self.sides = {"from": Side(), "to": Side()}
        self.method, self.links = None, []

    def compare(self, case, doc, what):
        for s in SIDES:
            m = self.sides[s]
            if m.fn:
                case.equal(doc.get_filename(s), m.fn, "filename", "%s: file name of %s" % (what, s))
            case.equal(doc.get_pseudo_root(s), m.root, "pseudo-root", "%s: pseudo root of %s" % (what, s))
            case.equal(doc.get_elem_tags(s), [t for t, _ in m.elems], "elem-tags", "%s: element tags of %s" % (what, s))
            case.equal(doc.get_pseudo_root_tags(s), [t for t, a in m.elems if a.get("uniq") == "True"], "uniq", "%s: unique tags of %s" % (what, s))
            for at in ("skip", "ignore", "newline", "blankline", "uniq"):
                case.equal(doc.get_tags(s, at), [t for t, a in m.elems if a.get(at) == "True"], "tags-" + at, "%s: %s tags of %s" % (what, at, s))
            for t, a in reversed(m.elems):
                first = [b for u, b in m.elems if u == t][0]
                e = doc.get_elem(s, t)
                case.check(e is not None, "get-elem", "%s: no element %s", what, t)
                case.equal(dict(e.attrib), first, "elem", "%s: settings of %s %s" % (what, s, t))
            d = doc.get_elem_dict(s, None)
            case.equal(sorted(d), sorted(set(t for t, _ in m.elems)), "elem-dict", "%s: dictionary of %s" % (what, s))
        case.equal(doc.get_alignment_method(), self.method, "method", what + ": alignment method")
        case.equal([dict(x.attrib) for x in doc.get_alignments()], self.links, "links", what + ": links")
        case.equal([x.tag for x in doc.get_alignments()], ["link"] * len(self.links), "links", what + ": link tags")
        case.seen("compared")


def write(case, doc, fn):
    rng = case.rng
    before = gen.canon(doc.getroot())
    kw = {}
    enc = rng.choice(gen.ENCODINGS)
    if enc != "utf-8" or rng.chance(30):
        kw["encoding"] = enc
    if rng.chance(60):
        doc.write(fn, **kw)
        case.seen("write_path")
    else:
        out = StringIO.StringIO()
        doc.write(out, **kw)
        gen.put(fn, out.getvalue())
        case.seen("write_stream")
    gen.check_encoded(case, gen.get(fn), enc)
    case.equal(gen.canon(doc.getroot()), before, "write-changed", "document after writing")
    root = gen.dom_file(fn)
    case.equal(gen.canon(root), before, "file", "content of the written file")
    return root


def case_history(case):
    rng = case.rng
    m = Model()
    fn = os.path.join(case.scratch, "corpus.ptc")
    if rng.chance(50):
        doc = HitaextDoc()
        case.check(not doc.filename, "filename", "file name %s of a new document", doc.filename)
    else:
        case.seen("hand_made")
        els, txt = {}, {}
        for s in SIDES:
            m.sides[s].fn = rng.choice([u"a.xml", u"/x/y/b c.xml", u"naïef/b&c.xml"])
            for _ in range(rng.below(4)):
                t = rng.choice([u"p", u"s", u"head", u"w", u"P", u"section_heading_a", u"section_heading_b"])
                if t in [u for u, _ in m.sides[s].elems]:
                    continue
                at = dict((k, rng.choice(VALUES)) for k in ("ignore", "skip", "newline", "blankline", "uniq") if rng.chance(70))
                m.sides[s].elems.append((t, at))
            txt[s] = u"\n".join(u"<%s %s/>" % (t, u" ".join('%s="%s"' % kv for kv in a.items())) for t, a in m.sides[s].elems)
        m.method = rng.choice([None, "n", "id"])
        for i in range(rng.below(4) if rng.chance(92) else rng.int(26, 40)):
            m.links.append(dict(from_tag=u"s", from_n=u"%d" % i, to_tag=u"p", to_n=u"3"))
        gen.put(fn, ptcgen.ptc_xml(m.sides["from"].fn, m.sides["to"].fn, m.links, m.method, u' face="a" size="12"', (txt["from"], txt["to"])))
        doc = HitaextDoc(file=fn)
        case.equal(doc.filename, fn, "own-filename", "file name of a document read")
    m.compare(case, doc, "at first")
    ops = []
    for step in range(rng.int(3, 18)):
        s = rng.choice(SIDES)
        m1 = m.sides[s]
        op = rng.weighted([("fn", 2), ("root", 2), ("add", 3), ("set", 3), ("init", 2), ("link", 5), ("clear", 1), ("method", 2),
                           ("bad", 1), ("reread", 3)])
        ops.append((op, s))
        if op == "fn":
            m1.fn = rng.choice([u"a.xml", u"../b.xml", u"/abs/ü.xml", u"C:\\x\\y.xml", u"a b.xml"])
            doc.set_filename(s, m1.fn)
        elif op == "root":
            m1.root = rng.choice([u"doc", u"text"])
            doc.set_pseudo_root(s, m1.root)
        elif op == "add":
            t = rng.choice([u"p", u"s", u"head", u"w", u"x-y", u"P", u"section_heading_a", u"section_heading_b"])
            e = doc.add_elem(s, t)
            m1.elems.append((t, dict(ignore="False", skip="False", newline="False", blankline="False")))
            case.equal((e.tag, dict(e.attrib)), m1.elems[-1], "add-elem", "element added")
            case.seen("elem_added")
        elif op == "set" and m1.elems:
            t = rng.choice(m1.elems)[0]
            k, v = rng.choice(["ignore", "skip", "newline", "blankline", "uniq"]), rng.choice(VALUES)
            doc.get_elem(s, t).set(k, v)
            [b for u, b in m1.elems if u == t][0][k] = v
        elif op == "init" and not m1.elems:
            d = ptcgen.rdoc(rng, 8)
            d.write(os.path.join(case.scratch, "doc.xml"))
            doc.init_elems(s, IndexElemTree(d.path))
            tags = [e.tag for e in d.flat()]
            for i, t in enumerate(tags):
                if t not in tags[:i]:
                    m1.elems.append((t, dict(ignore="False", skip="False", newline="False", blankline="False",
                                             uniq=str(tags.count(t) == 1))))
            m1.root = d.root.tag
            case.seen("init_elems")
        elif op == "link":
            a, b = rng.choice([u"s", u"p"]), rng.choice([u"s", u"w"])
            if rng.chance(50):
                i, j = rng.int(1, 99), rng.choice([1, 5, "7"])
                doc.add_n_alignment(a, i, b, j)
                m.links.append(dict(from_tag=a, from_n=str(i), to_tag=b, to_n=str(j)))
            else:
                i, j = rng.choice([u"s1", u"é", u"a b"]), u"x%d" % rng.below(3)
                doc.add_id_alignment(a, i, b, j)
                m.links.append(dict(from_tag=a, from_id=i, to_tag=b, to_id=j))
            case.seen("link_added")
        elif op == "clear":
            doc.clear_alignments()
            m.links = []
            case.seen("cleared")
        elif op == "method":
            m.method = rng.choice(["n", "id"])
            if m.method == "n" and rng.chance(30):
                doc.set_alignment_method()
            else:
                doc.set_alignment_method(m.method)
        elif op == "bad":
            case.raises(AssertionError, doc.set_alignment_method, rng.choice(["x", "", "ID"]), kind="bad-method", what="unknown method")
        elif op == "reread" and m.sides["from"].fn and m.sides["to"].fn:
            out = os.path.join(case.scratch, "out%d.ptc" % rng.below(2))
            if rng.chance(15):
                # a document which cannot be written leaves the file alone
                gen.put(out, "old content")
                doc.add_id_alignment("s", None, "s", "1")
                try:
                    doc.write(out)
                except Exception:
                    case.equal(gen.get(out), "old content", "destroyed", "file after a failed write")
                    case.seen("failed_write")
                else:
                    case.fail("no-error", "link without identifier was written")
                del doc.alignment[-1]
            write(case, doc, out)
            doc = HitaextDoc(file=out)
            case.seen("reread")
        m.compare(case, doc, "after %s" % ops[-1][0])
    if m.links:
        case.distinct((ops, m.links))
    case.sample(ops)


def case_links(case):
    """links lead to the right elements and come back"""
    rng = case.rng
    ids = rng.choice(["all", "all", "some", "none"])
    method = rng.choice([None, "n", "id"]) if ids == "all" else rng.choice([None, "n"])
    dirn = os.path.join(case.scratch, "d")
    large = rng.chance(5)
    if large:
        case.seen("large")
    d1, d2 = [ptcgen.rdoc(rng, 80 if large else 12, ids) for _ in range(2)]
    for d in (d1, d2):
        if any(k.tag == e.tag for e in d.flat() for k in e.kids):
            case.seen("nested_same_tag")
    d1.write(os.path.join(dirn, "a", "one.xml"))
    d2.write(os.path.join(dirn, "two.xml"))
    links = ptcgen.rlinks(rng, d1, d2, rng.weighted([(0, 1), (2, 2), (6, 4), (14, 2)]) if not large else 70, dup=True)
    fn = os.path.join(dirn, "c.ptc")
    rel = rng.chance(40)
    gen.put(fn, ptcgen.ptc_xml(u"a/one.xml" if rel else d1.path, u"two.xml" if rel else d2.path,
                               [ptcgen.link_attrs(d1, d2, l, method) for l in links], method))
    doc = HitaextDoc(file=fn)
    how = rng.below(3)
    if how == 0:
        trees = doc.get_doc_trees(search=True)
        t1, t2 = trees.source, trees.target
    elif how == 1:
        trees = doc.get_doc_trees(search=True, update=False)
        t1, t2 = trees
        # what is shown or not makes no difference to links
        t1.update(ignoreTags=["w"] if rng.chance(40) else rng.sample(ptcgen.TAGS, rng.int(0, 3)))
        t2.update(newlineTags=["p"], ignoreTags=rng.sample(ptcgen.TAGS, rng.int(0, 3)))
        case.seen("links_ignored_tags")
    else:
        t1, t2 = doc.get_doc_tree("from", search=True), doc.get_doc_tree("to", search=True)
        t1.update()
        t2.update()
    if rel:
        case.seen("relative_corpus")
    m1, m2 = ptcgen.match(case, d1, t1, "source"), ptcgen.match(case, d2, t2, "target")
    doc.inject_alignments(t1, t2)
    case.seen("inject_id" if method == "id" else "inject_n")
    for d, o, mm, mo, k in ((d1, d2, m1, m2, 0), (d2, d1, m2, m1, 1)):
        for e in d.flat():
            want = [mo[l[1 - k]] for l in links if l[k] is e]
            got = mm[e].get("_alignments")
            case.check(len(got) == len(want) and all(x is y for x, y in zip(got, want)), "inject",
                       "%s element %s %s linked to %s, expected %s", ("source", "target")[k], e.tag, d.nth(e),
                       [(x.tag, x.get("_n")) for x in got], [(x.tag, x.get("_n")) for x in want])
            if len(want) > 1:
                case.seen("link_many")
    case.equal([dict(x.attrib) for x in doc.alignment], [ptcgen.link_attrs(d1, d2, l, method) for l in links], "inject-changed", "links after injection")
    # the same or another corpus may receive them
    out, mo = doc, method
    if rng.chance(50):
        out = HitaextDoc()
        out.set_filename("from", d1.path)
        out.set_filename("to", d2.path)
        mo = rng.choice([None, "n", "id"]) if ids == "all" else rng.choice([None, "n"])
        if mo:
            out.set_alignment_method(mo)
    elif ids == "all" and rng.chance(40):
        mo = rng.choice(["n", "id"])
        out.set_alignment_method(mo)
    out.extract_alignments(t1, t2)
    case.seen("extract_id" if mo == "id" else "extract_n")
    order = dict((e, i) for i, e in enumerate(d1.flat()))
    srt = sorted(links, key=lambda l: order[l[0]])
    if srt != links:
        case.seen("link_order_changed")
    want = [ptcgen.link_attrs(d1, d2, l, mo) for l in srt]
    case.equal([dict(x.attrib) for x in out.alignment], want, "extract", "links extracted")
    root = write(case, out, os.path.join(case.scratch, "new.ptc"))
    case.equal(ptcgen.xml_links(root), want, "extract-file", "links written")
    if ids != "all" and rng.chance(30):
        # elements without an identifier: nothing is dropped silently
        out.set_alignment_method("id")
        try:
            out.extract_alignments(t1, t2)
        except Exception:
            case.seen("id_refused")
        else:
            case.seen("id_missing")
            case.equal([(x.get("from_tag"), x.get("from_id"), x.get("to_tag"), x.get("to_id")) for x in out.alignment],
                       [(a.tag, a.id, b.tag, b.id) for a, b in srt], "extract", "links extracted by missing identifiers")
        if mo:
            out.set_alignment_method(mo)
        else:
            out.alignment.attrib.pop("method", None)
        out.extract_alignments(t1, t2)
        case.equal([dict(x.attrib) for x in out.alignment], want, "extract", "links extracted again")
    if rng.chance(20):
        out.alignment.set("method", "zz")
        case.raises(AssertionError, out.extract_alignments, t1, t2, kind="bad-method", what="unknown method")
        case.raises(AssertionError, out.inject_alignments, t1, t2, kind="bad-method", what="unknown method")
        case.equal([dict(x.attrib) for x in out.alignment], want, "refused-changed", "links after refusal")
        case.seen("unknown_method")
    if links:
        case.distinct((method, mo, [(a.tag, d1.nth(a), b.tag, d2.nth(b)) for a, b in links]))
    case.sample(want)


def case_search(case):
    """which file is found: as given, relative to the corpus, next to it"""
    rng = case.rng
    base = os.path.realpath(case.scratch)
    cdir, wdir = os.path.join(base, "corpus"), os.path.join(base, "work")
    for d in ("corpus/sub", "corpus/texts", "work/texts", "other"):
        os.makedirs(os.path.join(base, d))
    kind = case.index % 4
    name = [u"texts/t.xml", u"t.xml", u"/nowhere-at-all/texts/t.xml", os.path.join(base, "other", "t.xml")][kind]
    exist = [b for b in (0, 1, 2) if case.index // 4 >> b & 1]
    old = os.getcwd()
    cands = []
    if kind == 3:
        cands.append(("given", name))
    elif kind != 2:
        cands.append(("given", os.path.join(wdir, name)))
        cands.append(("doc", os.path.join(cdir, name)))
    cands.append(("next", os.path.join(cdir, "t.xml")))
    found = None
    for i, (k, p) in enumerate(cands):
        if i in exist:
            gen.put(p, u"<doc><w>%s</w></doc>" % k)
    if any(os.path.exists(p) for _, p in cands):
        found = [c for c in cands if os.path.exists(c[1])][0]
    fn = os.path.join(cdir, "t.ptc")
    side = rng.choice(SIDES)
    other = u"zzz.xml"
    gen.put(fn, ptcgen.ptc_xml(name if side == "from" else other, name if side == "to" else other, [], "n"))
    try:
        os.chdir(wdir)
        doc = HitaextDoc(file=rng.choice([fn, "../corpus/t.ptc"]))
        got = doc.get_filename(side, search=True)
        case.equal(doc.get_filename(side), name, "name-changed", "listed name")
        if found:
            case.check(os.path.realpath(got) == os.path.realpath(found[1]), "search", "%s found as %s, expected %s (%s)", name, got, found[1], found[0])
            tree = doc.get_doc_tree(side, search=True)
            case.equal(tree.getroot().find("w").text, gen.dom_file(found[1]).find("w").text, "tree", "document read")
            case.seen("search_" + found[0])
        else:
            case.equal(got, name, "search", "name of a missing file")
            case.raises(IOError, doc.get_doc_tree, side, search=True, kind="no-error", what="reading a missing file")
            case.seen("search_none")
        if kind != 0 or True:
            here = os.path.exists(os.path.join(wdir, name))
            if here:
                doc.get_doc_tree(side)
            else:
                case.raises(IOError, doc.get_doc_tree, side, kind="no-error", what="reading without search")
    finally:
        os.chdir(old)
    case.distinct((kind, exist, side))


GROUPS = [("history", case_history, 250, 3000), ("links", case_links, 250, 3000), ("search", case_search, 32, 64)]
