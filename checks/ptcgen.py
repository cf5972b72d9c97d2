# -*- coding: utf-8 -*-
"""Random marked-up documents and text corpora, and an independent model of them."""
import os
import gen
from gen import esc

WORDS = (u"de kat zit op mat vandaag premier Balkenende zegt dat het regent "
         u"a b c 12 ? ! . , naïeve Zoë €uro 東京 < & \"q\"").split()


class El(object):
    """element of a document, by construction"""
    def __init__(self, tag, id=None):
        self.tag, self.id = tag, id
        self.text, self.tail, self.kids = u"", u"", []
        self.extra = {}

    def flat(self):
        out = [self]
        for k in self.kids:
            out += k.flat()
        return out

    def xml(self):
        at = u"".join(u' %s="%s"' % (k, esc(v)) for k, v in sorted(self.extra.items()))
        if self.id is not None:
            at = u' id="%s"' % esc(self.id) + at
        return u"<%s%s>%s%s</%s>%s" % (self.tag, at, esc(self.text),
                                       u"".join(k.xml() for k in self.kids), self.tag, esc(self.tail))


class Doc(object):
    def __init__(self, root):
        self.root = root
        self.path = None

    def flat(self):
        return self.root.flat()

    def tagged(self, tag):
        return [e for e in self.flat() if e.tag == tag]

    def nth(self, e):
        for i, x in enumerate(self.tagged(e.tag)):
            if x is e:
                return i + 1

    def by_id(self, tag, id):
        for e in self.tagged(tag):
            if e.id == id:
                return e

    def parents(self):
        up = {self.root: None}
        for e in self.flat():
            for k in e.kids:
                up[k] = e
        return up

    def ignored(self, tags):
        """set of elements inside (or being) an ignored element"""
        out, up = set(), self.parents()
        for e in self.flat():
            if e.tag in tags or up[e] in out:
                out.add(e)
        return out

    def write(self, path):
        if not os.path.isdir(os.path.dirname(path)):
            os.makedirs(os.path.dirname(path))
        gen.put(path, u'<?xml version="1.0" encoding="utf-8"?>\n' + self.root.xml() + u"\n")
        self.path = path


def strip(t):
    return t.strip(u" \t\n\r")


def text_of(e, ign=(), nl=(), bl=()):
    """text of a visible element"""
    out = strip(e.text)
    for k in e.kids:
        if k.tag not in ign:
            out += text_of(k, ign, nl, bl) + (u"\n\n" if k.tag in bl else u"\n" if k.tag in nl else u"")
        out += strip(k.tail)
    return out


def piece(rng, words=WORDS, mx=6):
    if rng.chance(25):
        return rng.choice([u"", u"", u" ", u"\n  "])
    t = u" ".join(rng.choice(words) for _ in range(rng.int(1, mx)))
    return rng.choice([u"", u" ", u"\n\t"]) + t + rng.choice([u"", u"  ", u"\n"])


TAGS = (u"div", u"p", u"s", u"w", u"head")
# alike for most of their length, or but for case
ALIKE = (u"P", u"p", u"section_heading", u"section_heading_a", u"section_heading_b", u"s")


def rdoc(rng, maxn=14, ids="all", words=WORDS, tags=TAGS, root=None, unique=False):
    """random document; ids: all, some or none of the elements have an id"""
    if tags is TAGS and rng.chance(25):
        tags = ALIKE
    n = rng.int(1, maxn)
    els, count, off = [], {}, rng.below(3)
    for i in range(n):
        if i == 0:
            e = El(root or rng.choice([u"doc", u"text", u"p"]))
        else:
            e = El(rng.choice(list(tags)))
            p = els[rng.below(len(els))] if rng.chance(50) else els[max(0, len(els) - 1 - rng.below(3))]
            p.kids.append(e)
        els.append(e)
        e.text = piece(rng, words)
        if i:
            e.tail = piece(rng, words) if rng.chance(40) else u""
    doc = Doc(els[0])
    seq = doc.flat()
    nums = dict((e, k) for k, e in enumerate(rng.shuffle(list(seq))))
    for e in seq:
        count[e.tag] = count.get(e.tag, off) + 1
        if ids == "all" or (ids == "some" and rng.chance(50)):
            if unique:
                e.id = u"%s%d" % (e.tag, nums[e])
            else:
                # the same identifier may occur on other tags
                e.id = unicode(count[e.tag])
    return doc


class Link(object):
    def __init__(self, s, t):
        self.s, self.t = s, t


def rlinks(rng, d1, d2, n, stags=None, ttags=None, dup=False):
    out, have = [], set()
    s_all = [e for e in d1.flat() if stags is None or e.tag in stags]
    t_all = [e for e in d2.flat() if ttags is None or e.tag in ttags]
    if not s_all or not t_all:
        return out
    for _ in range(n):
        a, b = rng.choice(s_all), rng.choice(t_all)
        if (a, b) in have and not dup:
            continue
        have.add((a, b))
        out.append((a, b))
    return out


def link_attrs(d1, d2, link, method):
    a, b = link
    if method == "id":
        return dict(from_tag=a.tag, from_id=a.id, to_tag=b.tag, to_id=b.id)
    return dict(from_tag=a.tag, from_n=unicode(d1.nth(a)), to_tag=b.tag, to_n=unicode(d2.nth(b)))


def ptc_xml(fn1, fn2, links, method, extra_font=u"", elements=(u"", u"")):
    """text of a corpus file; links: list of attribute dictionaries"""
    out = [u'<?xml version="1.0" encoding="utf-8"?>\n<hitaext>']
    for side, fn, els in (("from", fn1, elements[0]), ("to", fn2, elements[1])):
        out.append(u'<%s><filename>%s</filename><render><font%s /><elements>%s</elements></render></%s>\n'
                   % (side, esc(unicode(fn)), extra_font, els, side))
    out.append(u'<alignment%s>\n' % (u' method="%s"' % method if method else u""))
    for at in links:
        out.append(u'<link %s/>\n' % u" ".join(u'%s="%s"' % (k, esc(v)) for k, v in sorted(at.items())))
    out.append(u'</alignment></hitaext>\n')
    return u"".join(out)


def xml_links(root):
    """links of a corpus file read by the reference reader"""
    return [dict(k.attrib) for k in root.find("alignment").kids]


def match(case, doc, tree, what="tree"):
    """elements of a real tree by element of the model, in document order"""
    real = list(tree.getroot().getiterator())
    seq = doc.flat()
    case.equal([e.tag for e in real], [e.tag for e in seq], "elements", what + ": elements in document order")
    return dict(zip(seq, real))


STOP = [u"de", u"het", u"op"]


def stub_nl():
    """daeso.ptc.textalign imports a stop word list from another package that
    is not part of this repository"""
    import sys
    import types
    import string
    if "daeso_nl" in sys.modules:
        return

    def remove_stopwords(words, ignore_case=False, remove_punc=False):
        return [w for w in words if (w.lower() if ignore_case else w) not in STOP
                and not (remove_punc and w in string.punctuation)]
    names = ["daeso_nl", "daeso_nl.string", "daeso_nl.string.stopword"]
    for n in names:
        m = types.ModuleType(n)
        m.__path__ = []
        sys.modules[n] = m
        if "." in n:
            setattr(sys.modules[n.rsplit(".", 1)[0]], n.rsplit(".", 1)[1], m)
    sys.modules[names[2]].remove_stopwords = remove_stopwords


def alike(rng, d1, d2, tag):
    """links whose numbers coincide when written without space between: 1 to 12 and 11 to 2"""
    groups = {}
    for a in d1.tagged(tag):
        for b in d2.tagged(tag):
            groups.setdefault(u"%s%s" % (d1.nth(a), d2.nth(b)), []).append((a, b))
    out = [groups[k] for k in sorted(groups) if len(groups[k]) > 1]
    return rng.choice(out) if out else []


def two_corpora(rng, directory, n=12, dup=True, words=WORDS, methods=("n", "id", None), tag=None, ids=None, many=False):
    """two documents with two alignments of them; returns (doc, doc, links 1,
    links 2, file 1, file 2, methods)"""
    ids = ids or rng.choice(["all", "all", "none"])
    tags = (u"div", u"p", u"s", u"s", u"w") if not many else (tag,) * 6 + (u"p",)
    d1, d2 = ptcdocs = [rdoc(rng, n, ids, words, tags) for _ in range(2)]
    for i, d in enumerate(ptcdocs):
        d.write(os.path.join(directory, "doc%d.xml" % i))
    stags = None if tag is None or rng.chance(50) else [tag]
    l1 = rlinks(rng, d1, d2, rng.below(9), stags, stags, dup)
    l2 = [l for l in l1 if rng.chance(60)] + rlinks(rng, d1, d2, rng.below(5), stags, stags, dup)
    if many:
        l1 += [l for l in rlinks(rng, d1, d2, rng.int(0, 60), [tag], [tag], dup) if dup or l not in l1]
        for x in alike(rng, d1, d2, tag):
            # one or both in one or both
            for ls in (l1, l2):
                if rng.chance(60) and x not in ls:
                    ls.append(x)
    if not dup:
        l2 = [l for i, l in enumerate(l2) if l not in l2[:i]]
    rng.shuffle(l2)
    if rng.chance(10):
        l2 = list(l1)
    if rng.chance(8):
        l1 = []
    if rng.chance(8):
        l2 = []
    fns, ms = [], []
    for i, ls in enumerate((l1, l2)):
        m = rng.choice(list(methods)) if ids == "all" else rng.choice([x for x in methods if x != "id"])
        fn = os.path.join(directory, ("true.ptc", "pred.ptc")[i])
        gen.put(fn, ptc_xml(d1.path, d2.path, [link_attrs(d1, d2, l, m) for l in ls], m))
        fns.append(fn)
        ms.append(m)
    return d1, d2, l1, l2, fns[0], fns[1], ms
