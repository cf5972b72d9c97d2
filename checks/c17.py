# -*- coding: utf-8 -*-
"""C17: text spans and indexes of documents"""
import os
import gen, ptcgen
from daeso.ptc.ielemtree import IndexElemTree

RULE = ("random marked-up documents (text before, between and after elements, nested equal tags, blanks, any characters) indexed with random sets of "
        "ignored, newline and blank line tags, and again with others; every element compared with an independent computation; "
        "non-trivial = document with at least two elements")
REQUIRED = ["element", "ignored_elem", "ignored_leaf", "ignored_nested", "tail_after_ignored", "newline", "blankline", "reindexed", "unignored",
            "root_ignored", "nonascii", "id_lookup", "no_id", "same_id_other_tag", "default_update"]
ASSUMPTIONS = ["identifiers are unique among the elements with the same tag"]

TAGS = [u"div", u"p", u"s", u"w", u"head"]


def subset(rng, extra=()):
    return [t for t in TAGS + [t for t in ptcgen.ALIKE if t not in TAGS] + list(extra) if rng.chance(25)]


def compare(case, doc, tree, ign, nl, bl):
    m = ptcgen.match(case, doc, tree)
    ignored = doc.ignored(ign)
    up = doc.parents()
    whole = u""
    if doc.root not in ignored:
        whole = ptcgen.text_of(doc.root, ign, nl, bl) + (u"\n\n" if doc.root.tag in bl else u"\n" if doc.root.tag in nl else u"")
    case.equal(tree.text, whole, "text", "text of the document")
    tables = {}
    for e in doc.flat():
        case.seen("element")
        r = m[e]
        n = doc.nth(e)
        name = "%s %d" % (e.tag, n)
        case.equal(r.get("_n"), n, "n", "number of " + name)
        case.check(tree.tagCountTable[e.tag][n - 1] is r, "count-table", "%s is not found by number", name)
        tables.setdefault(e.tag, []).append(e)
        if e.id is not None:
            case.check(tree.tagIdTable[e.tag][e.id] is r, "id-table", "%s with id %s is not found by id", name, e.id)
            case.seen("id_lookup")
        else:
            case.seen("no_id")
        case.equal(r.get("_alignments"), [], "alignments", "alignments of " + name)
        if e in ignored:
            case.check(r.get("_ignore"), "not-ignored", "%s is inside an ignored element but not marked", name)
            case.equal(tree.get_elem_text(r), u"", "ignored-text", "text of ignored " + name)
            case.seen("ignored_elem")
            if not e.kids:
                case.seen("ignored_leaf")
            if up[e] in ignored:
                case.seen("ignored_nested")
            elif ptcgen.strip(e.tail) and up[e]:
                case.seen("tail_after_ignored")
            if e is doc.root:
                case.seen("root_ignored")
        else:
            case.check(not r.get("_ignore"), "ignored", "%s is marked as ignored", name)
            want = ptcgen.text_of(e, ign, nl, bl)
            case.equal(tree.get_elem_text(r), want, "elem-text", "text of " + name)
            a, b = r.get("_start"), r.get("_end")
            case.equal(b - a, len(want), "span", "length of the span of " + name)
            if any(ord(c) > 127 for c in want):
                case.seen("nonascii")
            last = a
            for k in e.kids:
                if k in ignored:
                    continue
                ka, kb = m[k].get("_start"), m[k].get("_end")
                case.check(last <= ka <= kb <= b, "nesting", "span of a %s (%s, %s) in that of %s (%s, %s) after %s", k.tag, ka, kb, name, a, b, last)
                last = kb
                if k.tag in bl:
                    case.seen("blankline")
                elif k.tag in nl:
                    case.seen("newline")
    case.equal(sorted(tree.tagCountTable), sorted(tables), "count-table", "tags with a count")
    for t in tables:
        case.equal(len(tree.tagCountTable[t]), len(tables[t]), "count-table", "elements listed for " + t)
        case.equal(set(k for k in tree.tagIdTable[t] if k is not None), set(e.id for e in tables[t] if e.id is not None), "id-table", "ids of " + t)
    return ignored


def case_doc(case):
    rng = case.rng
    doc = ptcgen.rdoc(rng, rng.choice([3, 8, 14, 14, 30, 90]), rng.choice(["all", "some", "none"]))
    byid = {}
    for e in doc.flat():
        if e.id is not None:
            byid.setdefault(e.id, set()).add(e.tag)
        if rng.chance(10):
            e.extra[u"type"] = u"x"
    if any(len(v) > 1 for v in byid.values()):
        case.seen("same_id_other_tag")
    doc.write(os.path.join(case.scratch, "d.xml"))
    tree = IndexElemTree(doc.path) if rng.chance(50) else IndexElemTree(filename=doc.path)
    sets, before = [], None
    for i in range(rng.int(1, 3)):
        ign, nl, bl = subset(rng, [doc.root.tag] if rng.chance(20) else []), subset(rng), subset(rng)
        kw = rng.weighted([(0, 1), (1, 4)])
        if not kw:
            ign, nl, bl = [], [], []
            tree.update()
            case.seen("default_update")
        else:
            tree.update(ignoreTags=list(ign), newlineTags=list(nl), blanklineTags=list(bl))
        ig = compare(case, doc, tree, ign, nl, bl)
        if i:
            case.seen("reindexed")
            if before - ig:
                case.seen("unignored")
        before = ig
        sets.append((ign, nl, bl))
    if len(doc.flat()) > 1:
        case.distinct((doc.root.xml(), sets))
    case.sample((doc.root.xml(), sets))


GROUPS = [("documents", case_doc, 500, 6000)]
