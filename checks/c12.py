# -*- coding: utf-8 -*-
"""C12: differences between two annotations"""
import os, re, StringIO
import xml.etree.cElementTree as et
import gen, c10
from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_ALL, LOAD_SPARSE
from daeso.pgc.diff import pgc_diff

RULE = ("random pairs of annotations on disk over banks with integer and other node ids, with and without begin/end, unicode texts, "
        "labels, relations and comments; all options, through the function and the script; report parsed back line by line; "
        "non-trivial = annotations that differ")
REQUIRED = ["large", "large_graphs", "relation_different", "first_only", "second_only", "identical", "words_only_dropped", "words_only_second",
            "relation_filter", "comment_shown", "comment_empty", "equal_annotations", "script", "non_ascii", "int_ids", "other_ids",
            "empty_corpus", "unknown_relation", "evaluated", "length_refused"]
ASSUMPTIONS = ["where both annotators align two nodes, the relation of the first decides whether it is among the chosen ones",
               "texts hold no line breaks"]
WORDS = u"de kat zit naïef Zoë €uro 東京 ? ! . , a b".split()
LABELS = [u"np", u"vp", u"naïef", u"<x>", u"東", u"--"]
ALLRELS = gen.RELS + [u"verschilt-één", u"extra", u"Equals", u"EXTRA", u"een verband met een lange naam A", u"een verband met een lange naam B"]


def setup(case):
    rng = case.rng
    d = case.scratch
    ints = rng.chance(50)
    large = rng.chance(5)
    if large:
        case.seen("large_graphs")
    case.seen("int_ids" if ints else "other_ids")
    graphs = []
    for i in range(rng.int(2, 4)):
        g = gen.rgraph(rng, u"g%d" % i, 8 if not large else 130, WORDS, u"" if ints else rng.choice([u"n", u"knoop-é"]))
        if ints and rng.chance(50):
            f = rng.choice([7, 12345])
            g.order = [unicode(int(x) * f + 3) for x in g.order]
            new = dict(zip([unicode(k) for k in range(len(g.order))], g.order))
            g.edges = [(new[s], new[t], l) for s, t, l in g.edges]
            g.label = dict((new[k], v) for k, v in g.label.items())
            g.ntokens = dict((new[k], v) for k, v in g.ntokens.items())
            g.root = g.root and new[g.root]
        for n in g.order:
            g.label[n] = rng.choice(LABELS)
        g.span = None
        if rng.chance(50):
            # some lack one of the two
            lack = rng.choice([0, 0, 25])
            g.span = dict((n, tuple(None if rng.chance(lack) else unicode(rng.below(20)) for _ in range(2))) for n in g.order)
        graphs.append(g)
    text = gen.graphml(graphs)
    # add begin and end
    text = text.replace(u'<key id="kr"', u'<key id="kb" for="node" attr.name="begin" attr.type="string"/>\n'
                        u'<key id="kx" for="node" attr.name="end" attr.type="string"/>\n<key id="kr"')
    parts = text.split(u'<graph id=')
    for i, g in enumerate(graphs):
        if g.span:
            for n, (b, e) in sorted(g.span.items()):
                if b is None and e is None:
                    continue
                old = u'<node id="%s">' % gen.esc(n)
                assert parts[i + 1].count(old) == 1
                new = u"".join(u'<data key="%s">%s</data>' % x for x in ((u"kb", b), (u"kx", e)) if x[1] is not None)
                parts[i + 1] = parts[i + 1].replace(old, old + new)
    bank = gen.BankModel(os.path.join(d, "bank.xml"), graphs)
    gen.put(bank.path, u'<graph id='.join(parts))
    return bank


def remark(rng):
    """lines of words and punctuation; no line is blank or looks like a ruler"""
    lines = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        lines.append(u" ".join(rng.choice(gen.WORDS) + rng.choice([u"", u"", u".", u"...", u"!", u"?", u";", u":", u",", u"/", u")", u"'", u'"', u"-", u"_"])
                               for _ in range(rng.int(1, 5))))
    return u"\n".join(l if l.strip() else u"-" for l in lines)


def annotate(rng, bank, base, rels, comment):
    pairs = []
    for p in base:
        q = p.copy()
        if comment:
            kind = rng.below(8)
            q.comment = [None, u"", u"  ", u"opm <x> & één", u"a note", u"naïef", remark(rng), remark(rng)][kind]
            if q.comment and q.comment.strip() and rng.chance(40):
                # pretty printed or padded
                q.comment = rng.choice([u"\n   ", u" ", u"\n", u"\t"]) + q.comment + rng.choice([u"", u" ", u"\n  "])
            if q.comment is not None or rng.chance(50):
                kids = () if q.comment is None else ((u"comment", (), q.comment, u"", ()),)
                first = (u"annotator", (), u"x", u"", ())
                if rng.chance(25):
                    # a comment on something else
                    first = (u"log", (), u"", u"", ((u"comment", (), u"older", u"", ()),))
                q.meta = (u"graph_meta_data", (), u"", u"", (first,) + kids)
        # what the meta-data says: random meta-data may have a comment as well
        q.comment = None
        for kid in (q.meta[4] if q.meta else ()):
            if kid[0] == u"comment":
                q.comment = kid[2]
                break
        for k in sorted(q.align):
            if k in q.align:
                r = rng.below(10)
                if r < 2:
                    del q.align[k]
                elif r < 5:
                    q.align[k] = rng.choice(rels)
        for _ in range(rng.below(4) if len(q.align) < 12 else rng.below(60)):
            q.add(rng.choice(bank.by_id[q.sg].order), rng.choice(bank.by_id[q.tg].order), rng.choice(rels))
        pairs.append(q)
    return pairs


def key(n):
    try:
        return (0, int(n))
    except ValueError:
        return (1, n)


def expect(bank, a, b, rels, words, ident):
    out = []
    for p, q in zip(a, b):
        sg, tg = bank.by_id[p.sg], bank.by_id[p.tg]
        sets = dict(ident=[], rel=[], first=[], second=[])
        for k in set(p.align) | set(q.align):
            r1, r2 = p.align.get(k), q.align.get(k)
            if rels and (r1 or r2) not in rels:
                continue
            if words and sg.kids(k[0]) and tg.kids(k[1]):
                continue
            name = "first" if r2 is None else "second" if r1 is None else "ident" if r1 == r2 else "rel"
            if name == "ident" and not ident:
                continue
            sets[name].append(k + (r1, r2))
        out.append(sets)
    return out


ENTRY = re.compile(u'^\\((.*?)\\) (.*) \\[(.*?):(.*?)\\]: "(.*)"$')


def parse(case, text):
    """report -> (title, pairs); pair = dict(no, texts, comments, sections)"""
    lines = text.decode("utf-8").split(u"\n")
    title, pairs, i = None, [], 0
    num = 0
    while i < len(lines):
        l = lines[i]
        ch = l[:1]
        n = len(l)
        if ch and ch in u"#=-" and n in (80, 120) and l == ch * n:
            j = i + 1
            while lines[j] != l:
                j += 1
            head = lines[i + 1:j]
            i = j + 1
            if ch == u"#":
                case.check(title is None and not pairs, "report", "second title %s", head)
                title = head
            elif ch == u"=":
                m = re.match(u"Graph pair (\\d+)$", head[0])
                case.check(m and len(head) == 1, "report", "heading %s", head)
                pairs.append(dict(no=int(m.group(1)), texts=[], comments=[], sections=[]))
            else:
                case.check(pairs and len(head) == 1, "report", "heading %s", head)
                if head[0].startswith(u"Comments by "):
                    body = []
                    # blank lines before the comment
                    while i < len(lines) and not lines[i].strip():
                        i += 1
                    while i < len(lines) and lines[i].strip():
                        body.append(lines[i])
                        i += 1
                    pairs[-1]["comments"].append((head[0][12:], u"\n".join(body).strip()))
                else:
                    pairs[-1]["sections"].append((head[0], []))
            continue
        if l.startswith(u"#"):
            m = re.match(u"#(\\d+):$", l.strip())
            case.check(m and pairs and pairs[-1]["sections"], "report", "line %s", l)
            s, r, t = ENTRY.match(lines[i + 1]), re.match(u"<<< (.*) / (.*) >>>$", lines[i + 2]), ENTRY.match(lines[i + 3])
            case.check(s and r and t, "report", "entry %s", lines[i:i + 4])
            num += 1
            case.equal(int(m.group(1)), num, "numbering", "alignment number")
            pairs[-1]["sections"][-1][1].append((s.groups(), r.groups(), t.groups()))
            i += 4
            continue
        if l.strip():
            case.check(pairs and not pairs[-1]["sections"] and not pairs[-1]["comments"], "report", "unexpected line %s", l)
            pairs[-1]["texts"].append(l.rstrip())
        i += 1
    return title, pairs


def node(g, n):
    b, e = [x or u"" for x in g.span[n]] if g.span else (u"", u"")
    return n, g.label[n], b, e, u" ".join(g.ntokens[n])


def verify(case, text, bank, a, b, want, an1, an2, comments, names):
    title, pairs = parse(case, text)
    case.check(title is not None, "title", "no title")
    for x, nm in zip((an1, an2), names):
        case.check(any(x.decode("utf-8") in t and nm in t for t in title), "title", "%s not in title %s", (x, nm), title)
    case.equal([p["no"] for p in pairs], range(1, len(a) + 1), "pairs", "pairs reported")
    heads = dict(ident=u"Identical", rel=u"Relation different", first=an1.decode("utf-8") + u" only",
                 second=an2.decode("utf-8") + u" only")
    for got, p, q, sets in zip(pairs, a, b, want):
        sg, tg = bank.by_id[p.sg], bank.by_id[p.tg]
        case.equal(got["texts"], [u" ".join(sg.tokens), u" ".join(tg.tokens)], "texts", "sentences of pair %d" % got["no"])
        exp = []
        if comments:
            for x, an in ((p, an1), (q, an2)):
                if (x.comment or u"").strip():
                    exp.append((an.decode("utf-8"), x.comment.strip()))
                    case.seen("comment_shown")
                elif x.comment is not None:
                    case.seen("comment_empty")
        case.equal(got["comments"], exp, "comments", "comments of pair %d" % got["no"])
        case.equal([s[0] for s in got["sections"]], [heads[k] for k in ("ident", "rel", "first", "second") if sets[k]],
                   "sections", "headings of pair %d" % got["no"])
        sec = dict(got["sections"])
        for k in sets:
            w = sorted((node(sg, s), (unicode(r1).upper(), unicode(r2).upper()), node(tg, t)) for s, t, r1, r2 in sets[k])
            g = sec.get(heads[k], [])
            case.equal(sorted(g), w, "alignments", "%s of pair %d" % (heads[k], got["no"]))
            src = [key(e[0][0]) for e in g]
            case.equal(src, sorted(src), "order", "order of source nodes")


def case_diff(case):
    rng = case.rng
    bank = setup(case)
    rels = list(gen.RELS) if rng.chance(70) else rng.sample(ALLRELS, rng.int(2, 7))
    base = []
    n = rng.weighted([(0, 4), (1, 16), (2, 16), (5, 8), (30, 1)])
    if n > 25:
        case.seen("large")
    for _ in range(n):
        base.append(gen.rpairmodel(rng, [bank], rng.chance(20), rels, 6 if len(bank.graphs[0].order) < 26 else 300))
    a = annotate(rng, bank, base, rels, True)
    b = annotate(rng, bank, base, rels, True)
    kind = rng.weighted([("differ", 8), ("equal", 2)])
    if kind == "equal":
        for p, q in zip(a, b):
            q.align = dict(p.align)
    r1 = list(rels) if rng.chance(60) else rng.sample(rels, rng.int(0, len(rels)))
    fns = []
    for i, (pairs, r) in enumerate(((a, r1), (b, rels))):
        fn = os.path.join(case.scratch, "corpus %d.pgc" % (i + 1))
        m = gen.CorpusModel(r, None, pairs)
        gen.put(fn, gen.pgc_xml(rng, m, case.scratch, [("b", bank.path, bank.path)]))
        fns.append(fn)
    chosen = None
    if rng.chance(40):
        chosen = rng.sample(rels, rng.int(1, 2))
        case.seen("relation_filter")
    elif rng.chance(10):
        chosen = []
    words, comments, ident = False, rng.chance(50), rng.chance(50)
    script = rng.chance(30)
    if not script:
        words = rng.chance(40)
    an1, an2 = rng.choice([("Annot1", "Annot2"), ("First annotator", "Second annotator"), ("EM", "ZoÃ«".decode("utf-8").encode("latin-1"))])
    names = fns
    before = [gen.get(f) for f in fns]
    if script:
        args = []
        if an1 != "First annotator":
            args += [rng.choice(["-1", "--first_annotator"]), an1, rng.choice(["-2", "--second_annotator"]), an2]
        if comments:
            args.append(rng.choice(["-c", "--with_comments"]))
        if ident:
            args.append(rng.choice(["-i", "--with_ident"]))
        args += fns
        if chosen is not None:
            args += [rng.choice(["-r", "--relations"])] + [r.encode("utf-8") for r in chosen]
            # the command line knows bytes only
            if any(ord(c) > 127 for r in chosen for c in r):
                return
        code, text, err = gen.run_script("pgc_diff.py", args, case.scratch)
        case.equal(code, 0, "script", "exit status (%s)" % err[-300:])
        case.seen("script")
        if rels == gen.RELS and rng.chance(60):
            # the measures come after the same text
            ev = rng.choice(["-e", "--evaluate", "--eval"])
            code, both, err = gen.run_script("pgc_diff.py", [ev] + args if rng.chance(50) else args[:-len(fns)] + [ev] + args[-len(fns):] if chosen is None else [ev] + args, case.scratch)
            case.equal(code, 0, "script", "exit status with %s (%s)" % (ev, err[-300:]))
            case.check(both.startswith(text), "evaluate", "other differences with %s: %r", ev, both)
            ex = c10.Expected([([p.align for p in a], [p.align for p in b])], ["equals", "restates", "specifies", "generalizes", "intersects"])
            c10.check_report(case, both[len(text):], ex, ["part1"])
            case.seen("evaluated")
        else:
            case.check("Alignment only" not in text, "evaluate", "measures without being asked")
    else:
        mode = rng.choice([LOAD_ALL, LOAD_SPARSE])
        c1, c2 = [ParallelGraphCorpus(inf=f, graph_loading=mode) for f in fns]
        k1, k2 = gen.corpus_key(c1), gen.corpus_key(c2)
        kw = {}
        if rng.chance(50) or an1 != "Annot1":
            kw.update(annot1=an1, annot2=an2)
        names = ["Corpus1", "Corpus2"]
        if rng.chance(50):
            names = fns
            kw.update(corpus_name1=fns[0], corpus_name2=fns[1])
        if chosen is not None:
            kw["relations"] = list(chosen)
        if words:
            kw["words_only"] = True
        if comments:
            kw["show_comments"] = True
        if ident:
            kw["show_ident"] = True
        where = rng.below(3)
        gen.TAP.take()
        if where == 0:
            out = StringIO.StringIO()
            pgc_diff(c1, c2, out=out, **kw)
            text = out.getvalue()
            case.equal(gen.TAP.take(), "", "stray-output", "standard output")
        elif where == 1:
            fn = os.path.join(case.scratch, "out")
            f = open(fn, "w")
            pgc_diff(c1, c2, out=f, **kw)
            f.close()
            text = gen.get(fn)
        else:
            pgc_diff(c1, c2, **kw)
            text = gen.TAP.take()
        case.equal((gen.corpus_key(c1), gen.corpus_key(c2)), (k1, k2), "corpus-changed", "corpora")
        if len(c1) and rng.chance(15):
            # corpora of other lengths have no differences pair by pair
            x, y = rng.choice([(c1, c2[:-1]), (c1[1:], c2), (c1[:0], c2)])
            try:
                pgc_diff(x, y, out=StringIO.StringIO())
            except Exception:
                case.seen("length_refused")
            else:
                case.fail("lengths", "corpora of %d and %d pairs compared", len(x), len(y))
    want = expect(bank, a, b, chosen, words, ident)
    verify(case, text, bank, a, b, want, an1, an2, comments, names)
    case.equal([gen.get(f) for f in fns], before, "input-changed", "corpus files")
    for s in want:
        for k, o in (("rel", "relation_different"), ("first", "first_only"), ("second", "second_only"), ("ident", "identical")):
            if s[k]:
                case.seen(o)
            for e in s[k]:
                if (e[2] or e[3]) not in r1:
                    case.seen("unknown_relation")
                if any(ord(c) > 127 for x in e if x for c in x):
                    case.seen("non_ascii")
    if words:
        full = expect(bank, a, b, chosen, False, ident)
        if full != want:
            case.seen("words_only_dropped")
        if any(s["second"] for s in want):
            case.seen("words_only_second")
    if kind == "equal" and base and not ident:
        case.seen("equal_annotations")
        case.check("#1:" not in text, "equal-reported", "equal annotations reported: %s", text)
    if not base:
        case.seen("empty_corpus")
    if any(s["rel"] or s["first"] or s["second"] for s in want):
        case.distinct(want)
    case.sample(want)


GROUPS = [("diff", case_diff, 360, 6000)]
