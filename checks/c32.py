# -*- coding: utf-8 -*-
"""C32: text corpus scripts"""
import os, shutil
import gen, ptcgen, c19

RULE = ("the ptc scripts run on random text corpora (hand-made, with extra content) in scratch directories, their files and output compared "
        "with the model; non-trivial = corpus with links")
REQUIRED = ["large", "n_to_id", "n_to_id_several", "n_to_id_shared", "chdir_colon", "n_to_id_already", "n_to_id_no_ids", "chdir", "chdir_several", "chdir_windows", "chdir_strip", "chdir_test",
            "chdir_short", "diff", "eval", "eval_several", "verbose", "other_files", "change_told"]
ASSUMPTIONS = ["identifiers are unique among the elements with the same tag"]

EXTRA = u' face="Arial" size="14"'
ELS = (u'<p ignore="False" newline="True"/><s skip="True"/>', u'<s blankline="True"/>')


def snapshot(d):
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            out[os.path.join(b, f)] = gen.get(os.path.join(b, f))
    return out


def others(case, before, d, changed):
    after = snapshot(d)
    case.equal(sorted(after), sorted(before), "files", "files in the directory")
    for p in before:
        if p not in changed:
            case.equal(after[p], before[p], "other-file", "file %s" % p)
    case.seen("other_files")


def case_n_to_id(case):
    rng = case.rng
    base = os.path.realpath(case.scratch)
    fns, want, docs = [], [], []
    bad = rng.chance(12)
    for k in range(rng.int(1, 3)):
        d = os.path.join(base, "d%d" % k)
        ids = "none" if bad and k == 0 else "all"
        if docs and not bad and rng.chance(50):
            # corpora may share documents, on either side
            d1, d2 = rng.choice(docs), rng.choice(docs)
            if rng.chance(50):
                d2 = ptcgen.rdoc(rng, 12, ids)
                d2.write(os.path.join(d, "b.xml"))
            case.seen("n_to_id_shared")
        else:
            big = 12 if rng.chance(95) else 80
            d1, d2 = ptcgen.rdoc(rng, big, ids), ptcgen.rdoc(rng, big, ids)
            if big > 12:
                case.seen("large")
            d1.write(os.path.join(d, "a.xml"))
            d2.write(os.path.join(d, "b.xml"))
        docs += [d1, d2]
        if not os.path.isdir(d):
            os.makedirs(d)
        links = ptcgen.rlinks(rng, d1, d2, rng.int(1 if ids == "none" else 0, rng.choice([9] * 12 + [60])), dup=True)
        m = "n" if ids == "none" else rng.choice(["n", "n", None, "id"])
        if m == "id":
            case.seen("n_to_id_already")
        fn = os.path.join(d, "corpus.ptc")
        gen.put(fn, ptcgen.ptc_xml(d1.path, d2.path, [ptcgen.link_attrs(d1, d2, l, m) for l in links], m, EXTRA, ELS))
        order = dict((e, i) for i, e in enumerate(d1.flat()))
        srt = sorted(links, key=lambda l: order[l[0]])
        fns.append(fn)
        want.append(None if ids == "none" else (d1.path, d2.path, [ptcgen.link_attrs(d1, d2, l, "id") for l in srt]))
    before = snapshot(base)
    cwd = None
    args = list(fns)
    if rng.chance(30) and len(fns) == 1:
        cwd, args = os.path.dirname(fns[0]), ["corpus.ptc"]
    if rng.chance(30):
        args = ["-V"] + args
        case.seen("verbose")
    if bad:
        try:
            code = gen.run_script("ptc_n_to_id.py", args[-1:] if cwd else [fns[0]], cwd)[0]
        except Exception:
            code = 1
        case.check(code != 0, "no-error", "corpus without identifiers is converted")
        others(case, before, base, [])
        case.seen("n_to_id_no_ids")
        return
    code, out, err = gen.run_script("ptc_n_to_id.py", args, cwd)
    case.equal(code, 0, "exit", "exit status (%s)" % err)
    case.equal(out, "", "output", "standard output")
    case.check(bool(told(err)) == ("-V" in args), "verbose", "messages with %s: %r", args, err)
    for fn, (p1, p2, links) in zip(fns, want):
        root = gen.dom_file(fn)
        case.equal(gen.canon(root), gen.canon(gen.dom_bytes(ptcgen.ptc_xml(p1, p2, links, "id", EXTRA, ELS).encode("utf-8"))), "content", "content of " + fn)
        case.seen("n_to_id")
    if len(fns) > 1:
        case.seen("n_to_id_several")
    others(case, before, base, fns)
    if any(w[2] for w in want):
        case.distinct([w[2] for w in want])
    case.sample(want)


NAMES = [(u"a.xml", u"a.xml"), (u"texts/b c.xml", u"b c.xml"), (u"/abs/x/y.xml", u"y.xml"), (u"C:\\docs\\t.xml", u"t.xml"), (u"C:t.xml", u"t.xml"),
         (u"d:\\x\\é.xml", u"é.xml"), (u"..\\up\\t.xml", u"t.xml"), (u"A", u"A"), (u"x", u"x"), (u"./AB.xml", u"AB.xml"), (u"a&b.xml", u"a&b.xml"),
         (u"../../Z", u"Z"), (u"a/s:1.xml", u"s:1.xml"), (u"x:y.xml", u"x:y.xml"), (u"C:\\d\\x:y z.xml", u"x:y z.xml"), (u"/a.b/C:t.xml", u"C:t.xml"),
         (u"..", u".."), (u"dir/.hidden", u".hidden"), (u"D:/q w/%41.xml", u"%41.xml")]


def told(err):
    """messages without warnings of the library"""
    if isinstance(err, str):
        err = err.decode("utf-8")
    return u"\n".join(l for l in err.split(u"\n") if l.strip() and not l.startswith(u"  ") and u"Warning: " not in l)


def case_chdir(case):
    rng = case.rng
    base = os.path.realpath(case.scratch)
    new = rng.choice([None, "", "new", "/abs/new dir", "new/", "../x/y"])
    fns, names, links, meth = [], [], [], []
    for k in range(rng.int(1, 3)):
        fn = os.path.join(base, "corpus%d.ptc" % k)
        n = rng.choice(NAMES), rng.choice(NAMES)
        m = rng.choice(["n", "id", None])
        ls = [dict(from_tag=u"s", from_n=u"1", to_tag=u"p", to_n=unicode(i)) for i in range(rng.below(4))]
        gen.put(fn, ptcgen.ptc_xml(n[0][0], n[1][0], ls, m, EXTRA, ELS))
        fns.append(fn)
        names.append(n)
        links.append(ls)
        meth.append(m)
        for x in n:
            if u"\\" in x[0] or x[0][1:2] == u":":
                case.seen("chdir_windows")
            if u":" in x[1]:
                case.seen("chdir_colon")
            if len(x[0]) == 1:
                case.seen("chdir_short")
    before = snapshot(base)
    args = [] if new is None else ["-d", new]
    if not new:
        case.seen("chdir_strip")
    test = rng.chance(20)
    if test:
        args.append("-t")
        case.seen("chdir_test")
    if rng.chance(30):
        args.append("-V")
        case.seen("verbose")
    cwd = None
    pos = list(fns)
    if rng.chance(30):
        cwd, pos = base, [os.path.basename(f) for f in fns]
    code, out, err = gen.run_script("ptc_chdir.py", pos + args, cwd)
    case.equal(code, 0, "exit", "exit status (%s)" % err)
    case.equal(out, "", "output", "standard output")
    loud = test or "-V" in args
    case.check(bool(told(err)) == loud, "verbose", "messages with %s: %r", args, err)
    if loud:
        # what is changed into what
        said = told(err)
        for fn, n in zip(pos, names):
            case.check(fn in said, "verbose", "%s is not in %r", fn, said)
            for x in n:
                for y in (x[0], os.path.join(unicode(new or ""), x[1])):
                    case.check(y in said, "verbose", "%s is not in %r", y, said)
                    case.seen("change_told")
    if test:
        others(case, before, base, [])
    else:
        for fn, n, ls, m in zip(fns, names, links, meth):
            n1, n2 = [os.path.join(unicode(new or ""), x[1]) for x in n]
            want = gen.dom_bytes(ptcgen.ptc_xml(n1, n2, ls, m, EXTRA, ELS).encode("utf-8"))
            case.equal(gen.canon(gen.dom_file(fn)), gen.canon(want), "content", "content of " + fn)
            case.seen("chdir")
        others(case, before, base, fns)
    if len(fns) > 1:
        case.seen("chdir_several")
    case.distinct((names, new, args))
    case.sample((names, new, args))


def case_report(case):
    rng = case.rng
    base = os.path.realpath(case.scratch)
    tag = rng.choice([u"s", u"s", u"p"])
    targ = [] if tag == u"s" and rng.chance(50) else [str(tag)]
    if rng.chance(50):
        d1, d2, l1, l2, f1, f2, ms = ptcgen.two_corpora(rng, base, 12, False, tag=tag)
        want = c19.diff_model(case, l1, l2, tag)
        before = snapshot(base)
        args = [f1, f2] + (["-t"] + targ if targ else [])
        enc = "utf-8"
        if rng.chance(30):
            enc = "utf-8" if rng.chance(50) else "utf8"
            args += ["-e", enc]
        code, out, err = gen.run_script("ptc_diff.py", args)
        case.equal(code, 0, "exit", "exit status (%s)" % err)
        case.equal(sorted(c19.diff_blocks(case, out, enc)), want, "diff", "differences")
        case.seen("diff")
    else:
        files, sets, keep = [], [], []
        for i in range(rng.int(1, 3)):
            d1, d2, l1, l2, f1, f2, ms = ptcgen.two_corpora(rng, os.path.join(base, "d%d" % i), 12, True, methods=("id",), tag=tag, ids="all")
            files.append((f1, f2))
            sets.append((l1, l2))
            keep.append((d1, d2))
        before = snapshot(base)
        args = ["-t"] + [a for a, b in files] + ["-p"] + [b for a, b in files] + (["--tag"] + targ if targ else [])
        code, out, err = gen.run_script("ptc_eval.py", args)
        case.equal(code, 0, "exit", "exit status (%s)" % err)
        c19.check_eval(case, out, sets, tag, ["pred.ptc"] * len(files))
        case.seen("eval")
        if len(files) > 1:
            case.seen("eval_several")
    others(case, before, base, [])
    case.distinct(out)
    case.sample(out)


GROUPS = [("n_to_id", case_n_to_id, 150, 1500), ("chdir", case_chdir, 150, 1500), ("report", case_report, 150, 1500)]
