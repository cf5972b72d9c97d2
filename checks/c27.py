# -*- coding: utf-8 -*-
"""C27: corpus scripts"""
import os, zipfile, shutil
import gen
from daeso.pgc.corpus import ParallelGraphCorpus

RULE = ("the pgc scripts run on random corpora (hand-made files with meta-data and banks in several directories); the files they write, read by an independent "
        "XML reader, and their output are compared with the generator's model; non-trivial = corpus with graph pairs")
REQUIRED = ["split_parts", "split_uneven", "split_more_parts_than_pairs", "split_size", "split_exact", "joined_parts", "join_pattern", "join_incompatible",
            "zip_shared_bank", "zip_read", "zip_cross", "cp_file", "cp_dir", "cp_overwrite", "cp_kept", "cp_same", "cp_bad", "cp_missing_banks", "chdir", "chdir_no_match", "chdir_recurring", "split_many", "chdir_test",
            "chdir_meta_trap", "chdir_blanks", "chdir_told", "extract", "extract_verbose", "extract_delimiter", "extract_empty", "verbose"]
ASSUMPTIONS = ["banks zipped together have different names", "files to join are given in sorted order or as patterns (documented as sorted)"]

FILE_TRAP = ("corpus_meta_data", (), u"", u"", (("file", (("id", u"1"),), u"../gb/x.xml", u"", ()), ("graphbanks", (), u"", u"", (("file", (), u"../gb/y", u"", ()),))))


def snap(d):
    out = {}
    for b, ds, fs in os.walk(d):
        for f in fs + [x for x in ds if os.path.islink(os.path.join(b, x))]:
            p = os.path.join(b, f)
            out[p] = gen.get(p) if os.path.isfile(p) else None
    return out


def unchanged(case, before, after, new=(), changed=()):
    case.equal(sorted(after), sorted(set(before) | set(new)), "files", "files present afterwards")
    for p in before:
        if p not in changed:
            case.check(after[p] == before[p], "changed", "%s changed", p)


def make(case, name, banks, base=None, model=None, maxpairs=6, rels=None, meta=True):
    """corpus file below base; returns (path, model)"""
    rng = case.rng
    base = base or case.scratch
    m = model or gen.rmodel(rng, banks, maxpairs, rels=rels, meta=meta)
    fn = os.path.join(base, name)
    if not os.path.isdir(os.path.dirname(fn)):
        os.makedirs(os.path.dirname(fn))
    entries = []
    for i, b in enumerate(banks):
        rel = os.path.relpath(b.path, os.path.dirname(fn))
        entries.append((u"k%d" % i, b.path if rng.chance(20) else rel, b.path))
        if rng.chance(15):
            entries.append((u"again%d" % i, rel, b.path))
    gen.put(fn, gen.pgc_xml(rng, m, case.scratch, entries))
    return fn, m


def same(case, path, m, kind="content"):
    got, files = gen.xml_key(gen.dom_file(path), os.path.dirname(path))
    d = gen.diff_key(got, m.key())
    case.check(not d, kind, "%s: %s", os.path.basename(path), d)
    for i in files:
        case.equal(files[i][1], gen.fmt(files[i][0]), "format", "bank format")


def flags(case, *opts):
    out = [o for o in opts if case.rng.chance(30)]
    if "-V" in out or "--verbose" in out:
        case.seen("verbose")
    return out


def case_split(case):
    rng = case.rng
    base = os.path.realpath(case.scratch)
    banks = gen.rbanks(rng, base, rng.int(1, 3))
    fn, m = make(case, rng.choice(["c.pgc", "my corpus.v1.pgc", "sub/x.xml"]), banks, base, maxpairs=rng.choice([1, 3, 6, 12, 25, 70]))
    n = len(m.pairs)
    args, cwd = [fn], None
    if rng.chance(30):
        args, cwd = [os.path.basename(fn)], os.path.dirname(fn)
    args += flags(case, "-f", "-V")
    before = snap(base)
    if rng.chance(35):
        s = rng.choice([1, 2, 3, 5, 7, n or 1, n + 3] if n < 26 else [1, 2, n])
        args += [rng.choice(["-s", "--size"]), str(s)]
        sizes = [min(s, n - i) for i in range(0, n, s)]
        case.seen("split_size")
    else:
        p = 2
        if rng.chance(80):
            p = rng.choice([1, 2, 3, 4, 5, 7, n or 1, n + 2] if n < 26 else [n, 27, 3])
            args += [rng.choice(["-p", "--parts"]), str(p)]
        sizes = None
        case.seen("split_parts")
        if n % p:
            case.seen("split_uneven")
        elif n > p:
            case.seen("split_exact")
        if p > n:
            case.seen("split_more_parts_than_pairs")
    code, out, err = gen.run_script("pgc_split.py", args, cwd)
    case.equal(code, 0, "exit", "exit status (%s)" % err)
    case.equal(out, "", "output", "output")
    after = snap(base)
    root, ext = os.path.splitext(fn)
    parts = sorted(set(after) - set(before))
    unchanged(case, before, after, parts)
    bounds = []
    for x in parts:
        case.check(x.startswith(root + "_") and x.endswith(ext), "part-name", "part is named %s", x)
        i, j = [int(k) for k in x[len(root) + 1:len(x) - len(ext)].split("-")]
        bounds.append((i, j))
    case.equal([k for i, j in bounds for k in range(i, j + 1)], range(1, n + 1), "parts-cover", "numbers of graph pairs in part names")
    got = [j - i + 1 for i, j in bounds]
    if sizes is not None:
        case.equal(got, sizes, "part-sizes", "sizes of parts")
    else:
        case.equal(len(parts), min(p, n), "part-count", "number of parts of %d graph pairs" % n)
    for x, (i, j) in zip(parts, bounds):
        same(case, x, gen.CorpusModel(m.relations, m.meta, m.pairs[i - 1:j]), "part-content")
    # and back
    if parts:
        pats = parts
        if rng.chance(50):
            pats = [root + "_*" + ext]
            case.seen("join_pattern")
        code, out, err = gen.run_script("pgc_join.py", flags(case, "-f", "--verbose") + pats, base)
        case.equal(code, 0, "exit", "exit status (%s)" % err)
        d = gen.diff_key(gen.xml_key(gen.dom_bytes(out), base)[0], m.key())
        case.check(not d, "joined", "parts joined: %s", d)
        case.seen("joined_parts")
        unchanged(case, after, snap(base))
    if n:
        case.distinct((n, got, m.key()))
    case.sample(dict(pairs=n, args=args[1:], sizes=got))


def case_many(case):
    """more graph pairs than have room in four digits"""
    rng = case.rng
    base = os.path.realpath(case.scratch)
    banks = gen.rbanks(rng, base, 1)
    ids = [g.id for g in banks[0].graphs]
    while len(ids) < 2:
        shutil.rmtree(base)
        os.makedirs(base)
        banks = gen.rbanks(rng, base, 1)
        ids = [g.id for g in banks[0].graphs]
    rels = [u"r"]
    n = rng.int(10001, 10020)
    size = rng.choice([999, 1000, 1500, 2500, 5000])
    fn, m = make(case, "big.pgc", banks, base, gen.CorpusModel(rels, None, []))
    text = gen.get(fn).decode("utf-8")
    seq = [tuple(rng.sample(ids, 2)) for _ in range(n)]
    pairs = u"".join(u'<graph_pair from_bank_id="k0" from_graph_id="%s" to_bank_id="k0" to_graph_id="%s"/>\n' % (gen.esc(a), gen.esc(b)) for a, b in seq)
    gen.put(fn, text.replace(u"<aligned_graphs>", u"<aligned_graphs>" + pairs))
    before = snap(base)
    code, out, err = gen.run_script("pgc_split.py", [fn, "-s", str(size)])
    case.equal(code, 0, "exit", "exit status (%s)" % err)
    parts = [os.path.basename(p) for p in set(snap(base)) - set(before)]
    case.equal(len(parts), -(-n // size), "part-count", "number of parts")
    got = [(x.attrib["from_graph_id"], x.attrib["to_graph_id"]) for p in sorted(parts) for x in gen.dom_file(os.path.join(base, p)).find("aligned_graphs").all("graph_pair")]
    case.check(got == seq, "part-order", "parts in sorted order are not in corpus order: %s", sorted(parts))
    case.seen("split_many")
    case.distinct((n, size, seq[:50]))
    case.sample(dict(pairs=n, size=size, parts=sorted(parts)))


def case_join(case):
    rng = case.rng
    base = os.path.realpath(case.scratch)
    banks = gen.rbanks(rng, base, rng.int(1, 4))
    rels = rng.sample(gen.RELS, rng.int(1, 5))
    k = rng.int(1, 4)
    mk = [make(case, rng.choice(["", "sub dir/", "z/"]) + "c%d.pgc" % i, rng.sample(banks, rng.int(1, len(banks))), base, rels=rels) for i in range(k)]
    mk.sort()
    first = mk[0][1]
    bad = k > 1 and rng.chance(15)
    if bad:
        fn, m = mk[rng.int(1, k - 1)]
        extra = [x for x in gen.RELS if x not in rels]
        m.relations = sorted(rng.choice([rels[:-1] or [u"other"], rels + [u"zzz"]] + ([rels[:-1] + [extra[0]]] if extra else [])))
        gen.put(fn, gen.pgc_xml(rng, m, base, [(u"b%d" % i, b.path, b.path) for i, b in enumerate(banks)]))
    before = snap(base)
    pats = [fn for fn, m in mk]
    if rng.chance(30) and not bad:
        pats = [os.path.join(os.path.dirname(fn), os.path.basename(fn).replace("c", "?")) for fn in pats]
        case.seen("join_pattern")
    args = flags(case, "--format", "-V") + pats
    if bad:
        try:
            code, out, err = gen.run_script("pgc_join.py", args, base)
        except Exception, e:
            code, out = 1, gen.TAP.take()
        case.check(code != 0, "no-error", "corpora with different relations are joined")
        case.check("<parallel_graph_corpus" not in out, "no-error", "output after incompatible corpora")
        case.seen("join_incompatible")
        unchanged(case, before, snap(base))
        return
    code, out, err = gen.run_script("pgc_join.py", args, base)
    case.equal(code, 0, "exit", "exit status (%s)" % err)
    want = gen.CorpusModel(first.relations, first.meta, [p for fn, m in mk for p in m.pairs])
    got, files = gen.xml_key(gen.dom_bytes(out), base)
    d = gen.diff_key(got, want.key())
    case.check(not d, "joined", "corpora joined: %s", d)
    case.equal(len(set(f[0] for f in files.values())), len(files), "bank-twice", "banks listed")
    unchanged(case, before, snap(base))
    if want.pairs:
        case.distinct(want.key())
    case.sample(dict(files=k, pairs=len(want.pairs)))


def case_zip(case):
    rng = case.rng
    base = os.path.realpath(case.scratch)
    banks = gen.rbanks(rng, base, rng.int(1, 4))
    mk = [make(case, "corpora/%sc%d.pgc" % (rng.choice(["", "deep/"]), i), rng.sample(banks, rng.int(1, len(banks))), base) for i in range(rng.int(1, 3))]
    zf = os.path.join(base, rng.choice(["out.zip", "my news.zip", "x.tar.zip"]))
    before = snap(base)
    used = [set(p.sb for p in m.pairs) | set(p.tb for p in m.pairs) for fn, m in mk]
    need = set(os.path.basename(b) for u in used for b in u)
    if sum(len(u) for u in used) > len(need):
        case.seen("zip_shared_bank")
    args = [fn for fn, m in mk]
    cwd = None
    if rng.chance(30):
        cwd = base
        args = [os.path.relpath(a, base) for a in args]
        if rng.chance(50):
            zarg = os.path.basename(zf)
        else:
            zarg = zf
    else:
        zarg = zf
    code, out, err = gen.run_script("pgc_zip.py", [zarg] + args, cwd)
    case.equal(code, 0, "exit", "exit status (%s)" % err)
    unchanged(case, before, snap(base), [zf])
    z = zipfile.ZipFile(zf)
    root = os.path.splitext(os.path.basename(zf))[0]
    names = z.namelist()
    case.equal(sorted(names), sorted(root + "/" + x for x in need | set(os.path.basename(fn) for fn, m in mk)), "zip-names", "files in the archive")
    data = dict((os.path.basename(n), z.read(n)) for n in names)
    z.close()
    for p in [fn for fn, m in mk] + [b.path for b in banks]:
        if os.path.basename(p) in data:
            case.check(data[os.path.basename(p)] == before[p], "zip-content", "archived copy of %s differs", p)
    # unpacked at another site
    other = os.path.join(base, "other", "site")
    os.makedirs(other)
    for n in data:
        gen.put(os.path.join(other, n), data[n])
    for b in banks:
        os.rename(b.path, b.path + ".away")
    for (fn, m), u in zip(mk, used):
        if len(set(b.path for b in banks if os.path.basename(b.path) in need)) < len(u) or not m.pairs:
            continue
        from daeso.pgc.corpus import LOAD_NONE
        c = ParallelGraphCorpus()
        c.read(os.path.join(other, os.path.basename(fn)), graph_loading=LOAD_NONE, relax_gb_paths=True)
        want = gen.CorpusModel(m.relations, m.meta, [p.copy() for p in m.pairs])
        for p in want.pairs:
            p.sb, p.tb = [os.path.join(other, os.path.basename(x)) for x in (p.sb, p.tb)]
        d = gen.diff_key(gen.corpus_key(c), want.key())
        case.check(not d, "zip-read", "corpus read from the archive: %s", d)
        case.seen("zip_read")
        listed = set(os.path.basename(f.text.strip()) for f in gen.dom_file(fn).find("graphbanks").all("file"))
        if listed <= need:
            c = ParallelGraphCorpus()
            c.read(os.path.join(other, os.path.basename(fn)), relax_gb_paths=True)
            by = dict((b.path, b) for b in banks)
            for gp, p in zip(c, m.pairs):
                gen.check_graph(case, gp.get_source_graph(), by[p.sb].by_id[p.sg])
            case.seen("zip_cross")
    case.distinct([m.key() for fn, m in mk])
    case.sample(sorted(names))


def case_cp(case):
    rng = case.rng
    base = os.path.realpath(case.scratch)
    banks = gen.rbanks(rng, base, rng.int(1, 4))
    k = rng.int(1, 3)
    mk = [make(case, rng.choice(["", "a/", "a/b/"]) + "c%d.pgc" % i, banks, base) for i in range(k)]
    gen.put(os.path.join(base, "junk.pgc"), rng.choice(["", "<a>", "no xml", "<graph_pair/>"]))
    if rng.chance(30):
        for b in banks:
            if rng.chance(60):
                os.remove(b.path)
                case.seen("cp_missing_banks")
    src = list(mk)
    args = [fn for fn, m in mk]
    bads = []
    if rng.chance(30):
        bads = [rng.choice([os.path.join(base, "junk.pgc"), os.path.join(base, "nothing.pgc")])]
        case.seen("cp_bad")
    over = rng.chance(40)
    opts = [rng.choice(["-o", "--overwrite"])] if over else []
    exists = {}
    if k + len(bads) > 1 or rng.chance(50):
        tdir = os.path.join(base, rng.choice(["new", "a", "deep/er/dir", "."]))
        if not os.path.isdir(tdir):
            os.makedirs(tdir)
        target = tdir
        dest = dict((fn, os.path.join(tdir, os.path.basename(fn))) for fn, m in mk)
        case.seen("cp_dir")
    else:
        d = os.path.join(base, rng.choice(["", "new", "a"]))
        if not os.path.isdir(d):
            os.makedirs(d)
        target = os.path.join(d, rng.choice(["copy.pgc", os.path.basename(mk[0][0])]))
        dest = {mk[0][0]: target}
        case.seen("cp_file")
    for fn, m in mk:
        if not os.path.exists(dest[fn]) and rng.chance(25):
            gen.put(dest[fn], "old content")
    before = snap(base)
    if k + len(bads) > 1 and rng.chance(40):
        # many sources, but no directory
        t = os.path.join(base, rng.choice(["nowhere", os.path.basename(mk[0][0]) + ".new", "junk.pgc"]))
        code, out, err = gen.run_script("pgc_cp.py", opts + args + bads + [t], base)
        case.check(code != 0, "exit", "%d sources for the file %s: %s", k + len(bads), t, err)
        unchanged(case, before, snap(base), set(), set())
        case.seen("cp_no_dir")
    cwd = None
    if rng.chance(40):
        cwd = base
        args = [os.path.relpath(a, base) for a in args]
        target = os.path.relpath(target, base)
    code, out, err = gen.run_script("pgc_cp.py", opts + args + bads + [target], cwd)
    case.equal(code, 0, "exit", "exit status (%s)" % err)
    case.equal(out, "", "output", "output")
    after = snap(base)
    changed = set()
    current = dict(before)
    for fn, m in mk:
        t = os.path.normpath(dest[fn])
        if t == fn:
            case.seen("cp_same")
            continue
        if t in current and not over:
            case.seen("cp_kept")
            case.check(after[t] == before[t], "overwritten", "%s was overwritten", t)
            continue
        if t in before:
            case.seen("cp_overwrite")
        changed.add(t)
        current[t] = None
        same(case, t, m)
    unchanged(case, before, after, changed, changed)
    notes = len([l for l in err.split("\n") if l.startswith("warning")])
    case.equal(notes, k + len(bads) - len(changed), "warnings", "warnings for %d files not copied: %s" % (k + len(bads) - len(changed), err))
    case.distinct([m.key() for fn, m in mk])
    case.sample(dict(args=opts + args + bads + [target], err=err))


def case_chdir(case):
    rng = case.rng
    base = os.path.realpath(case.scratch)
    banks = gen.rbanks(rng, os.path.join(base, "x"), rng.int(1, 3))
    pre = rng.choice(["../gb/", "../gb", "/data/banks", "x/", "", "../"])
    old, new = pre, rng.choice(["../../gb", "/new & dir/", "", "x", "y y/", "x/", "../"])
    fns, want, changed = [], [], []
    for i in range(rng.int(1, 3)):
        fn = os.path.join(base, "c%d.pgc" % i)
        m = gen.rmodel(rng, banks, 4)
        if rng.chance(40):
            m.meta = FILE_TRAP
            case.seen("chdir_meta_trap")
        if m.pairs and rng.chance(30):
            m.pairs[0].meta = ("graph_meta_data",) + FILE_TRAP[1:]
        ent, exp = [], []
        for j, b in enumerate(banks):
            p = rng.choice(["../gb/a%d.xml", "../gbx/a%d.xml", "/data/banks/a%d.xml", "x/y/a%d.xml", "other/x/../gb/a%d.xml", "a&b%d.xml", "x/x/x/a%d.xml", "../gb/x/../gb/a%d.xml",
                            "/data/banks/data/banks/a%d.xml", "../../../gb/a%d.xml"]) % j
            q = p
            if p.startswith(old):
                q = new + p[len(old):]
                changed.append((p, q))
                if old and old in p[len(old):]:
                    case.seen("chdir_recurring")
                case.seen("chdir")
            else:
                case.seen("chdir_no_match")
            if rng.chance(25):
                p = rng.choice(["\n  %s ", "\t%s", "%s\t\n", " %s"]) % p
                case.seen("chdir_blanks")
            ent.append((u"b%d" % j, p, b.path))
            exp.append((u"b%d" % j, q, b.path))
        # the same choices for file and expectation
        class Fixed(object):
            def __init__(self, draws):
                self.draws = iter(draws)

            def choice(self, xs):
                return xs[0]

            def chance(self, p):
                return next(self.draws) < p
        draws = [rng.below(100) for _ in range(100)]
        gen.put(fn, gen.pgc_xml(Fixed(draws), m, base, ent))
        fns.append(fn)
        want.append(gen.pgc_xml(Fixed(draws), m, base, exp))
    before = snap(base)
    args = [rng.choice(["-p", "--path-prefix-pair"]), old, new] + flags(case, "-V")
    test = rng.chance(20)
    if test:
        args.append(rng.choice(["-t", "--test"]))
        case.seen("chdir_test")
    cwd = None
    names = list(fns)
    if rng.chance(30):
        cwd = base
        names = [os.path.basename(f) for f in fns]
    code, out, err = gen.run_script("pgc_chdir.py", names + args if rng.chance(50) else args + ["--"] + names, cwd)
    case.equal(code, 0, "exit", "exit status (%s)" % err)
    case.equal(out, "", "output", "output")
    said = [l for l in err.split("\n") if l.strip() and not l.startswith("    ") and "Warning: " not in l]
    case.check(bool(said) == (test or "-V" in args), "verbose", "messages with %s: %r", args, err)
    if said:
        told = err.replace("&amp;", "&")
        for fn in names:
            case.check(fn in told, "verbose", "%s is not in %r", fn, err)
        for p, q in changed:
            case.check(p in told and q in told, "verbose", "%s -> %s is not in %r", p, q, err)
            case.seen("chdir_told")
    unchanged(case, before, snap(base), (), [] if test else fns)
    if not test:
        for fn, w in zip(fns, want):
            case.equal(gen.canon(gen.dom_file(fn)), gen.canon(gen.dom_bytes(w.encode("utf-8"))), "content", "content of " + fn)
    case.distinct((old, new, want))
    case.sample([old, new])


def case_extract(case):
    rng = case.rng
    base = os.path.realpath(case.scratch)
    banks = gen.rbanks(rng, base, rng.int(1, 3))
    words = gen.PLAIN + [u"na\xefef", u"\u20acuro", u"<b>", u"&", u"\u6771\u4eac", u"'x'"]
    for b in banks:
        for g in b.graphs:
            for n in g.order:
                g.ntokens[n] = [rng.choice(words) for _ in range(rng.int(0, 4))]
                if not g.ntokens[n]:
                    case.seen("extract_empty")
        gen.put(b.path, gen.graphml(b.graphs))
    by = dict((b.path, b) for b in banks)
    mk = [make(case, "c%d.pgc" % i, banks, base, maxpairs=60) if rng.chance(8) else make(case, "c%d.pgc" % i, banks, base) for i in range(rng.int(1, 3))]
    before = snap(base)
    args, delim, verbose = [], u"\t", rng.chance(40)
    if rng.chance(40):
        delim = rng.choice([u"#", u" | ", u";;", u", "])
        args += [rng.choice(["-d", "--delimiter"]), str(delim)]
        case.seen("extract_delimiter")
    if verbose:
        args.append(rng.choice(["-V", "--verbose"]))
        case.seen("extract_verbose")
    code, out, err = gen.run_script("pgc_extract_phrases.py", [fn for fn, m in mk] + args)
    case.equal(code, 0, "exit", "exit status (%s)" % err)
    blocks = []
    total = 0
    for fn, m in mk:
        for p in m.pairs:
            sg, tg = by[p.sb].by_id[p.sg], by[p.tb].by_id[p.tg]
            block = []
            for (s, t), r in p.align.items():
                cols = [u" ".join(sg.ntokens[s]), r, u" ".join(tg.ntokens[t])]
                if verbose:
                    cols = [unicode(p.sb), unicode(p.tb), p.sg, p.tg, s, t] + cols
                block.append(delim.join(cols))
            blocks.append(sorted(block))
            total += len(block)
    lines = out.decode("utf-8").split(u"\n")
    case.equal(lines[-1], u"", "extract", "end of output")
    lines = lines[:-1]
    case.equal(len(lines), total, "extract-count", "number of phrases")
    i = 0
    for block in blocks:
        case.equal(sorted(lines[i:i + len(block)]), block, "extract", "phrases of a graph pair")
        i += len(block)
    case.seen("extract", total)
    unchanged(case, before, snap(base))
    if total:
        case.distinct(lines)
    case.sample(lines[:3])


GROUPS = [("split", case_split, 60, 600), ("many", case_many, 1, 4), ("join", case_join, 40, 500), ("zip", case_zip, 30, 300), ("cp", case_cp, 60, 800), ("chdir", case_chdir, 60, 800),
          ("extract", case_extract, 60, 800)]
