# -*- coding: utf-8 -*-
"""C06: bank files in written and read corpora"""
import os, shutil
import gen
from daeso.exception import DaesoError
from daeso.pair import Pair
from daeso.gb.graphbank import GraphBank, SparseGraphBank
from daeso.graph.daesograph import DaesoGraph
from daeso.pgc.graphpair import GraphPair
from daeso.pgc.corpus import (ParallelGraphCorpus, LOAD_ALL, LOAD_SPARSE, LOAD_NONE)

RULE = ("directory trees with bank files reached through relative paths, '..', symbolic links to files and "
        "directories and hard links; corpora over many bank objects per file, written to other directories "
        "(also linked ones), moved, read from other working directories, with relaxed paths on and off; files "
        "identified by device and inode; non-trivial = at least one pair")
REQUIRED = ["write_open_file", "large", "banks_equal", "banks_differ", "bank_file_changed", "alias_symlink", "alias_hardlink", "alias_dirlink", "alias_relative", "several_objects",
            "purged", "purged_one", "purged_empty_pair", "moved_tree", "unused_bank_absent", "relaxed_found", "relaxed_not_needed",
            "relaxed_refused", "chdir_between", "read_listed_twice"]
ASSUMPTIONS = ["paths which are not ASCII are unicode strings, and the working directory is ASCII (a limit of Python 2)", "the corpus file itself is not a symbolic link to another directory"]
MODES = [LOAD_ALL, LOAD_SPARSE, LOAD_NONE]


def ino(path):
    s = os.stat(path)
    return s.st_dev, s.st_ino


class World(object):
    """bank files and the names by which they can be reached"""
    def __init__(self, case, root, large=False):
        rng = case.rng
        self.case, self.rng, self.root = case, rng, root
        self.dirs = [os.path.join(root, d) for d in ("a", "a/b", "c d", "e", u"\xe9\u20ac" if rng.chance(30) else "A")]
        for d in self.dirs:
            os.makedirs(d)
        self.files = []
        for i in range(rng.int(1, 4) if not large else 45):
            p = os.path.join(rng.choice(self.dirs), rng.weighted([("bank%d.xml", 6), ("Bank0.xml", 1), ("bank%d.XML", 1), ("b&nk <%d>.xml", 1), ("bank  %d.xml", 1)]).replace("%d", str(i)))
            if os.path.exists(p):
                continue
            gen.put(p, gen.graphml([gen.rgraph(rng, u"g%d" % k, 4) for k in (1, 2, 3)]))
            self.files.append(p)
        # same base name in different directories
        if rng.chance(50) and len(self.files) > 1:
            d = os.path.dirname(self.files[0])
            others = [x for x in self.dirs if x != d]
            p = os.path.join(others[0], os.path.basename(self.files[0]))
            if not os.path.exists(p):
                gen.put(p, gen.graphml([gen.rgraph(rng, u"g%d" % k, 4) for k in (1, 2, 3)]))
                self.files.append(p)
        self.linkdirs = []
        for i, d in enumerate(self.dirs[:3]):
            l = os.path.join(root, "ln%d" % i)
            os.symlink(d if rng.chance(50) else os.path.relpath(d, root), l)
            self.linkdirs.append((l, d))
        self.n = 0

    def alias(self, p, hard=True):
        """another name of file p"""
        rng = self.rng
        k = rng.below(6)
        self.n += 1
        if k == 0:
            l = os.path.join(rng.choice(self.dirs), "sym%d.xml" % self.n)
            os.symlink(p, l)
            self.case.seen("alias_symlink")
            return l
        if k == 1 and hard:
            l = os.path.join(rng.choice(self.dirs), "hard%d.xml" % self.n)
            from java.nio.file import Files, Paths
            Files.createLink(Paths.get(l, []), Paths.get(p, []))
            self.case.seen("alias_hardlink")
            return l
        if k == 2:
            for l, d in self.linkdirs:
                if p.startswith(d + "/"):
                    self.case.seen("alias_dirlink")
                    return l + p[len(d):]
        if k == 3:
            d = rng.choice(self.dirs)
            self.case.seen("alias_relative")
            return os.path.join(d, os.path.relpath(p, d))
        if k == 4:
            self.case.seen("alias_relative")
            return os.path.relpath(p, os.getcwd())
        return p


def rcorpus(case, w, maxpairs=7, hard=True):
    """corpus with many bank objects; returns it with [(source file, sg, target file, tg, align)]"""
    rng = case.rng
    c, model = ParallelGraphCorpus(relations=["equals"]), []
    objs = {}
    for _ in range(rng.int(0, maxpairs)):
        files = [rng.choice(w.files), rng.choice(w.files)]
        banks = []
        for f in files:
            if objs.get(f) and rng.chance(30):
                banks.append(rng.choice(objs[f]))
            else:
                b = rng.choice([GraphBank, SparseGraphBank])(w.alias(f, hard), "graphml")
                objs.setdefault(f, []).append(b)
                banks.append(b)
        if files[0] == files[1]:
            gids = rng.sample([u"g1", u"g2", u"g3"], 2)
        else:
            gids = [rng.choice([u"g1", u"g2", u"g3"]) for _ in range(2)]
        gp = GraphPair(Pair(*banks), Pair(DaesoGraph(id=gids[0]), DaesoGraph(id=gids[1])))
        al = {}
        if rng.chance(60):
            gp.add_align(Pair(u"n0", u"n1"), u"equals")
            al = {(u"n0", u"n1"): u"equals"}
        c.append(gp)
        model.append((files[0], gids[0], files[1], gids[1], al))
    if any(len(x) > 1 for x in objs.values()):
        case.seen("several_objects")
    return c, model


def check_file(case, path, base, model, abs_path):
    root = gen.dom_file(path)
    entries, ids = {}, set()
    for f in root.find("graphbanks").all("file"):
        t = f.attrib
        case.check(t["id"] not in ids, "id-twice", "file id %s twice", t["id"])
        ids.add(t["id"])
        p = f.text.strip()
        case.check(os.path.isabs(p) == bool(abs_path), "path-style", "%s with abs_path=%s", p, abs_path)
        full = os.path.realpath(os.path.join(os.path.realpath(base), p))
        case.check(os.path.exists(full), "path-wrong", "listed bank %s does not exist from %s", p, base)
        entries[t["id"]] = ino(full)
    case.equal(len(set(entries.values())), len(entries), "listed-twice", "distinct bank files listed")
    used = set(ino(x[0]) for x in model) | set(ino(x[2]) for x in model)
    case.equal(sorted(entries.values()), sorted(used), "banks-listed", "bank files listed")
    gps = root.find("aligned_graphs").all("graph_pair")
    case.equal(len(gps), len(model), "pair-count", "pairs written")
    for gp, (sf, sg, tf, tg, al) in zip(gps, model):
        a = gp.attrib
        case.equal((entries.get(a["from_bank_id"]), a["from_graph_id"], entries.get(a["to_bank_id"]), a["to_graph_id"]),
                   (ino(sf), sg, ino(tf), tg), "wrong-entry", "pair written")
    return entries


def check_read(case, c, model, what):
    case.equal(len(c), len(model), "pair-count", what)
    objs = {}
    for gp, (sf, sg, tf, tg, al) in zip(c, model):
        for b, f in ((gp.get_source_bank(), sf), (gp.get_target_bank(), tf)):
            p = b.get_file_path()
            case.check(os.path.isabs(p), "path-relative", what + ": bank path %s is relative", p)
            case.check(os.path.exists(p), "path-wrong", what + ": bank path %s does not exist", p)
            case.equal(ino(p), ino(f), "path-wrong", what + ": bank %s" % p)
            objs.setdefault(ino(f), set()).add(id(b))
        case.equal((gp.get_source_graph().id, gp.get_target_graph().id), (sg, tg), "ids", what)
        case.equal(dict(((n.source, n.target), r) for n, r in gp.alignments()), al, "align", what)
    return objs


def g_write(case):
    rng = case.rng
    root = case.scratch
    large = rng.chance(6)
    if large:
        case.seen("large")
    w = World(case, root, large)
    os.chdir(rng.choice(w.dirs[:4] + [root]))
    c, model = rcorpus(case, w, 120 if large else 7)
    for rnd in range(2):
        outdir = rng.choice(w.dirs + [l for l, _ in w.linkdirs] + [root])
        path = os.path.join(outdir, "out%d.pgc" % rnd)
        absp = rng.chance(40)
        if outdir == w.dirs[4]:
            case.seen("other_dir")
            c.write(path, abs_path=absp)
        elif rng.chance(25):
            # an open file, named in full or from here
            f = open(path if rng.chance(60) or os.path.islink(outdir) else os.path.relpath(path, os.path.realpath(os.getcwd())), "wb")
            try:
                c.write(f, abs_path=absp)
            finally:
                f.close()
            case.seen("write_open_file")
        elif rng.chance(30):
            os.chdir(outdir)
            c.write(os.path.basename(path), abs_path=absp)
        elif rng.chance(30):
            c.write(os.path.relpath(path, os.path.realpath(os.getcwd())) if not os.path.islink(outdir) else path, abs_path=absp)
        else:
            c.write(path, abs_path=absp)
        check_file(case, path, outdir, model, absp)
        # read back
        kind = 0 if outdir == w.dirs[4] else rng.below(3)
        os.chdir(rng.choice(w.dirs[:4]))
        name = path
        if kind == 1:
            os.chdir(outdir)
            name = os.path.basename(path)
        elif kind == 2 and not os.path.islink(outdir):
            name = os.path.relpath(path, os.path.realpath(os.getcwd()))
        r = ParallelGraphCorpus(inf=name, graph_loading=rng.choice(MODES))
        os.chdir(rng.choice(w.dirs[:4]))
        case.seen("chdir_between")
        objs = check_read(case, r, model, "read back")
        case.check(all(len(x) == 1 for x in objs.values()), "bank-objects", "several objects for one listed bank")
        # purge makes pairs share
        if rng.chance(60):
            if rng.chance(50):
                c = c + r
                model = model + model
            if model and rng.chance(40):
                i = rng.below(len(c))
                banks = [(gp.get_source_bank(), gp.get_target_bank()) for gp in c]
                c.purge(c[i])
                check_read(case, c, model, "one pair purged")
                for j, (gp, (a, b)) in enumerate(zip(c, banks)):
                    case.check(gp is c[i] or gp.get_source_bank() is a and gp.get_target_bank() is b, "purge-other",
                               "pair %d changed when pair %d was purged", j, i)
                a, b = c[i].get_source_bank(), c[i].get_target_bank()
                case.check(a is b or ino(a.get_file_path()) != ino(b.get_file_path()), "purge", "purged pair has two objects for one file")
                case.seen("purged_one")
                if not len(c[i]):
                    case.seen("purged_empty_pair")
            c.purge()
            objs = check_read(case, c, model, "purged")
            case.check(all(len(x) == 1 for x in objs.values()), "purge", "purged corpus has several objects for one file")
            case.seen("purged")
        # drop pairs: unused banks disappear
        if model and rng.chance(60):
            i = rng.below(len(model))
            del c[i]
            used = len(set(ino(x[j]) for x in model for j in (0, 2)))
            del model[i]
            if len(set(ino(x[j]) for x in model for j in (0, 2))) < used:
                case.seen("unused_bank_absent")
    p = os.path.join(root, "last.pgc")
    c.write(p)
    check_file(case, p, root, model, False)
    if model:
        case.distinct(repr([(os.path.relpath(x[0], root), x[1], os.path.relpath(x[2], root), x[3]) for x in model]))
    case.sample([(os.path.relpath(x[0], root), x[1], os.path.relpath(x[2], root), x[3]) for x in model])


def g_move(case):
    """a tree with relative paths can be moved"""
    rng = case.rng
    root = os.path.join(case.scratch, "one")
    os.makedirs(root)
    w = World(case, root)
    os.chdir(root)
    c, model = rcorpus(case, w, hard=False)
    outdir = rng.choice(w.dirs)
    rel, ab = os.path.join(outdir, "rel.pgc"), os.path.join(outdir, "abs.pgc")
    c.write(rel)
    c.write(ab, abs_path=True)
    two = os.path.join(case.scratch, "other", "two")
    os.makedirs(os.path.dirname(two))
    shutil.copytree(root, two, symlinks=True)
    tr = lambda p: os.path.join(two, os.path.relpath(p, root))
    model2 = [(tr(a), b, tr(c_), d, e) for a, b, c_, d, e in model]
    r = ParallelGraphCorpus(inf=tr(rel), graph_loading=rng.choice(MODES))
    check_read(case, r, model2, "moved relative corpus")
    r = ParallelGraphCorpus(inf=tr(ab), graph_loading=rng.choice(MODES))
    check_read(case, r, model, "moved absolute corpus")
    case.seen("moved_tree")
    # write what was read elsewhere
    far = os.path.join(case.scratch, "far", "away")
    os.makedirs(far)
    absp = rng.chance(50)
    r.write(os.path.join(far, "x.pgc"), abs_path=absp)
    check_file(case, os.path.join(far, "x.pgc"), far, model, absp)
    if model:
        case.distinct(repr([(os.path.relpath(x[0], root), x[1], os.path.relpath(x[2], root), x[3]) for x in model]))


def g_relax(case):
    rng = case.rng
    root = case.scratch
    w = World(case, root)
    os.chdir(root)
    c, model = rcorpus(case, w, hard=False)
    outdir = os.path.join(root, "packed")
    os.makedirs(outdir)
    path = os.path.join(outdir, "c.pgc")
    c.write(path, abs_path=rng.chance(50))
    names = {}
    for f in w.files:
        names.setdefault(os.path.basename(f), []).append(f)
    where = {}
    gone = False
    used = set(x[0] for x in model) | set(x[2] for x in model)
    for f in w.files:
        k = rng.below(4)
        if len(names[os.path.basename(f)]) > 1:
            k = 0
        near = os.path.join(outdir, os.path.basename(f))
        where[f] = f
        if k in (1, 2):                     # both places, near one must be ignored
            shutil.copy(f, near)
            if f in used:
                case.seen("relaxed_not_needed")
        if k >= 2 and f in used:            # only near
            if k == 3:
                shutil.move(f, near)
            else:
                os.remove(f)
            where[f] = near
            gone = True
            case.seen("relaxed_found")
    # links which pointed at removed files were resolved when writing
    model2 = [(where[a], b, where[c_], d, e) for a, b, c_, d, e in model]
    mode = rng.choice(MODES)
    os.chdir(rng.choice(w.dirs[:4]))
    name = path
    if rng.chance(40):
        os.chdir(outdir)
        name = "c.pgc"
    r = ParallelGraphCorpus()
    r.read(name, graph_loading=mode, relax_gb_paths=True)
    os.chdir(root)
    check_read(case, r, model2, "relaxed paths")
    if gone and mode != LOAD_NONE:
        r = ParallelGraphCorpus()
        case.raises(DaesoError, r.read, path, graph_loading=mode, kind="not-relaxed", what="read")
        case.seen("relaxed_refused")
    if gone and mode != LOAD_NONE:
        f = [f for f in used if where[f] != f][0]
        os.remove(where[f])
        r = ParallelGraphCorpus()
        case.raises(DaesoError, r.read, path, graph_loading=mode, relax_gb_paths=True,
                    kind="nowhere", what="read relaxed")
    if model:
        case.distinct(repr(sorted((os.path.relpath(a, root), os.path.relpath(b, root)) for a, b in where.items())))


def g_listed(case):
    """files that list one bank under several names are written with one entry"""
    rng = case.rng
    root = case.scratch
    w = World(case, root)
    os.chdir(root)
    entries, real = [], {}
    for i in range(rng.int(2, 6)):
        f = rng.choice(w.files)
        entries.append((u"id%d" % i, os.path.join(root, w.alias(f)), f))
        real.setdefault(f, []).append(i)
    model = gen.CorpusModel(["equals"], None, [])
    fs = sorted(real)
    for _ in range(rng.int(1, 6)):
        a, b = rng.choice(fs), rng.choice(fs)
        g = rng.sample([u"g1", u"g2", u"g3"], 2)
        model.pairs.append(gen.PairModel(a, g[0], b, g[1], {(u"n0", u"n0"): u"equals"}))
    path = os.path.join(root, "in.pgc")
    gen.put(path, gen.pgc_xml(rng, model, root, entries))
    m = [(p.sb, p.sg, p.tb, p.tg, p.align) for p in model.pairs]
    c = ParallelGraphCorpus(inf=path, graph_loading=rng.choice(MODES))
    check_read(case, c, m, "read")
    c.write(os.path.join(root, "a", "out.pgc"))
    check_file(case, os.path.join(root, "a", "out.pgc"), os.path.join(root, "a"), m, False)
    if any(len(x) > 1 for x in real.values()):
        case.seen("read_listed_twice")
    case.distinct(repr([(e[0], os.path.basename(e[1]), os.path.basename(e[2])) for e in entries]))


def g_banks(case):
    """two banks are equal when they point to one file, at the time of asking"""
    rng = case.rng
    w = World(case, case.scratch)
    os.chdir(rng.choice(w.dirs[:4]))
    names = [w.alias(rng.choice(w.files)) for _ in range(rng.int(2, 6))] + [rng.choice(w.files)]
    new = os.path.join(rng.choice(w.dirs), "later.xml")
    names += [new, os.path.join(os.path.dirname(new), ".", "later.xml"), os.path.relpath(new, os.getcwd()), u"naïef.xml"]
    banks = [rng.choice([GraphBank, SparseGraphBank])(n, rng.choice(["graphml", "other"])) for n in names]

    def want(a, b):
        if os.path.abspath(a) == os.path.abspath(b):
            return True
        if os.path.exists(a) and os.path.exists(b):
            return ino(a) == ino(b)
        # (two names of one missing file are left alone)
        return None if os.path.realpath(a) == os.path.realpath(b) else False

    def all_pairs(when):
        for a, m in zip(banks, names):
            for other in (None, m, 3, [a], object()):
                case.check(not a == other and a != other, "bank-other", "bank %s equals %s", m, type(other))
            for b, n in zip(banks, names):
                x = want(m, n)
                if x is None:
                    continue
                case.check(bool(a == b) == x and bool(a != b) == (not x), "bank-equal", "%s: == of the banks %s and %s is %s, != is %s, expected %s", when, m, n, a == b, a != b, x)
                case.seen("banks_equal" if x else "banks_differ")
    all_pairs("at first")
    # a file appears, another one goes
    gen.put(new, "<graphml/>")
    all_pairs("when there is a new file")
    f = rng.choice(w.files)
    os.rename(f, f + ".away")
    all_pairs("when a file is renamed")
    shutil.copy(f + ".away", f)
    all_pairs("when it is replaced")
    case.seen("bank_file_changed")
    case.distinct(repr([os.path.relpath(os.path.join(os.getcwd(), n), case.scratch) for n in names]))


GROUPS = [("write", g_write, 160, 2000), ("banks", g_banks, 60, 600), ("move", g_move, 60, 700), ("relax", g_relax, 90, 1000),
          ("listed", g_listed, 60, 800)]
