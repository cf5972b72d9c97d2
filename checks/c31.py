# -*- coding: utf-8 -*-
"""C31: XML comparison, indentation, writing and file helpers"""
import copy
import os
import re
import stat
import StringIO
import sys
import threading
import xml.etree.cElementTree as et
import gen
from daeso.utils.etree import write, equals, indent
from daeso.utils.opsys import makedirs, glob, multiglob

RULE = ("random elements compared with copies, blank variations and one-detail mutants; indentation and writing compared with the element itself through an independent XML reader; "
        "directories created in every reachable state of the path, also by several threads; file name patterns compared with an independent matcher; "
        "non-trivial = element with children, or directory state other than absent")
REQUIRED = ["equal_copy", "equal_blanks", "mutant_tag", "mutant_attrib", "mutant_text", "mutant_tail", "mutant_child", "mutant_order", "mutant_deep", "mutant_count", "comment",
            "indented", "mixed", "indent_level", "written_name", "written_file", "written_pprint", "written_over", "write_refused", "written_stdout",
            "mk_absent", "mk_exists", "mk_file", "mk_below_file", "mk_link", "mk_dangling", "mk_slash", "mk_concurrent", "mk_mode", "mk_refused", "glob", "multiglob", "glob_none", "glob_overlap", "glob_many", "other_encoding"]
ASSUMPTIONS = ["refusals for lack of permission cannot be provoked as the superuser and are represented by paths that cannot be directories"]


def relement(rng, depth=0):
    e = et.Element(rng.choice([u"a", u"b", u"file", u"x-y", u"tag"]))
    for _ in range(rng.weighted([(0, 4), (1, 3), (3, 1)])):
        e.set(rng.choice([u"n", u"id", u"val"]), rng.choice([u"1", u"x y", u" 1", u"naïef", u"<&>\"'", u""]))
    e.text = rng.choice([None, u"", u"  ", u"\n   ", gen.rtext(rng), u" " + gen.rtext(rng, 2) + u"\n "])
    if depth < 4:
        for _ in range(rng.weighted([(0, 4), (1, 2), (2, 2), (4, 1)]) if depth else rng.int(0, 4) if rng.chance(93) else 34):
            k = relement(rng, depth + 1 if len(e) < 5 else 4)
            k.tail = rng.choice([None, None, u" ", u"\n\t", gen.rtext(rng, 2), u"  " + gen.rtext(rng, 2)])
            e.append(k)
    return e


def every(e):
    out = [e]
    for k in e:
        out += every(k)
    return out


def clone(e):
    c = et.Element(e.tag)
    for k, v in e.attrib.items():
        c.set(k, v)
    c.text, c.tail = e.text, e.tail
    for k in e:
        c.append(clone(k))
    return c


def exact(e):
    return (e.tag, sorted(e.attrib.items()), e.text or u"", e.tail or u"", [exact(k) for k in e])


def blank(t):
    return not (t or u"").strip()


def case_equals(case):
    rng = case.rng
    e = relement(rng)
    e.tail = rng.choice([None, u"tail", u" "])
    keep = exact(e)
    c = clone(e)
    case.check(equals(e, c) is True, "equal-copy", "copy differs: %s", keep)
    case.check(equals(e, e) is True, "equal-copy", "element differs from itself: %s", keep)
    case.seen("equal_copy")
    # blanks at the ends
    for x in every(c):
        for attr in ("text", "tail"):
            t = getattr(x, attr)
            if rng.chance(50):
                if blank(t):
                    setattr(x, attr, rng.choice([None, u"", u" ", u"\n\n  \t", u"   "]))
                else:
                    setattr(x, attr, rng.choice([u"", u" ", u"\n "]) + t.strip() + rng.choice([u"", u"  ", u"\t\n"]))
    case.check(equals(e, c) and equals(c, e), "equal-blanks", "%s differs from %s", exact(e), exact(c))
    case.seen("equal_blanks")
    # one detail
    for _ in range(6):
        m = clone(e)
        nodes = every(m)
        x = rng.choice(nodes)
        if x is not m:
            case.seen("mutant_deep")
        kind = rng.choice(["tag", "attrib", "text", "tail", "child", "order", "count"])
        if kind == "tag":
            x.tag = x.tag + u"z"
        elif kind == "attrib":
            how = rng.below(3)
            if how == 0 or not x.attrib:
                x.set(u"new", u"")
            elif how == 1:
                k = rng.choice(sorted(x.attrib))
                x.set(k, x.get(k) + rng.choice([u"z", u" "]))
            else:
                k = rng.choice(sorted(x.attrib))
                v = x.attrib.pop(k)
                if rng.chance(50):
                    x.set(k.upper(), v)
        elif kind in ("text", "tail"):
            t = (getattr(x, kind) or u"").strip()
            setattr(x, kind, re.sub(u"\\s", rng.choice([u"  ", u"\t", u""]), t, 1) if rng.chance(20) else rng.choice([t + u"z", u"z" + t, t[:-1] if t[:-1].strip() != t else t + u"q", t + u" z", u"" if t else u"."]))
        elif kind == "child":
            k = et.Element(u"a")
            x.insert(rng.int(0, len(x)), k)
        elif kind == "count":
            if not len(x):
                continue
            x.remove(x[rng.below(len(x))])
        else:
            if len(x) < 2:
                continue
            i = rng.below(len(x) - 1)
            a, b = x[i], x[i + 1]
            x.remove(a)
            x.insert(i + 1, a)
            if gen.canon(m, False) == gen.canon(e, False):
                continue
        same = gen.canon(m, False) == gen.canon(e, False)
        case.check(bool(equals(e, m)) == same and bool(equals(m, e)) == same, "equal-mutant", "%s and %s: equals gives %s", exact(e), exact(m), equals(e, m))
        case.seen("mutant_" + kind)
    if rng.chance(20):
        a, b, d = et.Element("r"), et.Element("r"), et.Element("r")
        a.append(et.Comment("x"))
        b.append(et.Comment("x"))
        d.append(et.Comment("y"))
        case.check(equals(a, b) and not equals(a, d), "equal-comment", "elements with comments")
        case.seen("comment")
    case.equal(exact(e), keep, "input-changed", "element compared")
    if len(e):
        case.distinct(keep)
    case.sample(keep)


def check_indented(case, before, after, depth, last):
    """before and after: exact() of an element; depth in the tree"""
    case.equal((after[0], after[1]), (before[0], before[1]), "indent-changed", "tag and attributes")
    kids = before[4]
    case.equal(len(after[4]), len(kids), "indent-changed", "number of children")
    nl = u"\n" + u"  " * depth
    if kids and blank(before[2]):
        case.equal(after[2], nl + u"  ", "indent-text", "text before the first child at depth %d" % depth)
    else:
        case.equal(after[2], before[2], "indent-text", "text of an element at depth %d" % depth)
    if not blank(before[2]) and kids:
        case.seen("mixed")
    for i, (b, a) in enumerate(zip(kids, after[4])):
        check_indented(case, b, a, depth + 1, i == len(kids) - 1)
    if depth and blank(before[3]):
        case.equal(after[3], u"\n" + u"  " * (depth - 1 if last else depth), "indent-tail", "text after an element at depth %d" % depth)
    elif depth or last is None:
        case.equal(after[3], before[3], "indent-tail", "text after an element at depth %d" % depth)


def case_indent(case):
    rng = case.rng
    e = relement(rng)
    e.tail = rng.choice([None, u"tail", u" \n"])
    orig = clone(e)
    before = exact(e)
    indent(e)
    after = exact(e)
    check_indented(case, before, after, 0, None)
    case.check(equals(e, orig), "indent-equal", "indented element differs: %s", before)
    indent(e)
    case.equal(exact(e), after, "indent-twice", "indenting again")
    case.seen("indented")
    if rng.chance(30):
        x = clone(orig)
        n = rng.int(1, 3)
        indent(x, n)
        case.check(equals(x, orig), "indent-equal", "element indented at level %d differs", n)
        if len(orig) and blank(orig.text):
            case.equal(x.text, u"\n" + u"  " * (n + 1), "indent-level", "text at level %d" % n)
        case.seen("indent_level")
    if len(orig):
        case.distinct(before)
    case.sample(after)


def dom_exact(n):
    return (n.tag, sorted(n.attrib.items()), n.text or u"", n.tail or u"", [dom_exact(k) for k in n.kids])


def case_write(case):
    rng = case.rng
    e = relement(rng)
    orig = clone(e)
    tree = et.ElementTree(e)
    pp = rng.chance(40)
    path = os.path.join(case.scratch, rng.choice(["out.xml", "a b.xml"]))
    if rng.chance(40):
        gen.put(path, "x" * 20000)
        case.seen("written_over")
    args, kw = [], {}
    if pp:
        kw["pprint"] = True
    enc = rng.choice(gen.ENCODINGS)
    if enc != "utf-8" or rng.chance(30):
        kw["encoding"] = enc
    how = rng.below(4)
    if how == 0:
        write(tree, path, **kw)
        data = gen.get(path)
        case.seen("written_name")
    elif how == 1:
        f = open(path, "wb")
        write(tree, f, **kw)
        f.close()
        data = gen.get(path)
        case.seen("written_file")
    elif how == 2:
        f = StringIO.StringIO()
        write(tree, f, **kw)
        data = f.getvalue()
        case.seen("written_file")
    else:
        gen.TAP.take()
        write(tree, **kw)
        data = gen.TAP.take()
        case.seen("written_stdout")
    gen.check_encoded(case, data, enc)
    got = dom_exact(gen.dom_bytes(data))
    if pp:
        case.check(gen.canon(gen.dom_bytes(data)) == gen.canon(orig), "written", "written %s", data)
        x = clone(orig)
        indent(x)
        case.equal(got, exact(x), "written", "element written with indentation")
        case.seen("written_pprint")
    else:
        case.equal(got, exact(orig), "written", "element written")
        case.equal(exact(e), exact(orig), "input-changed", "element written")
    if how == 0 and rng.chance(50):
        bad = rng.choice([os.path.join(case.scratch, "none", "x.xml"), case.scratch])
        case.raises((IOError, OSError), write, tree, bad, kind="no-error", what="write to an impossible path")
        case.seen("write_refused")
    if len(orig):
        case.distinct(data)
    case.sample(data[:300])


def listing(d):
    out = []
    for b, ds, fs in os.walk(d):
        for x in ds + fs:
            p = os.path.join(b, x)
            out.append((p, os.path.islink(p), gen.get(p) if os.path.isfile(p) else None))
    return sorted(out)


def case_makedirs(case):
    rng = case.rng
    base = os.path.realpath(case.scratch)
    gen.put(os.path.join(base, "file"), "content")
    os.makedirs(os.path.join(base, "dir", "sub"))
    os.symlink(os.path.join(base, "dir"), os.path.join(base, "link"))
    os.symlink(os.path.join(base, "nowhere"), os.path.join(base, "dangling"))
    os.symlink(os.path.join(base, "file"), os.path.join(base, "filelink"))
    path, ok, key = rng.choice([("new", 1, "absent"), ("new/er/est", 1, "absent"), ("dir/new", 1, "absent"), ("dir", 1, "exists"), ("dir/sub", 1, "exists"), ("link", 1, "link"),
                                ("link/new/x", 1, "link"), ("link/sub", 1, "link"), ("file", 0, "file"), ("filelink", 0, "file"), ("file/x", 0, "below_file"), ("file/x/y", 0, "below_file"),
                                ("filelink/x", 0, "below_file"), ("dangling", 0, "dangling"), ("dangling/x", 0, "dangling"),
                                ("new/", 1, "slash"), ("new/x/", 1, "slash"), ("dir/", 1, "slash"), ("dir/sub/", 1, "slash"), ("", 0, "empty"), ("dir/../other", 1, "absent")])
    before = listing(base)
    full = os.path.join(base, path) if path else ""
    if rng.chance(30) and path:
        os.chdir(base)
        full = path
    args = ()
    mode = None
    if rng.chance(30):
        mode = rng.choice([0700, 0755, 0750, 0770, 0777, 0711])
        args = (mode,)
    if ok:
        fresh = not os.path.isdir(full)
        makedirs(full, *args)
        case.check(os.path.isdir(full), "not-made", "%s is no directory", path)
        makedirs(full)
        if mode is not None and fresh:
            case.equal(stat.S_IMODE(os.stat(full).st_mode), mode & ~UMASK, "mode", "mode of %s" % path)
            case.seen("mk_mode")
    else:
        case.raises(OSError, makedirs, full, kind="swallowed", what="makedirs %s" % path)
        case.check(not os.path.isdir(full), "not-made", "%s", path)
        case.seen("mk_refused")
    after = listing(base)
    case.check(all(x in after for x in before), "other", "files changed: %s to %s", before, after)
    case.seen("mk_" + key)
    if rng.chance(30):
        # several threads at once
        deep = os.path.join(base, "t", *["d%d" % i for i in range(rng.int(1, 8))])
        errors, gate = [], threading.Event()

        def body():
            gate.wait()
            try:
                makedirs(deep)
                if not os.path.isdir(deep):
                    errors.append("no directory")
            except Exception, e:
                errors.append(repr(e))
        ts = [threading.Thread(target=body) for _ in range(4)]
        for t in ts:
            t.start()
        gate.set()
        for t in ts:
            t.join()
        case.check(not errors, "mk-concurrent", "threads that create one directory: %s", errors)
        case.seen("mk_concurrent")
    case.distinct((path, mode))


UMASK = os.umask(022)
os.umask(UMASK)


def matcher(pat):
    out, i = "", 0
    while i < len(pat):
        c = pat[i]
        if c == "*":
            out += "[^/]*"
        elif c == "?":
            out += "[^/]"
        elif c == "[":
            j = pat.index("]", i)
            out += pat[i:j + 1].replace("[!", "[^")
            i = j
        else:
            out += re.escape(c)
        i += 1
    rx = re.compile("^" + out + "$")
    return lambda n: bool(rx.match(n)) and not (n.startswith(".") and not pat.startswith("."))


def case_glob(case):
    rng = case.rng
    base = os.path.realpath(case.scratch)
    os.mkdir(os.path.join(base, "s"))
    names = rng.sample(["a.pgc", "b.pgc", "ab.pgc", "c.xml", "B.pgc", "a10.pgc", "a9.pgc", ".hid.pgc", "zz", "a b.pgc", "Z", "a.pgc~"], rng.int(0, 12))
    many = rng.chance(10)
    if many:
        names += ["f%d.pgc" % i for i in rng.sample(range(100), rng.int(30, 70))]
        case.seen("glob_many")
    for n in names:
        gen.put(os.path.join(base, n), "")
        if rng.chance(30):
            gen.put(os.path.join(base, "s", n), "")
    pats = [rng.choice(["*", "*.pgc", "a*", "?.pgc", "[ab]*", "[!a]*", "s/*", "s/?.pgc", "a.pgc", "nothing*", "none/x", "*/a*", "a?.*"]) for _ in range(rng.int(27, 40) if many else rng.int(0, 3))]

    def find(p):
        d, f = os.path.split(p)
        out = []
        if d == "*":
            ds = ["s"]
        else:
            ds = [d]
        for d in ds:
            full = os.path.join(base, d)
            if os.path.isdir(full):
                m = matcher(f)
                out += [os.path.join(base, d, n) for n in os.listdir(full) if m(n)]
        return sorted(out)
    for p in pats:
        want = find(p)
        case.equal(glob(os.path.join(base, p)), want, "glob", "files for %s" % p)
        os.chdir(base)
        case.equal(glob(p), [os.path.relpath(x, base) for x in want], "glob", "files for %s" % p)
        case.seen("glob" if want else "glob_none")
    want = sorted(sum([find(p) for p in pats], []))
    if len(set(want)) < len(want):
        case.seen("glob_overlap")
    case.equal(multiglob([os.path.join(base, p) for p in pats]), want, "multiglob", "files for %s" % pats)
    if len(pats) > 1:
        case.seen("multiglob")
    if want:
        case.distinct((sorted(names), pats))


GROUPS = [("equals", case_equals, 300, 6000), ("indent", case_indent, 200, 4000), ("write", case_write, 150, 2500), ("makedirs", case_makedirs, 200, 2000), ("glob", case_glob, 120, 1500)]
