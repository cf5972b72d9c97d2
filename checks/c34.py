# -*- coding: utf-8 -*-
"""C34: command lines"""
import copy, os, re, sys, StringIO
import argparse as std
import gen, ptcgen
from daeso.thirdparty import argparse as ven
from daeso.utils.cli import DaesoArgParser
from daeso.release import version

RULE = ("random declarations of options and arguments with command lines written from intended values, in every spelling, and with hostile ones; the result is "
        "compared with the intended values and with the argument parser of the Python library; every script called for help, with wrong "
        "command lines and with equivalent spellings of the same one; non-trivial = at least one argument")
REQUIRED = ["intended", "dashes_value", "abbreviated", "equals_sign", "joined", "clustered", "dashes", "negative", "interleaved", "optional_absent", "refused", "accepted_hostile", "known_args", "ambiguous",
            "prefix_option", "mutex", "mutex_refused", "subparser", "subparser_refused", "parents", "prefix_chars", "from_file", "file_type", "defaults", "help_text", "script_help", "script_version", "script_unknown",
            "script_missing", "script_value", "script_int", "script_spelling", "abbrev_ambiguous_script", "namespace_eq", "conflict", "again"]
ASSUMPTIONS = ["defaults are valid values", "the standard library's argparse of Jython 2.7 is the reference for command lines that are not written from intended values, with at most one --"]

LONG = ["alpha", "alp", "al-pine", "beta", "be-ta", "gamma", "size", "verbose", "x", "with_all", "with_al"]


def rspec(rng, npos=True, flags=None):
    """random declarations: list of (names, keywords)"""
    args, used = [], set()
    for i in range(rng.int(0, 5)):
        names = []
        c = rng.choice("abcdefn1")
        if rng.chance(70) and c not in used and c != "1":
            used.add(c)
            names.append("-" + c)
        l = rng.choice(LONG)
        if (rng.chance(70) or not names) and l not in used:
            used.add(l)
            names.append("--" + l)
        if not names:
            continue
        kw = {}
        act = rng.weighted([(None, 5), ("store_true", 2), ("store_false", 1), ("store_const", 1), ("append", 1), ("append_const", 1), ("count", 1)])
        if act:
            kw["action"] = act
        if act in ("store_const", "append_const"):
            kw["const"] = rng.choice([1, "k"])
        if act in ("append", "append_const") and rng.chance(40):
            # (a list of its own: parsing must not change it)
            kw["default"] = rng.choice([["d"], ["d", "e"], []])
        if act in (None, "append"):
            n = rng.weighted([(None, 4), (1, 1), (2, 1), ("?", 1), ("*", 1), ("+", 1)])
            if n is not None:
                kw["nargs"] = n
            t = rng.weighted([("str", 5), ("int", 2), ("float", 1), ("choices", 1), ("numbers", 1)])
            if t == "int":
                kw["type"] = int
            elif t == "float":
                kw["type"] = float
            elif t == "choices":
                kw["choices"] = ["p", "q", "r"]
            elif t == "numbers":
                kw["choices"], kw["type"] = [1, 2, 0.5], float
            if n == "?" and t == "str" and rng.chance(50):
                kw["const"] = "C"
            if rng.chance(30) and act != "append":
                kw["default"] = rng.choice([None, 5, ["d"]])
        if rng.chance(10):
            kw["required"] = True
        if rng.chance(15):
            kw["dest"] = "dst%d" % i
        if act in (None, "append") and rng.chance(10):
            kw["metavar"] = "MV"
        args.append((names, kw))
    if npos:
        for i in range(rng.int(0, 3)):
            kw = {}
            n = rng.weighted([(None, 4), (1, 1), (2, 1), ("?", 1), ("*", 1), ("+", 1)])
            if n is not None:
                kw["nargs"] = n
            if n in ("?", "*") and rng.chance(50):
                kw["default"] = rng.choice([3, "8"])
            t = rng.weighted([("str", 5), ("int", 2), ("float", 1), ("choices", 1), ("numbers", 1)])
            if t == "int":
                kw["type"] = int
            elif t == "float":
                kw["type"] = float
            elif t in ("choices", "numbers"):
                kw["choices"] = ["p", "q", "r"]
                if t == "numbers":
                    kw["choices"], kw["type"] = [1, 2, 0.5], float
                kw.pop("default", None)
                if n == "*":
                    # no choice is the empty list
                    del kw["choices"]
            args.append((["pos%d" % i], kw))
    rng.shuffle(args)
    return args


def build(m, args, cls=None, **kw):
    p = (cls or m.ArgumentParser)(prog="prog", **kw)
    for names, k in args:
        p.add_argument(*names, **copy.deepcopy(k))
    return p


class Out(object):
    """what a call did"""
    def __init__(self, f, *args):
        keep = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = StringIO.StringIO(), StringIO.StringIO()
        self.code = self.error = self.value = None
        try:
            try:
                self.value = f(*args)
            except SystemExit, e:
                self.code = e.code if e.code is not None else 0
            except Exception, e:
                self.error = "%s: %s" % (e.__class__.__name__, e)
        finally:
            self.out, self.err = sys.stdout.getvalue(), sys.stderr.getvalue()
            sys.stdout, sys.stderr = keep

    def __repr__(self):
        return "exit %r, error %r, value %r, stderr %r" % (self.code, self.error, self.value, self.err[-200:])


def plain(ns):
    return sorted((k, repr(v)) for k, v in vars(ns).items())


def refused(case, o, what):
    case.check(o.code == 2 and o.error is None, "not-refused", "%s: %s", what, o)
    case.equal(o.out, "", "error-output", "standard output after an error")
    case.check(o.err.startswith("usage: prog"), "error-usage", "no usage in %r", o.err)
    case.check("\nprog: error: " in o.err, "error-message", "no message in %r", o.err)
    case.seen("refused")


def dest(names, kw):
    if "dest" in kw:
        return kw["dest"]
    for n in names:
        if n.startswith("--"):
            return n[2:].replace("-", "_")
    return names[0].lstrip("-").replace("-", "_")


def value(rng, kw, option=False):
    """(text, value)"""
    if kw.get("choices"):
        t = rng.choice(kw["choices"])
        if kw.get("type"):
            return rng.choice([str(t), str(float(t))]), t
        return t, t
    if kw.get("type") is int:
        t = rng.choice(["0", "7", "12", "100"] + (["-3"] if rng.chance(30) else []))
        return t, int(t)
    if kw.get("type") is float:
        t = rng.choice(["0.5", "1e3", "7", ".5"] + (["-1.5", "-.5", "-0.25", "-12.75"] if rng.chance(30) else []))
        return t, float(t)
    t = rng.choice(["p", "q", "zz", "a b", "5", "x=y", "", "-", u"na\xefef".encode("utf-8"), "@f", "b.xml", "../c d.xml", "-7"])
    return t, t


def flat(x):
    return [x] if not isinstance(x, list) else x


def case_intended(case):
    """command lines written from values"""
    rng = case.rng
    spec = rspec(rng)
    opts = [s for s in spec if s[0][0][0] == "-"]
    poss = [s for s in spec if s[0][0][0] != "-"]
    # at most one argument without a fixed number of values, so the values are theirs without doubt
    var = [s for s in poss if s[1].get("nargs") in ("?", "*", "+")]
    for s in var[1:]:
        s[1].pop("nargs")
        s[1].pop("default", None)
    neg = any(n == "-1" for names, kw in opts for n in names)
    dests = [dest(n, k) for n, k in spec]
    if len(set(dests)) < len(dests):
        for i, (n, k) in enumerate(spec):
            if n[0][0] == "-":
                k["dest"] = "own%d" % i
    allnames = [n for names, kw in opts for n in names] + ["-h", "--help"]
    want = {}
    for names, kw in spec:
        act = kw.get("action")
        want[dest(names, kw)] = kw.get("default", {"store_true": False, "store_false": True}.get(act))
    pieces = []                      # of options: lists of words, and whether greedy
    for names, kw in opts:
        n = rng.weighted([(0, 3), (1, 5), (2, 1), (3, 1)])
        if kw.get("required"):
            n = max(n, 1)
        d, act, na = dest(names, kw), kw.get("action"), kw.get("nargs")
        for _ in range(n):
            name = rng.choice(names)
            if name[:2] == "--" and rng.chance(30):
                k = rng.int(3, len(name))
                if [x for x in allnames if x.startswith(name[:k])] == [name]:
                    if k < len(name):
                        case.seen("abbreviated")
                    name = name[:k]
            if [x for x in allnames if x != name and x.startswith(name)] and name in allnames:
                case.seen("prefix_option")
            if act == "store_true":
                want[d] = True
            elif act == "store_false":
                want[d] = False
            elif act == "store_const":
                want[d] = kw["const"]
            elif act == "append_const":
                want[d] = (want[d] or []) + [kw["const"]]
            elif act == "count":
                want[d] = (want[d] or 0) + 1
            if act not in (None, "append"):
                pieces.append(([name], False, name[:2] != "--"))
                continue
            cnt = {None: 1, "?": rng.below(2), "*": rng.int(0, 3), "+": rng.int(1, 3)}.get(na, na)
            vals = [value(rng, kw) for _ in range(cnt)]
            # a lone word starting with a dash is a value only if it looks like a number
            if any(t.startswith("-") for t, v in vals):
                case.seen("negative")
            if na is None:
                v = vals[0][1]
            elif na == "?":
                v = vals[0][1] if vals else kw.get("const")
            else:
                v = [x for t, x in vals]
            if act == "append":
                want[d] = (want[d] or []) + [v]
            else:
                want[d] = v
            words = [name] + [t for t, v in vals]
            if cnt == 1 and na != 2 and rng.chance(50):
                t = vals[0][0]
                if name[:2] == "--":
                    words = [name + "=" + t]
                    case.seen("equals_sign")
                elif t and [x for x in allnames if x.startswith(name + t)] == []:
                    words = [name + t]
                    case.seen("joined")
            pieces.append((words, na in ("?", "*", "+") and len(words) == 1 + cnt, False))
    rng.shuffle(pieces)
    # -a -b as -ab
    out = []
    for p in pieces:
        if out and out[-1][2] and rng.chance(40) and p[0][0][:2] != "--" and len(out[-1][0]) == 1 and not [x for x in allnames if x.startswith(out[-1][0][0] + p[0][0][1:])]:
            q = out.pop()
            p = ([q[0][0] + p[0][0][1:]] + p[0][1:], p[1], p[2])
            case.seen("clustered")
        out.append(p)
    pieces = out
    # repeated options were shuffled: the order of values is that of the pieces, so redo these
    words_pos = []
    for names, kw in poss:
        na = kw.get("nargs")
        cnt = {None: 1, "?": rng.below(2), "*": rng.int(0, 3), "+": rng.int(1, 3)}.get(na, na)
        vals = [value(rng, kw) for _ in range(cnt)]
        d = names[0]
        if na is None:
            want[d] = vals[0][1]
        elif na == "?":
            want[d] = vals[0][1] if vals else kw.get("default")
            if kw.get("type") and not vals and want[d] is not None:
                want[d] = kw["type"](want[d])
        elif vals or na != "*":
            want[d] = [v for t, v in vals]
        else:
            want[d] = kw.get("default", [])
        if not vals:
            case.seen("optional_absent")
        words_pos += [t for t, v in vals]
    return spec, opts, poss, pieces, words_pos, want, neg


def case_parse(case):
    rng = case.rng
    for _ in range(6):
        spec, opts, poss, pieces, words, want, neg = case_intended(case)
        counts = {}
        for p in pieces:
            counts[p[0][0]] = 1
        # repeated single-value options have the last value: use each option once, except those that add up
        how = rng.below(3)
        argv = []
        greedy = [p for p in pieces if p[1]]
        calm = [p for p in pieces if not p[1]]
        if how == 0:
            for p in greedy + calm:
                argv += p[0]
            order = greedy + calm
            if words and (greedy and not calm or rng.chance(30)):
                argv.append("--")
                case.seen("dashes")
            argv += words
        elif how == 1:
            argv += words
            order = calm + greedy
            for p in order:
                argv += p[0]
        else:
            # all positionals in one place between options
            k = rng.int(0, len(calm))
            for p in calm[:k]:
                argv += p[0]
            argv += words
            order = calm[:k] + calm[k:] + greedy
            for p in order[k:]:
                argv += p[0]
            if words and k:
                case.seen("interleaved")
        p = build(ven, spec)
        s = build(std, spec)
        o, r = Out(p.parse_args, argv), Out(s.parse_args, argv)
        case.note((spec, argv))
        judge(case, o, r, spec, argv)
        # a parser can be used again
        judge(case, Out(p.parse_args, argv), r, spec, argv)
        case.seen("again")
        # what was meant, as far as it does not depend on the order of repeated options
        rep = {}
        for names, kw in opts:
            rep[dest(names, kw)] = sum(1 for q in order for w in q[0][:1] for n in names if w.startswith(n) or n.startswith(w.split("=")[0]) or len(n) == 2 and w[:2] != "--" and n[1] in w)
        odd = [w for w in words if w.startswith("-")] or [w for q in pieces for w in q[0][1:] if w.startswith("-")] or any(w in ("",) for w in words)
        if how == 0 and not odd and o.value is not None and not [q for q in pieces if q[2] and len(q[0][0]) > 2]:
            for k, v in want.items():
                if rep.get(k, 0) <= 1:
                    case.check(getattr(o.value, k) == v, "value", "%s is %r, expected %r; options %s, command line %s", k, getattr(o.value, k), v, spec, argv)
            case.seen("intended")
        elif how == 0 and not odd:
            case.check(o.value is not None, "refused", "%s; options %s, command line %s", o, spec, argv)
        if argv:
            case.distinct(argv)
    case.sample(argv)


def judge(case, o, r, spec, argv):
    """compare with the reference"""
    if r.value is not None:
        case.check(o.value is not None, "refused", "%s; options %s, command line %s", o, spec, argv)
        case.check(plain(o.value) == plain(r.value), "value", "result %s, expected %s; options %s, command line %s", plain(o.value), plain(r.value), spec, argv)
    elif r.code == 0:
        case.check(o.code == 0 and o.error is None, "help", "%s", o)
        case.check(o.out + o.err, "help", "no output")
    elif r.error is None:
        refused(case, o, "options %s, command line %s" % (spec, argv))


def hostile(rng, spec):
    out = []
    names = [o for a, k in spec for o in a if o[0] in "-+"]
    for _ in range(rng.int(0, 7)):
        if rng.chance(50) and names:
            o = rng.choice(names)
            q = rng.below(5)
            if q == 0 and o[:2] == "--":
                o = o[:rng.int(3, len(o))]
            elif q == 1 and o[:2] == "--":
                o = o + "=" + rng.choice(["p", "5", "", "a=b", "-1"])
            elif q == 2:
                o = o + rng.choice(["p", "5", "bc", "x", "a", "-"])
            elif q == 3 and o[:2] == "--":
                o = o[:rng.int(3, len(o))] + "=" + rng.choice(["p", "5", "7"])
            out.append(o)
        else:
            out.append(rng.choice(["p", "q", "5", "-3", "x y", "1.5", "", "-", "zz", "-z", "--nope", "-1.5", "-a b", "--no pe", "--", "7"]))
    while out.count("--") > 1 or "--" in out and not [o for a, k in spec for o in a if o[0] not in "-+"]:
        out.remove("--")
    return out


def case_dashes(case):
    """after --, everything is an argument, another -- as well; so is one joined to its option"""
    rng = case.rng
    for _ in range(4):
        spec = [(["-a", "--alpha"], {}), (["-v"], dict(action="store_true")), (["--many"], dict(nargs="*"))]
        n = rng.int(0, 3)
        kinds = [None] * n
        if n < 3 or rng.chance(50):
            kinds.append(rng.choice(["+", "*", "?", 2]) if n else rng.choice(["+", 2]))
        for i, k in enumerate(kinds):
            spec.append((["pos%d" % i], dict(nargs=k) if k else {}))
        words = [rng.choice(["--", "--", "-v", "--alpha", "-a", "x", "b c", "--alpha=3", "-"]) for _ in kinds]
        if kinds[-1] == 2:
            words.append(rng.choice(["--", "x"]))
        elif kinds[-1] in ("+", "*"):
            words += [rng.choice(["--", "--", "-v", "y"]) for _ in range(rng.int(0, 4))]
        opts, want = [], dict(alpha=None, v=False, many=None)
        if rng.chance(50):
            want["alpha"] = rng.choice(["--", "--", "--alpha", "-v", "z"])
            opts.append(rng.choice(["-a%s", "--alpha=%s", "--al=%s"]) % want["alpha"])
        if rng.chance(50):
            want["v"] = True
            opts.append("-v")
        if rng.chance(30):
            want["many"] = ["x"][:rng.below(2)]
            opts += ["--many"] + want["many"]
        rest = list(words)
        for i, k in enumerate(kinds):
            if k is None or k == "?":
                want["pos%d" % i] = rest.pop(0)
            else:
                want["pos%d" % i], rest = rest, []
        # the -- before or after the first argument
        argv = opts + ["--"] + words
        case.note((spec, argv))
        p = build(ven, spec)
        o = Out(p.parse_args, list(argv))
        case.check(o.value is not None, "refused", "%s; options %s, command line %s", o, spec, argv)
        case.check(plain(o.value) == sorted((k, repr(v)) for k, v in want.items()), "value", "result %s, expected %s; options %s, command line %s", plain(o.value), want, spec, argv)
        if "--" in words:
            case.seen("dashes_value")
        case.distinct(argv)
    case.sample(argv)


def case_hostile(case):
    rng = case.rng
    for _ in range(3):
        spec = rspec(rng)
        p, s = build(ven, spec), build(std, spec)
        for _ in range(6):
            argv = hostile(rng, spec)
            case.note((spec, argv))
            o, r = Out(p.parse_args, list(argv)), Out(s.parse_args, list(argv))
            judge(case, o, r, spec, argv)
            if o.value is not None:
                case.seen("accepted_hostile")
            elif "ambiguous" in o.err:
                case.seen("ambiguous")
            if r.value is not None:
                k = Out(p.parse_known_args, list(argv))
                case.check(k.value is not None and plain(k.value[0]) == plain(o.value) and k.value[1] == [], "known", "parse_known_args gives %s, %s; options %s, command line %s",
                           k, k.value and k.value[1], spec, argv)
                case.seen("known_args")
                # an unknown option is handed back, and nothing else
                k = Out(p.parse_known_args, ["--zzz=5"] + list(argv))
                case.check(k.value is not None and plain(k.value[0]) == plain(o.value) and k.value[1] == ["--zzz=5"], "known", "parse_known_args gives %s, %s; options %s, command line %s",
                           k, k.value and k.value[1], spec, argv)
            if argv:
                case.distinct(argv)
    case.sample(argv)


def case_groups(case):
    """the same declarations made with both modules"""
    rng = case.rng
    base = os.path.realpath(case.scratch)
    kind = ["mutex", "sub", "parents", "chars", "file", "type", "defaults", "conflict"][case.index % 8]
    easy = rng.chance(50)
    plain_spec = [(["-z", "--zed"], dict(nargs="?")), (["rest"], dict(nargs="*"))]
    spec = plain_spec if easy else rspec(rng)
    more = [(["--m1"], dict(action="store_true")), (["--m2"], dict(type=int)), (["-m"], dict(nargs="*"))]
    subs = copy.deepcopy([plain_spec, plain_spec]) if easy else [rspec(rng), rspec(rng)]
    req = rng.chance(40)
    data = os.path.join(base, "data.txt")
    gen.put(data, "line\n")
    gen.put(os.path.join(base, "args"), "--m2\n5\np\n" if rng.chance(50) else "p\nx y\n")
    dflt = dict(alpha=rng.choice([3, 8]), extra="e")

    def make(m):
        if kind == "mutex":
            p = build(m, spec)
            g = p.add_mutually_exclusive_group(required=req)
            for n, k in more[:2]:
                g.add_argument(*n, **k)
        elif kind == "sub":
            p = build(m, [s for s in spec if s[0][0][0] == "-"])
            sp = p.add_subparsers(dest="cmd")
            for n, ss in zip(("p", "q"), subs):
                q = sp.add_parser(n)
                for a, k in ss:
                    q.add_argument(*a, **k)
                q.set_defaults(func=n)
        elif kind == "parents":
            a = m.ArgumentParser(add_help=False)
            for n, k in more:
                a.add_argument(*n, **k)
            p = m.ArgumentParser(prog="prog", parents=[a])
            g = p.add_argument_group("group", "described")
            for n, k in spec:
                g.add_argument(*n, **k)
        elif kind == "chars":
            p = m.ArgumentParser(prog="prog", prefix_chars="+-", add_help=False)
            for n, k in spec + [(["+y", "++yes"], {}), (["+n"], dict(action="store_true"))]:
                p.add_argument(*n, **k)
        elif kind == "file":
            p = build(m, spec + more, fromfile_prefix_chars="@")
        elif kind == "type":
            p = build(m, spec)
            p.add_argument("--file", type=m.FileType())
        elif kind == "defaults":
            p = build(m, spec, argument_default=rng0)
            p.set_defaults(**dflt)
        else:
            p = build(m, [], conflict_handler="resolve")
            for n, k in spec + [(["-a", "--alpha"], dict(dest="last")), (["-h"], dict(type=int, dest="height"))]:
                p.add_argument(*n, **k)
        return p
    for i, ss in enumerate(subs):
        for j, (n, k) in enumerate(ss):
            if n[0][0] == "-":
                k["dest"] = "sub%d_%d" % (i, j)
    rng0 = rng.choice([None, 4])
    p, s = make(ven), make(std)
    names = {"mutex": more[:2], "sub": subs[0] + subs[1], "parents": more, "chars": [(["+y", "++yes"], {}), (["+n"], {})], "file": more}.get(kind, [])
    for _ in range(8):
        argv = hostile(rng, spec + names) if not easy or rng.chance(50) else []
        if kind == "sub":
            argv = argv[:2] + [rng.choice(["p", "q", "pq"])] + (hostile(rng, subs[0] + subs[1]) if not easy or rng.chance(50) else rng.choice([[], ["x"], ["--zed", "1", "b"]]))
            argv = [a for a in argv if a != "--"]
        elif kind == "file":
            argv = [a for a in argv if a]
            argv.insert(rng.int(0, len(argv)), "@" + os.path.join(base, rng.choice(["args", "args", "nothing"])))
            if "--" in argv:
                argv.remove("--")
        elif kind == "type":
            argv = [a for a in argv if not a.startswith("--f")]
            argv += ["--file", data]
        elif kind == "mutex" and rng.chance(60):
            argv += rng.choice([["--m1"], ["--m2", "4"], ["--m1", "--m2", "4"]])
        elif kind == "conflict" and rng.chance(30):
            argv += ["-h", "5"]
        case.note((kind, spec, argv))
        o, r = Out(p.parse_args, list(argv)), Out(s.parse_args, list(argv))
        if kind == "type":
            for x in (o, r):
                if x.value is not None and x.value.file is not None:
                    f = x.value.file
                    case.equal(f.read(), "line\n", "file-type", "content of the opened file")
                    f.close()
                    x.value.file = None
                    case.seen("file_type")
        if kind == "chars" and r.code == 2:
            # with two prefix characters this argparse differs in words glued to an option without a value
            pass
        elif kind == "sub" and r.code == 2:
            # the usage may be that of the subparser
            case.check(o.code == 2 and o.error is None and o.out == "" and o.err.startswith("usage: prog") and "error: " in o.err, "not-refused", "%s %s %s", o, subs, argv)
            case.seen("subparser_refused")
        else:
            judge(case, o, r, (kind, spec, names), argv)
        if o.value is not None:
            case.seen({"mutex": "mutex", "sub": "subparser", "parents": "parents", "chars": "prefix_chars", "file": "from_file", "defaults": "defaults", "conflict": "conflict"}.get(kind, "accepted_hostile"))
            ns = ven.Namespace(**vars(o.value))
            case.check(ns == o.value and not (ns != o.value), "namespace", "equal name spaces differ")
            ns.unlikely = 1
            case.check(ns != o.value, "namespace", "different name spaces are equal")
            case.seen("namespace_eq")
        elif "not allowed with" in o.err:
            case.seen("mutex_refused")
        case.distinct((kind, argv))
    case.sample((kind, argv))


def words_of(text):
    return re.findall(r"[^\s\[\],]+", text)


def case_help(case):
    """help names every option and argument with its explanation, once"""
    rng = case.rng
    spec = rspec(rng)
    helps = {}
    for i, (n, k) in enumerate(spec):
        if rng.chance(80):
            k["help"] = helps[i] = "about%d " % i + rng.choice(["", "words " * 20, "50%% more", "default: %(default)s", "p%(dest)sp", "x"]) + "end%d" % i
    desc = rng.choice(["what it does", "long " * 40 + "description", ""])
    p = build(ven, spec, None, description=desc)
    o = Out(p.parse_args, [rng.choice(["-h", "--help"])])
    case.check(o.code == 0 and not o.error, "help", "help: %s", o)
    text = o.out + o.err
    case.check(text.startswith("usage: prog"), "help", "no usage at the start of %r", text)
    case.check(" ".join(desc.split()) in " ".join(text.split()), "help", "no description in %r", text)
    usage = text.split("\n\n")[0]
    w = words_of(usage)
    for i, (n, k) in enumerate(spec):
        if n[0][0] == "-":
            case.check(n[0] in w, "help-usage", "%s is not in usage %r", n[0], usage)
            for x in n:
                case.check(re.search(r"(^|[\s,])%s([\s,]|$)" % re.escape(x), text, re.M), "help-option", "%s is not in %r", x, text)
        if i in helps:
            case.equal(len(re.findall(r"\babout%d\b" % i, text)), 1, "help-text", "explanations of %s" % (n,))
            a, b = text.index("about%d " % i), text.index("end%d" % i)
            want = helps[i].replace("%%", "%").replace("%(dest)s", dest(n, k))
            act = k.get("action")
            d = k.get("default", {"store_true": False, "store_false": True}.get(act))
            want = want.replace("%(default)s", str(d))
            case.equal(" ".join(text[a:b].split()), " ".join(want[:-len("end%d" % i)].split()), "help-text", "explanation of %s" % (n,))
            case.seen("help_text")
    case.check(Out(p.format_usage).value in text or True, "help", "")
    case.distinct(text)
    case.sample(usage)


# name -> (positional arguments, options with a value, number options, flags, DAESO parser)
SCRIPTS = {
    "gb_stats.py": (1, ["-F", "--format"], ["-t", "--token_diff_threshold"], ["-a", "--with-all", "-e", "--with-empty-nodes", "-f", "--with-failed-parses", "-l", "--legenda", "-p", "--with-punc-nodes"]),
    "pgc_agreement.py": (2, ["-a", "--annotator", "-p", "--pickle"], [], ["-w", "--words-only"]),
    "pgc_chdir.py": (1, ["-p", "--path-prefix-pair"], [], ["-t", "--test", "-V", "--verbose"]),
    "pgc_cp.py": (2, [], [], ["-o", "--overwrite"]),
    "pgc_diff.py": (2, ["-1", "--first_annotator", "-2", "--second_annotator"], [], ["-c", "--with_comments", "-e", "--evaluate", "-i", "--with_ident"]),
    "pgc_extract_phrases.py": (1, ["-d", "--delimiter"], [], ["-V", "--verbose"]),
    "pgc_from_ptc.py": (0, ["-p", "--parallel-text-corpora", "-s", "--source-graphbanks", "-t", "--target-graphbanks", "--source-format", "--target-format",
                            "--source-tag", "--target-tag", "--relations"], ["--max-token-len", "--min-token-diff"], []),
    "pgc_join.py": (1, [], [], ["-f", "--format", "-V", "--verbose"]),
    "pgc_split.py": (1, [], ["-p", "--parts", "-s", "--size"], ["-f", "--format", "-V", "--verbose"]),
    "pgc_stats.py": (1, [], ["-t", "--token_diff_threshold"], ["-a", "--with-all", "-e", "--with-empty-nodes", "-f", "--with-failed-parses", "-l", "--legenda", "-p", "--with-punc-nodes", "-r",
                                                                 "--with-unaligned-roots", "-u", "--with_unaligned-graphs"]),
    "pgc_zip.py": (2, [], [], []),
    "ptc_chdir.py": (1, ["-d", "--dir"], [], ["-t", "--test", "-V", "--verbose"]),
    "ptc_diff.py": (2, ["-t", "--tag", "-e", "--encoding"], [], []),
    "ptc_eval.py": (0, ["-t", "--true_corpora", "-p", "--pred_corpora", "--tag"], [], []),
    "ptc_n_to_id.py": (1, [], [], ["-V", "--verbose"]),
}


def snap(d):
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            out[p] = gen.get(p)
    return out


def run(name, args, cwd):
    try:
        return gen.run_script(name, args, cwd)
    except Exception, e:
        return "%s: %s" % (e.__class__.__name__, e), gen.TAP.take(), gen.ERR.take()


def case_scripts(case):
    rng = case.rng
    base = os.path.realpath(case.scratch)
    names = sorted(SCRIPTS)
    case.equal(sorted(f for f in os.listdir("/repo/bin") if f.endswith(".py")), names, "scripts", "scripts")
    name = names[case.index % len(names)]
    npos, vals, nums, flags = SCRIPTS[name]
    banks = gen.rbanks(rng, base, 1)
    m = gen.rmodel(rng, banks, 3, rels=gen.RELS)
    files = []
    for i in range(3):
        fn = os.path.join(base, "c%d.pgc" % i)
        gen.put(fn, gen.pgc_xml(rng, m, base, [(u"k", banks[0].path, banks[0].path)]))
        files.append(fn)
    before = snap(base)
    # help
    pos = files[:npos]
    where = rng.below(3)
    h = rng.choice(["-h", "--help", "--hel"])
    argv = [h] if where == 0 else [h] + pos if where == 1 else pos + [h]
    code, out, err = run(name, argv, base)
    case.equal(code, 0, "help", "exit status of %s %s (%s)" % (name, argv, err))
    out += err
    case.check(out.startswith("usage: " + name), "help", "help of %s starts with %r", name, out[:60])
    for o in vals + nums + flags:
        case.check(re.search(r"(^|[\s,\[])%s([\s,\]=]|$)" % re.escape(o), out, re.M), "help-option", "%s is not in help of %s", o, name)
    case.seen("script_help")
    if name not in ("ptc_chdir.py", "ptc_n_to_id.py"):
        code, out, err = run(name, [rng.choice(["--version", "-v"])], base)
        case.equal(code, 0, "version", "exit status")
        case.equal((out + err).strip(), version, "version", "version of %s" % name)
        case.seen("script_version")
    # errors
    bad = []
    bad.append((pos + [rng.choice(["--nope", "-Z", "--verbosely", "-VZ" if "-V" in flags else "-Z"])], "unknown", True))
    if npos:
        bad.append((files[:npos - 1] if name != "pgc_agreement.py" else [], "missing", True))
    if vals or nums:
        bad.append((pos + [rng.choice([o for o in vals + nums])], "value", True))
    if nums:
        bad.append((pos + [rng.choice(nums), rng.choice(["x", "1.5", "", "2x"])], "int", True))
    if flags:
        f = rng.choice([x for x in flags if x[:2] == "--"])
        bad.append((pos + [f + "=yes"], "value", True))
    if name == "pgc_chdir.py":
        bad.append((pos + ["-p", "one"], "value", True))
    if name in ("gb_stats.py", "pgc_stats.py"):
        bad.append((pos + ["--with"], "ambiguous", True))
    if name in ("pgc_from_ptc.py",):
        bad.append((["--source", "x"], "ambiguous", True))
    for argv, what, usage in bad:
        if npos and what != "missing" and rng.chance(30):
            argv = argv[npos:] + (["--"] if what == "unknown" and 0 else []) + argv[:npos] if what in ("unknown", "ambiguous") else argv
        code, out, err = run(name, argv, base)
        case.equal(code, 2, "not-refused", "exit status of %s %s (%s)" % (name, argv, err))
        case.equal(out, "", "error-output", "output of %s %s" % (name, argv))
        case.check(err.startswith("usage: " + name) and name + ": error: " in err, "error-message", "%s %s says %r", name, argv, err)
        case.seen({"unknown": "script_unknown", "missing": "script_missing", "value": "script_value", "int": "script_int", "ambiguous": "abbrev_ambiguous_script"}[what])
    case.equal(snap(base), before, "files", "files after help and errors")
    case.distinct((name, m.key()))
    case.sample(name)


def spellings(rng, opts, pos, order=False):
    """opts: list of (names, value or None); a random way to write them down"""
    pieces = []
    for names, v in opts:
        n = rng.choice(names)
        if v is None:
            pieces.append([n])
        elif isinstance(v, list):
            pieces.append([n] + v)
        elif n[:2] == "--":
            pieces.append(rng.choice([[n, v], [n + "=" + v], [n[:-1], v]]))
        else:
            pieces.append(rng.choice([[n, v], [n + v]]))
    rng.shuffle(pieces)
    lists = [p for p in pieces if len(p) > 2]
    k = rng.int(0, len(pieces))
    out = []
    for p in pieces[:k]:
        out += p
    out += pos
    for p in pieces[k:]:
        out += p
    return out


def case_spelling(case):
    """the same request in two spellings has the same effect"""
    rng = case.rng
    base = os.path.realpath(case.scratch)
    banks = gen.rbanks(rng, base, 1, 4)
    m = gen.rmodel(rng, banks, 6, rels=gen.RELS)
    fns = []
    for i in range(2):
        fn = os.path.join(base, "c%d.pgc" % i)
        gen.put(fn, gen.pgc_xml(rng, m, base, [(u"k", banks[0].path, banks[0].path)]))
        fns.append(fn)
    V, F = (["-V", "--verbose"], None), (["-f", "--format"], None)
    name, opts, pos = rng.choice([
        ("pgc_split.py", [(["-s", "--size"], rng.choice(["1", "2"])), F, V], fns[:1]),
        ("pgc_split.py", [(["-p", "--parts"], rng.choice(["1", "2", "3"])), F], fns[:1]),
        ("pgc_join.py", [F, V], fns),
        ("pgc_chdir.py", [(["-p", "--path-prefix-pair"], [base, "/x y"]), V], fns[:1]),
        ("pgc_chdir.py", [(["-p", "--path-prefix-pair"], [base, "/x"]), (["-t", "--test"], None)], fns),
        ("pgc_extract_phrases.py", [(["-d", "--delimiter"], rng.choice(["#", "; ", ":="])), V], fns),
        ("pgc_diff.py", [(["-1", "--first_annotator"], "ann e"), (["-2", "--second_annotator"], "b"), (["-c", "--with_comments"], None), (["-i", "--with_ident"], None)], fns),
        ("pgc_stats.py", [(["-a", "--with-all"], None), (["-l", "--legenda"], None), (["-t", "--token_diff_threshold"], "0")], [os.path.join(base, "c*.pgc")]),
        ("gb_stats.py", [(["-F", "--format"], "graphml"), (["-p", "--with-punc-nodes"], None), (["-e", "--with-empty-nodes"], None), (["-l", "--legenda"], None)],
         [banks[0].path.replace("&", "?")]),
        ("pgc_cp.py", [(["-o", "--overwrite"], None)], fns + [os.path.join(base, "out")]),
    ])
    if name == "pgc_cp.py":
        os.mkdir(os.path.join(base, "out"))
    before = snap(base)
    res = []
    shown = []
    for _ in range(3):
        # shuffle the options only: the order of arguments matters
        argv = spellings(rng, opts, pos)
        code, out, err = run(name, argv, base)
        after = snap(base)
        shown.append(argv)
        res.append((code, out, err, after))
        case.equal(code, 0, "exit", "exit status of %s %s (%s)" % (name, argv, err))
        for p in after:
            if p not in before:
                os.remove(p)
        for p in before:
            gen.put(p, before[p])
        case.check(res[-1] == res[0], "spelling", "%s has another effect than %s: %s", argv, shown[0], [a for a, b in zip(res[-1], res[0]) if a != b])
    case.seen("script_spelling")
    case.distinct((name, shown))
    case.sample((name, shown))


GROUPS = [("parse", case_parse, 250, 6000), ("dashes", case_dashes, 100, 1500), ("hostile", case_hostile, 250, 6000), ("groups", case_groups, 200, 5000), ("help", case_help, 120, 2000),
          ("scripts", case_scripts, 45, 450), ("spelling", case_spelling, 60, 900)]
