# -*- coding: utf-8 -*-
"""C19: evaluation and diff of text alignments"""
import os, re
import gen, ptcgen
from daeso.ptc.document import HitaextDoc
from daeso.ptc.evaluate import eval_alignment
from daeso.ptc.diff import print_diff

RULE = ("random pairs of alignments of two random documents, by number or identifier (also mixed for diff), links on many tags, repeated links; "
        "everything printed is parsed and compared with set operations on the links; non-trivial = some link in either alignment")
REQUIRED = ["eval_files", "eval_several", "eval_again", "eval_many", "diff_many", "eval_zero_true", "eval_zero_pred", "eval_zero_common", "eval_dup", "eval_n", "eval_id", "eval_labels",
            "eval_other_tag", "diff_true_only", "diff_pred_only", "diff_common", "diff_same", "diff_mixed_method", "diff_no_ids", "diff_absent_tag",
            "diff_other_target_tag", "diff_objects", "diff_encoding", "diff_nonascii"]
ASSUMPTIONS = ["both alignments are of the same documents", "links are not repeated in a diff"]


def ratio(a, b):
    return a / float(b) if b else 0.0


def scores(t, p, c):
    pr, re_ = ratio(c, p), ratio(c, t)
    return ratio(p, t), pr, re_, ratio(2 * pr * re_, pr + re_)


def check_row(case, line, nums, label):
    f = line.split(None, 7)
    case.equal([int(x) for x in f[:3]], list(nums), "counts", "counts of %s" % label)
    for name, got, want in zip(("ratio", "precision", "recall", "F"), f[3:7], scores(*nums)):
        case.check(re.match(r"^\d+\.\d\d$", got), "format", "%s printed as %s", name, got)
        case.check(abs(float(got) - want) <= 0.0050001, name, "%s of %s is %s, expected %s", name, label, got, want)
    case.equal(f[7] if len(f) > 7 else None, label, "label", "label")


def check_eval(case, out, sets, tag, labels):
    lines = out.splitlines()
    case.check("true" in lines[0] and set(lines[1]) == set("-") and set(lines[2 + len(sets)]) == set("-"), "layout", "layout %s", out)
    case.equal(len(lines), len(sets) + 4, "rows", "number of lines")
    tot = [0, 0, 0]
    for (l1, l2), label, line in zip(sets, labels, lines[2:]):
        s1, s2 = [set((a, b) for a, b in l if a.tag == tag and b.tag == tag) for l in (l1, l2)]
        nums = len(s1), len(s2), len(s1 & s2)
        check_row(case, line, nums, label)
        tot = [a + b for a, b in zip(tot, nums)]
        case.seen("eval_files")
        for n, k in zip(nums, ("eval_zero_true", "eval_zero_pred", "eval_zero_common")):
            if not n:
                case.seen(k)
        if len(s1) < len([1 for a, b in l1 if a.tag == tag and b.tag == tag]):
            case.seen("eval_dup")
        if any(a.tag != tag or b.tag != tag for a, b in l1):
            case.seen("eval_other_tag")
    check_row(case, lines[-1], tot, None)


def case_eval(case):
    rng = case.rng
    tag = rng.choice([u"s", u"s", u"p", u"w"])
    files, sets, keep = [], [], []
    for i in range(rng.int(1, 3)):
        d = os.path.join(case.scratch, "d%d" % i)
        m = rng.choice([("n",), (None,), ("id",)])
        ids = "all" if m == ("id",) else None
        many = rng.chance(15)
        d1, d2, l1, l2, f1, f2, ms = ptcgen.two_corpora(rng, d, 70 if many else 12, True, methods=m, tag=tag, ids=ids, many=many)
        if many:
            case.seen("eval_many")
        case.seen("eval_id" if m == ("id",) else "eval_n")
        f3 = os.path.join(d, "pred%d.ptc" % i)
        os.rename(f2, f3)
        files.append((f1, f3))
        sets.append((l1, l2))
        keep.append((d1, d2))
    if rng.chance(25):
        # the same files once more
        i = rng.below(len(files))
        j = rng.int(0, len(files))
        for x in (files, sets, keep):
            x.insert(j, x[i])
        case.seen("eval_again")
    if len(files) > 1:
        case.seen("eval_several")
    labels = None
    if rng.chance(40):
        labels = [rng.choice(["a", "first corpus", "x.ptc"]) for _ in files]
        case.seen("eval_labels")
    gen.TAP.take()
    if labels:
        eval_alignment(files, tag, labels)
    else:
        eval_alignment(files, tag)
    out = gen.TAP.take()
    check_eval(case, out, sets, tag, labels or [os.path.basename(f) for _, f in files])
    if any(a or b for a, b in sets):
        case.distinct((tag, out))
    case.sample(out)


def diff_blocks(case, out, enc):
    lines = out.decode(enc).split(u"\n")
    got, i, n = [], 0, 0
    while i < len(lines) and not (i == len(lines) - 1 and lines[i] == u""):
        m = re.match(ur"^#(\d+) (true|predicted) only \((.*), (.*)\):?$", lines[i])
        case.check(m and i + 3 < len(lines) and lines[i + 3] == u"", "layout", "line %s of the diff: %s", i, out)
        n += 1
        case.equal(int(m.group(1)), n, "number", "number of a difference")
        got.append((m.group(2), m.group(3), m.group(4), lines[i + 1], lines[i + 2]))
        i += 4
    return got


def diff_model(case, l1, l2, tag):
    want = []
    for a, b in l1:
        if a.tag == tag:
            if (a, b) not in l2:
                want.append((u"true", a, b))
                case.seen("diff_true_only")
            else:
                case.seen("diff_common")
            if b.tag != tag:
                case.seen("diff_other_target_tag")
    for a, b in l2:
        if a.tag == tag and (a, b) not in l1:
            want.append((u"predicted", a, b))
            case.seen("diff_pred_only")
    if not want:
        case.seen("diff_same")
    return sorted((w, unicode(a.id), unicode(b.id), ptcgen.text_of(a), ptcgen.text_of(b)) for w, a, b in want)


def case_diff(case):
    rng = case.rng
    tag = rng.choice([u"s", u"s", u"p", u"w", u"div"])
    latin = rng.chance(25)
    words = [w for w in ptcgen.WORDS if not latin or max(w) < u"\u0100"]
    many = rng.chance(10)
    d1, d2, l1, l2, f1, f2, ms = ptcgen.two_corpora(rng, case.scratch, 70 if many else rng.choice([3, 12, 20]), False, words, tag=tag, many=many)
    if many:
        case.seen("diff_many")
    if len(set("id" if m == "id" else "n" for m in ms)) > 1:
        case.seen("diff_mixed_method")
    if any(e.id is None for e in d1.flat()):
        case.seen("diff_no_ids")
    if not d1.tagged(tag):
        case.seen("diff_absent_tag")
    want = diff_model(case, l1, l2, tag)
    enc = "latin-1" if latin and rng.chance(60) else "utf-8"
    a, b = f1, f2
    if rng.chance(30):
        a, b = HitaextDoc(file=f1), HitaextDoc(file=f2)
        case.seen("diff_objects")
    before = gen.get(f1), gen.get(f2)
    gen.TAP.take()
    if enc != "utf-8":
        print_diff(a, b, tag, enc)
        case.seen("diff_encoding")
    else:
        print_diff(a, b, tag)
    out = gen.TAP.take()
    got = sorted(diff_blocks(case, out, enc))
    case.equal(got, want, "diff", "differences")
    if any(ord(c) > 127 for c in out):
        case.seen("diff_nonascii")
    case.equal((gen.get(f1), gen.get(f2)), before, "input-changed", "corpus files")
    if l1 or l2:
        case.distinct((tag, out, len(l1), len(l2)))
    case.sample(out)


GROUPS = [("eval", case_eval, 200, 2500), ("diff", case_diff, 300, 4000)]
