# -*- coding: utf-8 -*-
"""C26: numbers in words"""
import re
import gen
gen.TAP.take()
import daeso.string.number as N
IMPORT_OUTPUT = gen.TAP.take()

RULE = ("all numbers up to 12 000 in both forms, and numbers up to 10^24 built from zero, small and large groups of three digits, spelled and read back "
        "by an independent reader of Dutch numerals; different numbers must differ; non-trivial = each block of numbers")
REQUIRED = ["read_back", "hundreds", "no_hundreds", "zero_groups", "round", "scale_1000", "scale_1e6", "scale_1e9", "scale_1e21", "all_small", "unique", "long_type"]
ASSUMPTIONS = ["non-negative whole numbers below 10^24"]

UNITS = "nul een twee drie vier vijf zes zeven acht negen".split()
TEENS = "tien elf twaalf dertien veertien vijftien zestien zeventien achttien negentien".split()
TENS = dict(zip("twintig dertig veertig vijftig zestig zeventig tachtig negentig".split(), range(20, 100, 10)))
BELOW100 = {}
for _i, _w in enumerate(UNITS):
    if _i:
        BELOW100[_w] = _i
for _i, _w in enumerate(TEENS):
    BELOW100[_w] = 10 + _i
for _w in TENS:
    BELOW100[_w] = TENS[_w]
    for _i, _u in enumerate(UNITS):
        if _i:
            BELOW100[_u + "en" + _w] = TENS[_w] + _i
SCALES = ["miljoen", "miljard", "biljoen", "biljard", "triljoen", "triljard"]


def group(w):
    """value of words for 1..999, or None; 'eenhonderd' is no Dutch"""
    if w in BELOW100:
        return BELOW100[w]
    m = re.match("^(.*?)honderd(.*)$", w)
    if m:
        h, r = m.groups()
        if h and (h not in UNITS[2:]):
            return None
        if r and r not in BELOW100:
            return None
        return (UNITS.index(h) if h else 1) * 100 + (BELOW100[r] if r else 0)


def hundreds(w):
    """value of words like twaalfhonderdvier: 11..99 hundreds"""
    m = re.match("^(.*?)honderd(.*)$", w)
    if m and m.group(1) in BELOW100 and 11 <= BELOW100[m.group(1)] <= 99 and BELOW100[m.group(1)] % 10 and (
            not m.group(2) or m.group(2) in BELOW100):
        return BELOW100[m.group(1)] * 100 + (BELOW100[m.group(2)] if m.group(2) else 0)


def read(text):
    """value of spelled out words, or None when they are no Dutch numeral"""
    if text == "nul":
        return 0
    words = text.split(" ")
    if "" in words:
        return None
    if len(words) == 1 and hundreds(words[0]):
        return hundreds(words[0])
    total, last, i = 0, 99, 0
    while i < len(words):
        if i + 1 < len(words) and words[i + 1] in SCALES:
            k, g = SCALES.index(words[i + 1]) + 2, group(words[i])
            i += 2
        elif words[i] == "duizend":
            k, g = 1, 1
            i += 1
        elif words[i].endswith("duizend"):
            k, g = 1, group(words[i][:-7])
            if g == 1:
                return None
            i += 1
        else:
            k, g = 0, group(words[i])
            i += 1
        if g is None or k >= last:
            return None
        last = k
        total += g * 1000 ** k
    return total


def check(case, n, prefer):
    w = N.spell_out_number(n) if prefer is None else N.spell_out_number(n, prefer)
    got = read(w)
    case.check(got == n, "read-back", "%s is spelled %s, which reads as %s", n, w, got)
    case.seen("read_back")
    h = prefer is not False and len(str(n)) == 4 and str(n)[1] != "0"
    if h:
        case.check("duizend" not in w, "prefer-hundreds", "%s is spelled %s", n, w)
        case.seen("hundreds")
    else:
        if 1000 <= n < 10000:
            case.check("duizend" in w, "prefer-hundreds", "%s is spelled %s", n, w)
        case.seen("no_hundreds")
    return w


def case_block(case):
    seen = {}
    for n in range(case.index * 500, case.index * 500 + 500):
        for p in (None, True, False):
            w = check(case, n, p)
            case.check(seen.get(w, n) == n, "ambiguous", "%s and %s are both spelled %s", n, seen.get(w), w)
            seen[w] = n
    case.seen("all_small", 500)
    case.seen("unique", len(seen))
    case.distinct(case.index)
    case.equal(IMPORT_OUTPUT, "", "import-output", "output of the import")


def case_large(case):
    rng = case.rng
    seen = {}
    for _ in range(40):
        k = rng.int(1, 8)
        groups = [rng.weighted([(0, 3), (1, 2), (rng.below(20), 2), (rng.below(1000), 3), (100 * rng.int(1, 9), 1), (10 * rng.int(1, 99), 1)]) for _ in range(k)]
        n = 0
        for g in groups:
            n = n * 1000 + g
        if 0 in groups[1:]:
            case.seen("zero_groups")
        if n and not any(groups[1:]):
            case.seen("round")
        for e, name in ((3, "scale_1000"), (6, "scale_1e6"), (9, "scale_1e9"), (21, "scale_1e21")):
            if n >= 10 ** e:
                case.seen(name)
        if isinstance(n, long):
            case.seen("long_type")
        w = check(case, n, rng.choice([None, True, False]))
        case.check(seen.get(w, n) == n, "ambiguous", "%s and %s are both spelled %s", n, seen.get(w), w)
        seen[w] = n
        # neighbours
        for m in (n + 1, n - 1, n + 1000):
            if 0 <= m < 10 ** 24:
                check(case, m, None)
    case.distinct(sorted(seen.values()))
    case.sample(sorted(seen)[:5])


GROUPS = [("small", case_block, 24, 24), ("large", case_large, 60, 1500)]
