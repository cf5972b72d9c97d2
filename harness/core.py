# -*- coding: utf-8 -*-
"""Worker side of the harness (runs on Jython, Python 2.7)."""
import __builtin__
import codecs
import json
import os
import shutil
import sys
import traceback
import warnings
import zlib

import java.lang

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CHECKS = os.path.join(VERIF, "checks")


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, msg)
        self.kind = kind
        self.msg = msg


class Rng(object):
    """Small deterministic PRNG (xorshift64*), the same on every platform."""
    MASK = (1 << 64) - 1

    def __init__(self, *key):
        s = repr(key)
        self.s = ((zlib.crc32(s) & 0xffffffff) << 32 |
                  (zlib.crc32(s + "#2") & 0xffffffff)) or 1
        for _ in range(4):
            self._next()

    def _next(self):
        x = self.s
        x ^= x >> 12
        x ^= (x << 25) & self.MASK
        x ^= x >> 27
        self.s = x
        return ((x * 2685821657736338717) & self.MASK) >> 11

    def below(self, n):
        return int(self._next() % n)

    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def chance(self, num, den=100):
        return self.below(den) < num

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def float(self):
        return self._next() / float(1 << 53)

    def shuffle(self, lst):
        for i in range(len(lst) - 1, 0, -1):
            j = self.below(i + 1)
            lst[i], lst[j] = lst[j], lst[i]
        return lst

    def sample(self, seq, k):
        return self.shuffle(list(seq))[:k]

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        r = self.below(tot)
        for x, w in pairs:
            r -= w
            if r < 0:
                return x


def show(obj, limit=600):
    try:
        s = repr(obj)
    except Exception, e:
        s = "<unrepresentable %s: %s>" % (type(obj), e.__class__.__name__)
    if isinstance(s, unicode):
        s = s.encode("utf-8", "replace")
    if len(s) > limit:
        s = s[:limit] + "...(%d)" % len(s)
    return s


class Case(object):
    def __init__(self, run, group, index):
        self.run = run
        self.group = group
        self.index = index
        self.id = "%s:%d" % (group, index)
        self.tier = run.tier
        self.rng = Rng(run.seed, run.prop, group, index)
        self._scratch = None
        self._sig = None
        self.log = []

    # -- what the monitor saw ------------------------------------------------
    def seen(self, key, n=1):
        o = self.run.observed
        o[key] = o.get(key, 0) + n

    def distinct(self, sig):
        """mark the case as non-trivial; repeated calls extend its signature"""
        s = "%s|%s|%s" % (self.group, self._sig,
                          sig if isinstance(sig, str) else repr(sig))
        self._sig = zlib.crc32(s) & 0xffffffff

    def sample(self, obj):
        if self.run.sample_count.get(self.group, 0) < 1:
            self.run.sample_count[self.group] = 1
            self.run.samples.append(dict(group=self.group, case=self.id,
                                         data=show(obj, 700)))

    def note(self, obj):
        self.log.append(show(obj, 300))

    # -- verdicts ------------------------------------------------------------
    def fail(self, kind, msg):
        raise Violation(kind, msg)

    def check(self, cond, kind, msg, *args):
        if not cond:
            if args:
                msg = msg % tuple(show(a, 500) for a in args)
            raise Violation(kind, msg)

    def equal(self, got, want, kind, what=""):
        if type(got) is float or type(want) is float:
            ok = close(got, want)
        else:
            ok = (got == want)
        if not ok:
            raise Violation(kind, "%s: got %s, expected %s" % (
                what, show(got), show(want)))

    def raises(self, exc, fn, *args, **kw):
        """fn must raise exc (a class or tuple); returns the exception"""
        kind = kw.pop("kind", "no-error")
        what = kw.pop("what", getattr(fn, "__name__", "call"))
        try:
            r = fn(*args, **kw)
        except exc, e:
            return e
        raise Violation(kind, "%s%s returned %s instead of raising %s" % (
            what, show(args), show(r), exc))

    # -- scratch -------------------------------------------------------------
    @property
    def scratch(self):
        if self._scratch is None:
            self._scratch = os.path.realpath(os.path.join(
                self.run.dir, "case-%s-%d" % (self.group, self.index)))
            os.makedirs(self._scratch)
        return self._scratch

    def cleanup(self):
        if self._scratch is not None:
            shutil.rmtree(self._scratch, True)


def close(a, b, eps=1e-9):
    if a is None or b is None:
        return a is b
    try:
        if a != a or b != b:
            return a != a and b != b
        return abs(a - b) <= eps * max(1.0, abs(a), abs(b))
    except TypeError:
        return False


class Run(object):
    pass


def exc_text():
    et, ev, tb = sys.exc_info()
    frames = traceback.extract_tb(tb)
    lines = ["%s:%s %s" % (os.path.basename(f[0] or "?"), f[1], f[2])
             for f in frames][-10:]
    try:
        evs = unicode(ev)
    except Exception:
        try:
            evs = repr(ev)
        except Exception:
            evs = "?"
    if isinstance(evs, unicode):
        evs = evs.encode("utf-8", "replace")
    name = getattr(et, "__name__", str(et))
    return name, "%s: %s  @ %s" % (name, evs[:400], " < ".join(reversed(lines)))


def worker_main(argv):
    prop, tier, seed, n, total, wdir = argv[:6]
    only = argv[6] if len(argv) > 6 else None
    seed = int(seed)
    total = int(total)
    n = int(n) if n.isdigit() else 0
    beat = os.path.join(wdir, "beat")

    def heartbeat(text):
        f = open(beat, "w")
        f.write(text)
        f.close()
    heartbeat("start")

    sys.path.insert(0, CHECKS)
    sys.dont_write_bytecode = True
    # keep whatever the code prints out of our way
    real_out = sys.stdout

    run = Run()
    run.prop, run.tier, run.seed, run.dir = prop, tier, seed, wdir
    run.observed, run.sigs, run.samples, run.sample_count = {}, set(), [], {}
    violations, problems, groups = [], [], {}
    meta = {}
    cases = 0
    try:
        mod = __import__(prop.lower())
    except Exception:
        name, text = exc_text()
        tb = traceback.extract_tb(sys.exc_info()[2])
        if any("/repo/" in (f[0] or "") for f in tb):
            violations.append(dict(case="import:0", kind="import-" + name, msg=text))
        else:
            problems.append("import: " + text)
        mod = None
    if mod is not None:
        meta = dict(rule=mod.RULE, required=getattr(mod, "REQUIRED", []),
                    assumptions=getattr(mod, "ASSUMPTIONS", []),
                    level=getattr(mod, "LEVEL", "exploration"))
        t = 0 if tier == "quick" else 1
        todo = []
        for spec in mod.GROUPS:
            name, fn = spec[0], spec[1]
            count = spec[2 + t]
            if callable(count):
                count = count()
            if only:
                g, i = only.rsplit(":", 1)
                if g == name:
                    todo.append((name, fn, int(i)))
            else:
                # offset so that small groups spread over the workers
                off = zlib.crc32(name) % total
                todo += [(name, fn, i) for i in range(count)
                         if (i + off) % total == n]
        kinds = {}
        for name, fn, i in todo:
            heartbeat("%s:%d" % (name, i))
            case = Case(run, name, i)
            v = None
            cwd = os.getcwd()
            so, se = sys.stdout, sys.stderr
            try:
                try:
                    fn(case)
                except Violation, e:
                    v = dict(kind=e.kind, msg=e.msg)
                except KeyboardInterrupt:
                    raise
                except MemoryError:
                    # no workload comes near the limit of the heap
                    v = dict(kind="memory", msg="out of memory " + exc_text()[1])
                except SystemExit, e:
                    v = dict(kind="exit", msg="SystemExit(%s) %s" % (
                        show(e.code), exc_text()[1]))
                except Exception:
                    kind, text = exc_text()
                    v = dict(kind="exc-" + kind, msg=text)
                except java.lang.Throwable:
                    kind, text = exc_text()
                    v = dict(kind="java-" + kind, msg=text)
            finally:
                sys.stdout, sys.stderr = so, se
                os.chdir(cwd)
                try:
                    case.cleanup()
                except Exception:
                    pass
            if case._sig is not None:
                run.sigs.add(case._sig)
            cases += 1
            groups[name] = groups.get(name, 0) + 1
            if v:
                v["case"] = case.id
                if isinstance(v["msg"], unicode):
                    v["msg"] = v["msg"].encode("utf-8", "replace")
                if case.log:
                    v["msg"] += "  LOG: " + " ; ".join(case.log[-25:])
                v["msg"] = v["msg"].decode("utf-8", "replace")
                k = kinds.get(v["kind"], 0)
                kinds[v["kind"]] = k + 1
                if k < 3:
                    violations.append(v)
                if sum(kinds.values()) >= 60 or kinds.get("memory"):
                    break
    heartbeat("finish")
    out = dict(meta=meta, cases=cases, observed=run.observed, groups=groups,
               sigs=sorted(run.sigs), samples=run.samples,
               violations=violations, problems=problems)
    tmp = os.path.join(wdir, "out.tmp")
    f = codecs.open(tmp, "w", "utf-8")
    f.write(unicode(json.dumps(out)))
    f.close()
    os.rename(tmp, os.path.join(wdir, "out.json"))
    sys.stdout.flush()
    # non-daemon JVM threads must not keep a hung worker alive
    java.lang.System.exit(0)
