# -*- coding: utf-8 -*-
"""C28: the shared cache under histories of one and several threads"""
import itertools
import sys
import threading
import time
from java.lang import Thread
from java.util.concurrent.atomic import AtomicLong
import gen

# the clock the cache reads, however it imports it
REAL = time.time
CLOCK = [None]


def now():
    return REAL() if CLOCK[0] is None else CLOCK[0]


time.time = staticmethod(now)
import daeso.thirdparty.GenericCache as G
from daeso.thirdparty.GenericCache import GenericCache, CacheNode
from daeso.thirdparty.GenericCache.GenericCache import cached
from daeso.thirdparty.GenericCache.LRUStock import LRUStock
time.time = staticmethod(now)

RULE = ("histories of cache operations of one thread (enumerated short ones, random long ones with a controlled clock) compared step by step with a model; "
        "histories of 2-4 real threads with injected delays recorded with call and return order and checked for a sequential explanation, followed by observing the eviction order; "
        "non-trivial = history with an eviction, or concurrent operations that overlapped")
REQUIRED = ["large", "evicted", "expired", "reinserted", "number_keys", "node_inserted", "generated", "generator_kept", "key_error", "reconfigured", "collected", "default_fail",
            "overlapped", "conc_evicted", "conc_generated", "conc_failed", "drained", "recursive", "cached_again", "enumerated", "lru_list", "order_explained", "traced", "delayed", "expiry_refreshed", "reader_runs"]
ASSUMPTIONS = ["keys are told apart by their string form, as documented", "an expired item leaves when it is accessed or collected (lazily, as documented)",
               "the inherited methods of dict that the cache does not define are not used"]

class Same(object):
    """a value that claims to equal any other"""
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False


MISS = "<missing>"
HUNG = []


class Model(object):
    """the cache as a list of (key string, value, time stored), least recently used first"""
    def __init__(self, maxsize=None, expiry=None):
        self.maxsize, self.expiry, self.items = maxsize, expiry, []
        self.evicted = 0

    def find(self, k):
        for i, x in enumerate(self.items):
            if x[0] == k:
                return i

    def dead(self, x, t):
        return bool(self.expiry) and x[2] + self.expiry < t

    def insert(self, k, v, t=0):
        i = self.find(k)
        if i is not None:
            del self.items[i]
        elif self.maxsize:
            while len(self.items) + 1 > self.maxsize:
                del self.items[0]
                self.evicted += 1
        self.items.append((k, v, t))

    def fetch(self, k, t=0):
        i = self.find(k)
        if i is None:
            return MISS
        x = self.items.pop(i)
        if self.dead(x, t):
            return MISS
        self.items.append(x)
        return x[1]

    def remove(self, k):
        i = self.find(k)
        if i is not None:
            del self.items[i]

    def configure(self, maxsize, expiry):
        self.maxsize, self.expiry = maxsize, expiry
        if maxsize:
            while len(self.items) > maxsize:
                del self.items[0]
                self.evicted += 1


def guarded(case, fn, seconds=40):
    """run fn in a thread of its own that must terminate"""
    if HUNG:
        return
    box = []

    def run():
        try:
            fn()
            box.append(None)
        except:
            box.append(sys.exc_info())
    t = threading.Thread(target=run)
    t.setDaemon(True)
    t.start()
    t.join(seconds)
    if not box:
        HUNG.append(1)
        case.fail("hang", "an operation on the cache does not terminate")
    if box[0]:
        raise box[0][0], box[0][1], box[0][2]


def drain(case, cache, model, t, what):
    """observe the recency order: what each further insertion evicts"""
    k = 0
    while any(not str(x[0]).startswith("drain") for x in model.items):
        name = "drain%d" % k
        k += 1
        cache.insert(name, k)
        model.insert(name, k, t)
        live = sorted(x[0] for x in model.items)
        case.equal(sorted(str(x) for x in cache.keys()), live, "eviction", what + ": keys after insertion number %d" % k)
        if not model.maxsize:
            break
    case.seen("drained")


KEYS = ["a", "b", "c", "key d"]
MIXED = ["a", 1, "1", u"a", (1, "x"), 2.5, "(1, 'x')", None]


def case_serial(case):
    guarded(case, lambda: serial(case))


def serial(case):
    rng = case.rng
    expiry = rng.choice([None, None, 10, 3])
    maxsize = rng.choice([None, 1, 2, 3, 5])
    fail = rng.chance(20)
    keys = rng.choice([KEYS, MIXED])
    CLOCK[0] = 1000.25
    large = rng.chance(6)
    if large:
        case.seen("large")
        keys, maxsize = list(keys) + range(100, 160), rng.choice([None, 30, 40])
    try:
        kw = dict(maxsize=maxsize, expiry=expiry)
        if fail:
            kw["default_fail"] = True
            case.seen("default_fail")
        c, m = GenericCache(**kw), Model(maxsize, expiry)
        log = []
        if large:
            for k in keys:
                c.insert(k, k)
                m.insert(str(k), k, CLOCK[0])
        for step in range(rng.int(5, 60)):
            if rng.chance(30 if not large else 12):
                CLOCK[0] += rng.choice([1, 2, 4, 11])
            t = CLOCK[0]
            k = rng.choice(keys)
            ks = str(k)
            if not isinstance(k, basestring):
                case.seen("number_keys")
            v = rng.choice([step, "v%d" % step, None, [step], Same(), 0, ""])
            op = rng.weighted([("insert", 6), ("set", 3), ("node", 2), ("keyonly", 1), ("fetch", 6), ("get", 3), ("fetchfail", 2), ("missing", 2),
                               ("remove", 2), ("del", 1), ("gen", 4), ("genfail", 1), ("has", 3), ("collect", 1), ("clear", 1), ("config", 1)])
            case.note((op, k, t))
            i = m.find(ks)
            dead = i is not None and m.dead(m.items[i], t)
            if dead:
                case.seen("expired")
            if op in ("insert", "set", "node", "keyonly"):
                if i is not None:
                    case.seen("reinserted")
                    if expiry and not dead and m.items[i][2] < t:
                        case.seen("expiry_refreshed")
                if op == "insert":
                    c.insert(k, v)
                elif op == "set":
                    c[k] = v
                elif op == "node":
                    c.insert(CacheNode(k, v))
                    case.seen("node_inserted")
                else:
                    v = k
                    c.insert(k)
                m.insert(ks, v, t)
            elif op in ("fetch", "missing"):
                want = m.fetch(ks, t)
                how = rng.below(3)
                if op == "missing" and how and want is MISS and (fail or how == 2):
                    # the value for missing keys does not prevent an error where one is asked for
                    case.raises(KeyError, c.fetch, k, kind="no-key-error", **dict(dict(onmissing=MISS), **({"fail": True} if how == 2 else {})))
                    case.seen("key_error")
                elif op == "missing" and how == 1:
                    case.equal(c.fetch(k, onmissing=MISS), want, "fetch", "fetch(%r, onmissing)" % (k,))
                elif op == "missing":
                    got = c.fetch(k, fail=False, onmissing=MISS)
                    case.equal(got, want, "fetch", "fetch(%r, onmissing)" % (k,))
                elif fail and want is MISS:
                    case.raises(KeyError, c.fetch, k)
                    case.seen("key_error")
                else:
                    case.equal(c.fetch(k), None if want is MISS else want, "fetch", "fetch(%r)" % (k,))
            elif op in ("get", "fetchfail"):
                want = m.fetch(ks, t)
                f = (lambda: c[k]) if op == "get" else (lambda: c.fetch(k, True))
                if want is MISS and (fail or op == "fetchfail"):
                    case.raises(KeyError, f, kind="no-key-error")
                    case.seen("key_error")
                else:
                    case.equal(f(), None if want is MISS else want, "fetch", "cache[%r]" % (k,))
            elif op in ("remove", "del"):
                if op == "del":
                    del c[k]
                else:
                    c.remove(k)
                m.remove(ks)
            elif op == "gen":
                calls = []

                def g(*args, **kwds):
                    calls.append((args, kwds))
                    return v
                got = c.fetch_with_generator(k, g, 1, x=2)
                want = m.fetch(ks, t)
                if want is MISS:
                    case.equal(calls, [((1,), dict(x=2))], "generator-call", "calls of the generator")
                    m.insert(ks, v, t)
                    want = v
                    case.seen("generated")
                else:
                    case.equal(calls, [], "generator-call", "calls of the generator")
                    case.seen("generator_kept")
                case.equal(got, want, "generated", "value for %r" % (k,))
            elif op == "genfail":
                want = m.fetch(ks, t)

                def g():
                    raise ZeroDivisionError
                if want is MISS:
                    case.raises(ZeroDivisionError, c.fetch_with_generator, k, g)
                else:
                    case.equal(c.fetch_with_generator(k, g), want, "generated", "value for %r" % (k,))
            elif op == "has":
                if not dead:
                    case.equal(c.has_key(k), i is not None, "has_key", "has_key(%r)" % (k,))
                    case.equal(k in c, i is not None, "has_key", "%r in cache" % (k,))
            elif op == "collect":
                c.collect()
                m.items = [x for x in m.items if not m.dead(x, t)]
                case.seen("collected")
            elif op == "clear":
                c.clear()
                m.items = []
            elif op == "config":
                maxsize, expiry = rng.choice([None, 1, 2, 4]), rng.choice([expiry, expiry, 5, None])
                c.reconfigure(maxsize, expiry)
                m.configure(maxsize, expiry)
                case.seen("reconfigured")
            case.equal(sorted(str(x) for x in c.keys()), sorted(x[0] for x in m.items), "keys", "keys after %s" % op)
            case.check(not [x for x in c.keys() if not [y for y in keys if type(y) is type(x) and y == x]], "keys", "keys after %s: %s, used %s", op, c.keys(), keys)
            case.equal((c.size(), len(c)), (len(m.items), len(m.items)), "size", "size after %s" % op)
            if m.maxsize:
                case.check(len(c) <= m.maxsize, "capacity", "%s items, capacity %s", len(c), m.maxsize)
            log.append((op, ks))
        if m.evicted:
            case.seen("evicted", m.evicted)
            case.distinct(log)
        for x in list(m.items):
            if not m.dead(x, CLOCK[0]) and rng.chance(50):
                case.equal(c.fetch(x[0]), x[1], "fetch", "value of %s at the end" % x[0])
                m.fetch(x[0], CLOCK[0])
        drain(case, c, m, CLOCK[0], "recency order at the end")
        case.sample(log[:12])
    finally:
        CLOCK[0] = None


ENUM = ["ia", "ib", "ic", "fa", "fb", "ra", "ga"]


def case_enum(case):
    """all short histories"""
    guarded(case, lambda: enum(case))


def enum(case):
    n = 4 if case.tier == "quick" else 6
    first = ENUM[case.index % len(ENUM)]
    second = ENUM[case.index // len(ENUM)]
    for rest in itertools.product(ENUM, repeat=n - 2):
        h = (first, second) + rest
        c, m = GenericCache(maxsize=2), Model(2)
        for j, (op, k) in enumerate(h):
            if op == "i":
                c[k] = j
                m.insert(k, j)
            elif op == "f":
                case.equal(c.fetch(k, onmissing=MISS), m.fetch(k), "fetch", "history %s step %d" % (h, j))
            elif op == "r":
                c.remove(k)
                m.remove(k)
            else:
                got = c.fetch_with_generator(k, lambda: j)
                w = m.fetch(k)
                if w is MISS:
                    m.insert(k, j)
                    w = j
                case.equal(got, w, "generated", "history %s step %d" % (h, j))
        case.equal(sorted(c.keys()), sorted(x[0] for x in m.items), "keys", "history %s" % (h,))
        drain(case, c, m, 0, "history %s" % (h,))
        case.seen("enumerated")
        if m.evicted:
            case.distinct(h)


def case_lru(case):
    """the recency list by itself"""
    guarded(case, lambda: lru(case))


def lru(case):
    rng = case.rng
    s, want = LRUStock(), []
    for _ in range(rng.int(3, 40)):
        k = rng.choice("abcd")
        op = rng.choice(["add", "update", "discard", "pop", "clear", "add", "update"])
        case.note((op, k))
        if op in ("add", "update"):
            getattr(s, op)(k)
            if k in want:
                want.remove(k)
            want.append(k)
        elif op == "discard":
            s.discard(k)
            if k in want:
                want.remove(k)
        elif op == "pop":
            case.equal(s.pop(), want[0] if want else None, "lru-head", "head")
        elif rng.chance(20):
            s.clear()
            want = []
        case.equal(list(itertools.islice(iter(s), 100)), want, "lru-order", "order after %s" % op)
        case.equal((s.size(), len(s)), (len(want), len(want)), "lru-size", "size")
        case.equal(s.tolist(), want, "lru-order", "list after %s" % op)
        case.equal(str(s), " <- ".join(reversed(want)) + " / " + " -> ".join(want), "lru-str", "string form")
        case.seen("lru_list")
    case.distinct(want)


def case_recursive(case):
    guarded(case, lambda: recursive(case))


def recursive(case):
    rng = case.rng
    c = GenericCache(maxsize=rng.choice([None, 3, 40]), default_fail=rng.chance(30))
    calls = {}

    @cached(c)
    def fib(n):
        calls[n] = calls.get(n, 0) + 1
        return n if n < 2 else fib(n - 1) + fib(n - 2)

    @cached(c, lambda f, *a, **k: "double %s" % a[0])
    def double(x, y=0):
        return 2 * x + y
    a, b = 0, 1
    n = rng.int(2, 18)
    for _ in range(n):
        a, b = b, a + b
    case.equal(fib(n), a, "cached", "fib(%d)" % n)
    if c.maxsize is None:
        case.check(all(v == 1 for v in calls.values()), "cached-calls", "calls %s", calls)
    if c.maxsize is None or c.maxsize > 3:
        k = sum(calls.values())
        fib(n)
        case.equal(sum(calls.values()), k, "cached-calls", "calls of a cached function")
    case.equal(double(4), 8, "cached", "double")
    case.equal(double(4, 7), 8, "cached", "double with own marshaller")
    case.seen("recursive")
    case.distinct(n)


def case_cached(case):
    """functions with arguments of all kinds, cached together"""
    guarded(case, lambda: several(case))


def several(case):
    rng = case.rng
    maxsize = rng.choice([None, None, 2, 5, 60])
    c = GenericCache(maxsize=maxsize, default_fail=rng.chance(30))
    calls = []

    def first(*args, **kwargs):
        calls.append("first")
        return ["first", args, sorted(kwargs.items())]

    def second(*args, **kwargs):
        calls.append("second")
        if kwargs.get("x") == 0:
            raise ZeroDivisionError
        return None if not args else ["second", args, sorted(kwargs.items())]
    fs = dict(first=(cached(c)(first), first), second=(cached(c)(second), second))
    pool = [1, 2, 11, 12, 111, ("x", 1), {"x": 1}, {"x": 0}, "1", u"1", 1.0, True, (1,), (1, 2), [1, 2], "a", u"\xe9", u"\u6771", "'", None, (), {"a": 1}]
    model = []
    hist = []
    for _ in range(rng.int(5, 40)):
        name = rng.choice(sorted(fs))
        args = tuple(rng.choice(pool if rng.chance(60) else pool[:7]) for _ in range(rng.weighted([(0, 1), (1, 4), (2, 3), (3, 1)])))
        kw = {rng.choice("xy"): rng.choice([0, 1, "a"])} if rng.chance(30) else {}
        if hist and rng.chance(50):
            name, args, kw = rng.choice(hist)
        hist.append((name, args, kw))
        case.note((name, args, kw))
        f, plain = fs[name]
        k = (name, repr(args), repr(kw))
        n = len(calls)
        try:
            want = plain(*args, **kw)
        except ZeroDivisionError:
            case.raises(ZeroDivisionError, f, *args, **kw)
            continue
        del calls[n:]
        got = f(*args, **kw)
        case.check(repr(got) == repr(want), "cached", "%s(%s, %s) gives %s", name, args, kw, got)
        case.equal(len(calls) - n, 0 if k in model else 1, "cached-calls", "calls of %s(%r, %r)" % (name, args, kw))
        if k in model:
            model.remove(k)
            case.seen("cached_again")
        model.append(k)
        if maxsize and len(model) > maxsize:
            del model[0]
        case.equal(len(c), len(model), "size", "cached results")
    case.distinct(hist)


# ------------------------------------------------------------- concurrency

class Slow(object):
    """key whose string form takes time, so operations overlap inside the cache"""
    def __init__(self, name, delay):
        self.name, self.delay = name, delay

    def __str__(self):
        self.delay()
        return self.name


def explain(history, maxsize):
    """is there a sequential order of the operations, consistent with real time, in which the
    model gives all results?  history: list of (call, return, op, args, result)"""
    n = len(history)
    pred = [[j for j in range(n) if history[j][1] < history[i][0]] for i in range(n)]
    masks = [sum(1 << j for j in p) for p in pred]
    seen = set()
    stack = [(0, ())]
    full = (1 << n) - 1
    while stack:
        done, state = stack.pop()
        if done == full:
            return len(seen) + 1
        if (done, state) in seen:
            continue
        seen.add((done, state))
        for i in range(n):
            if done >> i & 1 or masks[i] & ~done:
                continue
            new = apply_op(state, maxsize, history[i][2], history[i][3], history[i][4])
            if new is not None:
                stack.append((done | 1 << i, new))
    return 0


def apply_op(state, maxsize, op, args, res):
    """state after op, or None when res is not what op gives in state; state: ((key, value), ...)"""
    d = list(state)

    def pos(k):
        for i, x in enumerate(d):
            if x[0] == k:
                return i

    def insert(k, v):
        i = pos(k)
        if i is not None:
            del d[i]
        elif len(d) >= maxsize:
            del d[:len(d) + 1 - maxsize]
        d.append((k, v))
    if op == "insert":
        insert(*args)
    elif op in ("fetch", "fetchfail"):
        i = pos(args[0])
        if i is None:
            return tuple(d) if res == MISS else None
        x = d.pop(i)
        d.append(x)
        if x[1] != res:
            return None
    elif op == "remove":
        i = pos(args[0])
        if i is not None:
            del d[i]
    elif op == "has":
        if (pos(args[0]) is not None) != res:
            return None
    elif op == "size":
        if len(d) != res:
            return None
    elif op == "keys":
        if tuple(sorted(x[0] for x in d)) != res:
            return None
    elif op == "gen":
        i = pos(args[0])
        if i is None:
            if res != (args[1], 1):
                return None
            insert(*args)
        else:
            x = d.pop(i)
            d.append(x)
            if res != (x[1], 0):
                return None
    elif op == "genfail":
        i = pos(args[0])
        if i is None:
            return tuple(d) if res == ("failed", 1) else None
        x = d.pop(i)
        d.append(x)
        if res != (x[1], 0):
            return None
    elif op == "clear":
        d = []
    return tuple(d)


def perform(c, op, args, key):
    if op == "insert":
        c.insert(key, args[1])
    elif op == "fetch":
        return c.fetch(key, onmissing=MISS)
    elif op == "fetchfail":
        try:
            return c.fetch(key, True)
        except KeyError:
            return MISS
    elif op == "remove":
        c.remove(key)
    elif op == "has":
        return key in c
    elif op == "size":
        return len(c)
    elif op == "keys":
        return tuple(sorted(k if isinstance(k, str) else k.name for k in c.keys()))
    elif op in ("gen", "genfail"):
        calls = []

        def g():
            calls.append(1)
            Thread.yield()
            if op == "genfail":
                raise ZeroDivisionError
            return args[1]
        try:
            return (c.fetch_with_generator(key, g), len(calls))
        except ZeroDivisionError:
            return ("failed", len(calls))
    elif op == "clear":
        c.clear()


def case_conc(case):
    if HUNG:
        return
    rng = case.rng
    maxsize = rng.choice([1, 2, 2, 3])
    nthreads = rng.int(2, 4)
    names = ["a", "b", "c", "d"][:rng.int(2, 4)]
    mode = rng.choice(["plain", "delay", "trace", "both"])
    plans = []
    v = 0
    for t in range(nthreads):
        ops = []
        for _ in range(rng.int(3, 6)):
            op = rng.weighted([("insert", 7), ("fetch", 5), ("fetchfail", 1), ("remove", 2), ("has", 3), ("size", 1), ("keys", 2), ("gen", 3), ("genfail", 1), ("clear", 1)])
            v += 1
            ops.append((op, (rng.choice(names), v)))
        plans.append(ops)
    run_conc(case, plans, maxsize, mode)


def case_readers(case):
    """one slow writer at full capacity, several quick readers"""
    if HUNG:
        return
    rng = case.rng
    names = ["a", "b", "c"][:rng.int(2, 3)]
    writer = [(rng.weighted([("insert", 5), ("gen", 2)]), (names[i % len(names)], i)) for i in range(6)]
    op = rng.choice(["has", "keys", "size", None])
    readers = [[(op or rng.choice(["has", "keys", "size"]), (names[i % len(names)], None)) for i in range(8)] for _ in range(2)]
    case.seen("reader_runs")
    run_conc(case, [writer] + readers, len(names) - 1, "both", True)


def run_conc(case, plans, maxsize, mode, quick_readers=False):
    rng = case.rng
    nthreads = len(plans)
    clock = AtomicLong()
    c = GenericCache(maxsize=maxsize)
    hist, errors, delays, writing = [], [], [], [1]
    gate = threading.Event()
    seeds = [rng.below(1 << 30) for _ in range(nthreads)]

    def body(t):
        state = [seeds[t]]

        def rand(n):
            state[0] = (state[0] * 1103515245 + 12345) & 0x7fffffff
            return (state[0] >> 8) % n

        def delay():
            delays.append(1)
            r = rand(10)
            if r < 3:
                Thread.yield()
            elif r < 5:
                Thread.sleep(0, 200000)
            elif r == 5:
                Thread.sleep(1)

        def trace(frame, event, arg):
            if "GenericCache" in (frame.f_code.co_filename or ""):
                if event == "line" and rand(4) == 0:
                    delay()
                    case.seen("trace_delays")
                return trace
        gate.wait()
        plain = quick_readers and t
        steps = plans[t]
        if plain:
            # read on for as long as the writer is at work
            steps = itertools.takewhile(lambda x: writing or rand(4), itertools.islice(itertools.cycle(plans[t]), 40))
        try:
            for op, args in steps:
                if mode in ("delay", "both") and not plain:
                    key = Slow(args[0], delay)
                else:
                    key = args[0]
                if plain:
                    delay()
                elif mode in ("trace", "both"):
                    sys.settrace(trace)
                start = clock.incrementAndGet()
                res = perform(c, op, args, key)
                end = clock.incrementAndGet()
                sys.settrace(None)
                hist.append((start, end, op, args, res))
            if not t:
                del writing[:]
        except:
            sys.settrace(None)
            errors.append((t, op, args, core_exc()))
    threads = [threading.Thread(target=body, args=(t,)) for t in range(nthreads)]
    for t in threads:
        t.setDaemon(True)
        t.start()
    gate.set()
    deadline = REAL() + 60
    for t in threads:
        t.join(max(0.1, deadline - REAL()))
    if any(t.isAlive() for t in threads):
        HUNG.append(1)
        case.fail("hang", "concurrent operations %s do not terminate" % (plans,))
    case.check(not errors, "conc-error", "errors %s in plans %s", errors, plans)

    def after():
        # what is in the cache now, and in which order it leaves
        for i in range(maxsize + 1):
            name = "z%d" % i
            for op, args in (("keys", (None, None)), ("size", (None, None)), ("insert", (name, -i)), ("keys", (None, None))):
                s = clock.incrementAndGet()
                r = perform(c, op, args, args[0])
                hist.append((s, clock.incrementAndGet(), op, args, r))
                if op == "size":
                    case.check(r <= maxsize, "capacity", "%s items, capacity %s", r, maxsize)
    guarded(case, after)
    hist.sort()
    states = explain(hist, maxsize)
    case.check(states, "not-linearizable", "no sequential order explains %s", hist)
    case.seen("order_explained")
    case.seen("delays_injected", len(delays))
    case.seen("states_searched", states)
    over = len([1 for i, h in enumerate(hist) for g in hist[i + 1:] if g[0] < h[1]])
    case.seen("overlapped", over)
    if mode in ("delay", "both"):
        case.seen("delayed")
    if mode in ("trace", "both"):
        case.seen("traced")
    for h in hist:
        if h[2] == "gen" and h[4][1]:
            case.seen("conc_generated")
        if h[4] == ("failed", 1):
            case.seen("conc_failed")
    if len(set(h[3][0] for h in hist if h[2] in ("insert", "gen"))) > maxsize:
        case.seen("conc_evicted")
    if over:
        case.distinct([(h[2], h[3], h[4]) for h in hist])
    case.sample(hist[:8])


def core_exc():
    import core
    return core.exc_text()[1]


GROUPS = [("serial", case_serial, 300, 5000), ("enum", case_enum, 49, 49), ("lru", case_lru, 100, 1000), ("recursive", case_recursive, 20, 100), ("cached", case_cached, 150, 2000),
          ("conc", case_conc, 500, 10000), ("readers", case_readers, 200, 4000)]
