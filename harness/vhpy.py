"""vh.hpp for workloads written in Python: same arguments, same output file, same shared page"""
import hashlib, json, mmap, os, random, signal, struct, sys, time, traceback


def fnv(s):
    h = 1469598103934665603
    for c in s.encode("utf8", "replace"):
        h = ((h ^ c) * 1099511628211) & ((1 << 64) - 1)
    return h


class Draws(random.Random):
    """counts its draws and replaces the ones asked for"""
    drawn, other = 0, {}

    def random(self):
        self.drawn += 1
        v = super().random()
        return self.other[self.drawn] if self.drawn in self.other else v

    def getrandbits(self, k):
        self.drawn += 1
        v = super().getrandbits(k)
        return int(self.other[self.drawn] * (1 << k)) if self.drawn in self.other else v


class H:
    def __init__(self, argv):
        self.prop, self.tier, self.seed, self.out, shm, self.scratch = argv[1], argv[2], int(argv[3]), argv[4], argv[5], argv[6]
        o = dict(zip(argv[7::2], argv[8::2]))
        self.only = int(o.get("--only", -1))
        self.shard, self.nshard, self.start = int(o.get("--shard", 0)), int(o.get("--nshard", 1)), int(o.get("--start", 0))
        self.case_no = self.evaluations = 0
        self.desc, self.rule = "", ""
        self.counts, self.fails, self.per_key, self.distinct, self.samples = {}, [], {}, set(), []
        fd = os.open(shm, os.O_RDWR | os.O_CREAT, 0o644)
        os.ftruncate(fd, 8192)
        self.shm = mmap.mmap(fd, 8192)
        self.rng = random.Random(0)

    def thorough(self):
        return self.tier == "thorough"

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def describe(self, d):
        self.desc = d
        b = d.encode("utf8", "replace")[:4000]
        self.shm[16:16 + len(b) + 1] = b + b"\0"

    def nontrivial(self, sig):
        n = len(self.distinct)
        self.distinct.add(fnv(sig))
        if len(self.distinct) > n and len(self.samples) < 4 and (self.evaluations % 7 == 0 or not self.samples):
            self.samples.append((self.desc or sig)[:600])

    def fail(self, key, detail):
        self.per_key[key] = self.per_key.get(key, 0) + 1
        if self.per_key[key] <= 2:
            self.fails.append({"key": key, "case": self.case_no, "detail": str(detail)[:4000], "desc": self.desc[:4000]})
            print(f"FAIL {self.prop} case {self.case_no} key={key}: {str(detail)[:1500]}\n   case: {self.desc[:1500]}", file=sys.stderr, flush=True)

    def check(self, ok, key, detail=""):
        self.count("oracle_checks")
        if not ok:
            self.fail(key, detail() if callable(detail) else detail)
        return bool(ok)

    def cases(self, label, quick, thorough, body):
        n = thorough if self.thorough() else quick
        for i in range(n):
            self._one(label, i, body)
            self.case_no += 1

    def _one(self, label, i, body):
        if self.case_no < self.start:
            return
        if (self.case_no != self.only) if self.only >= 0 else (self.case_no % self.nshard != self.shard):
            return
        name = f"{self.seed}/{self.prop}/{label}/{i}"
        self.rng = Draws(name)
        self._run(label, body)
        if (self.seed + i) % 6 != 3:
            return
        # the same case again with one or two draws replaced: whatever was kept from the last call is now stale
        pick, n = random.Random("again " + name), max(1, self.rng.drawn)
        self.rng = Draws(name)
        self.rng.other = {pick.randint(1, min(n, pick.choice([12, 40, 40, 1 << 30]))): pick.random() for _ in range(pick.choice([1, 1, 2]))}
        self.count("cases_repeated_with_a_draw_changed")
        self._run(label, body)

    def _run(self, label, body):
        self.shm[0:16] = struct.pack("<QQ", self.case_no, self.evaluations)
        self.describe(label)
        signal.setitimer(signal.ITIMER_PROF, 240 if self.thorough() else 120)
        self.evaluations += 1
        self.count("cases_" + label)
        began = time.monotonic()
        try:
            body(self)
        except Exception as e:
            self.fail("unexpected-exception-" + type(e).__name__, traceback.format_exc())
        self.counts["max_case_ms"] = max(self.counts.get("max_case_ms", 0), int(1000 * (time.monotonic() - began)))

    def finish(self):
        signal.setitimer(signal.ITIMER_PROF, 0)
        json.dump({"property": self.prop, "seed": self.seed, "evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
                   "samples": self.samples, "hashes": sorted(self.distinct), "counts": self.counts, "fails": self.fails}, open(self.out, "w"))
