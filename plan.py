"""The symbolic jobs of every check.

A job is one scenario of /verif/harness with concrete parameters: the configuration of the
algorithm, a concrete prefix, how many bytes after it are symbolic, how the data is cut up, and
how many edges are followed.  See harness/src/run.rs for the meaning of the parameters.
"""

# prefix patterns: < 256 constant byte, < 512 rising by kind - 256, else the seed of a generator,
# with only some of the bits
P = 777
RISE = 257


def low(bits, seed=P):
    return (255 - bits) << 32 | seed



class Cfg:
    """configuration, with the prefix it is used with and a reference number of symbolic bytes"""

    def __init__(self, algo, cfg, n, pat=P, plen=0, tags="", cap=None, cost=1, any=0, wmax=0):
        self.algo, self.cfg, self.n, self.pat, self.plen = algo, list(cfg) + [0] * (4 - len(cfg)), n, pat, plen
        # bit i: the i-th parameter is arbitrary (a window: each length up to wmax)
        self.any, self.wmax = any, wmax
        self.tags = set(tags.split())
        self.cap = cap
        self.cost = cost


M20 = 1 << 20
U32 = (1 << 32) - 1
U64 = (1 << 64) - 1

# core: small configurations, everything symbolic; long: after concrete prefixes, at boundaries
CORE = [
    Cfg("bup", [33], 6),
    Cfg("bup", [16], 7),
    Cfg("bup", [8], 8),
    Cfg("bup", [3], 7),
    Cfg("bup", [1], 6),
    Cfg("buz", [1, 1, 1000], 7),
    Cfg("buz", [2, 3, 3], 7),
    Cfg("buz", [3, 1, 2], 7),
    Cfg("buz", [33, 1, 4], 7),
    Cfg("buz", [2, 0, 5], 7),
    Cfg("buz", [4, U32, 5], 7),
    Cfg("buztab", [2, 1, 100], 7),
    Cfg("buzborg", [2, 3, 100, 7], 5),
    Cfg("buzsalt", [2, 3, 100, 9], 5),
    Cfg("buzsalt", [3, 1, 3, 255], 5),
    Cfg("fast", [1, 2, 4, 1], 7),
    Cfg("fast", [2, 3, 5, 1], 7),
    Cfg("fast", [1, 1, 3, 1], 7),
    Cfg("fast", [2, 2, 6, 0], 5),
    Cfg("fast", [1, 5, 6, 1], 7),
    Cfg("fast", [3, 5, 5, 1], 7),
    Cfg("fast", [0, 2, 4, 1], 6, tags="min0"),
    Cfg("fast", [0, 0, 2, 1], 6, tags="min0"),
    Cfg("gear", [1], 5),
    Cfg("gear", [3], 5),
    Cfg("gear", [8], 4),
    Cfg("gzip", [1, 3], 7),
    Cfg("gzip", [2, 4], 7),
    Cfg("gzip", [3, 256], 7),
    Cfg("gzip", [4, 1000], 7),
    Cfg("gzip", [2, 1], 5),
    Cfg("mii", [1], 8),
    Cfg("mii", [2], 8),
    Cfg("mii", [3], 8),
    Cfg("mii", [5], 9),
    Cfg("mii", [0], 5),
    Cfg("pigz", [2], 7),
    Cfg("pigz", [5], 7),
    Cfg("pigz", [0], 5),
    Cfg("pigz", [1], 6),
    Cfg("pigz", [9], 6),
    Cfg("ram", [0], 8),
    Cfg("ram", [1], 8),
    Cfg("ram", [2], 8),
    Cfg("ram", [4], 8),
    Cfg("zpaq", [0, 2, 1, 4], 4),
    Cfg("zpaq", [0, 1, 2, 3], 5),
    Cfg("zpaq", [2, 5], 4),
    Cfg("zpaq", [0, 3, 3, 5], 4),
    Cfg("zpaq", [0, 1, 3, 3], 6),
    Cfg("zstd", [M20], 4, plen=30),
    Cfg("zstd", [M20], 4, plen=32),
]

# arbitrary parameters
ANY = [
    Cfg("bup", [], 5, any=1, wmax=9),
    Cfg("bup", [], 2, plen=66, any=1, wmax=70, cap=1),
    Cfg("buz", [3], 5, any=6),
    Cfg("buz", [0, 3, 9], 5, any=1, wmax=6),
    Cfg("buz", [0, 1, 4], 4, any=5, wmax=4),
    Cfg("buztab", [33], 4, any=6),
    Cfg("buzsalt", [3, 3, 9], 3, any=4 + 8),
    Cfg("fast", [0, 0, 0, 1], 4, any=7),
    Cfg("gear", [], 2, any=1),
    Cfg("gzip", [3], 3, any=2),
    Cfg("gzip", [0, 4], 6, any=1, wmax=8),
    Cfg("mii", [], 7, any=1),
    Cfg("pigz", [], 5, any=1),
    Cfg("ram", [], 6, any=1),
    Cfg("zpaq", [0], 3, any=14),
    Cfg("zstd", [], 2, plen=31, any=1),
]
ANYLONG = [
    Cfg("gear", [], 1, plen=40, any=1),
    Cfg("mii", [], 3, pat=RISE, plen=253, any=1, cap=1),
    Cfg("pigz", [], 3, plen=30, any=1),
    Cfg("ram", [], 3, pat=100, plen=30, any=1),
    Cfg("zpaq", [0], 1, plen=24, any=14, cap=1),
    Cfg("buzborg", [0, 255, 1000, 5], 1, plen=135, any=1, wmax=130, cap=2),
    Cfg("gzip", [0, 1000], 2, plen=135, any=1, wmax=130, cap=2),
    Cfg("buzborg", [0, 255, 1 << 40, 5], 1, pat=2, plen=525, any=1, wmax=520, cap=1),
    Cfg("gzip", [0, 1 << 20], 1, pat=9, plen=525, any=1, wmax=520, cap=1),
    Cfg("bup", [0], 1, pat=200, plen=275, any=1, wmax=270, cap=1),
]

LONG = [
    # defaults and windows that wrap
    Cfg("bup", [64, 1], 6, plen=62),
    Cfg("bup", [64, 1], 6, plen=126),
    Cfg("bup", [64, 1], 6, plen=5),
    Cfg("bup", [257], 5, plen=255),
    Cfg("bup", [98], 5, plen=96),
    Cfg("buz", [32, 3, 1000], 3, pat=7, plen=31, cap=1),
    Cfg("buz", [67, 7, 66], 3, pat=7, plen=64, cap=1),
    Cfg("buztab", [65, 7, 1000], 2, pat=7, plen=64, cap=1),
    Cfg("buzsalt", [0, 0, 0, 129], 3, plen=65),
    Cfg("buzsalt", [33, 63, 80, 3], 3, plen=31),
    Cfg("buz", [2, U32, 70], 5, pat=7, plen=67),
    Cfg("buzsalt", [300, 1023, 1 << 20, 3], 3, plen=298),
    Cfg("buz", [3, U32, 65537], 2, pat=7, plen=65536),
    Cfg("fast", [2048, 8192, 65536, 2], 2, plen=2047),
    Cfg("fast", [2048, 8192, 65536, 2], 2, pat=603, plen=2060),
    Cfg("fast", [2048, 8192, 65536, 2], 2, pat=0, plen=8190),
    Cfg("fast", [2048, 8192, 65536, 2], 2, pat=0, plen=65533),
    Cfg("fast", [250, 256, 300, 1], 4, pat=9, plen=253, cap=1),
    Cfg("fast", [20, 24, 300, 0], 2, pat=P, plen=22),
    Cfg("gear", [13, 1], 2, pat=622, plen=40),
    Cfg("gear", [5], 2, plen=33),
    Cfg("gear", [20], 2, pat=11004, plen=40),
    Cfg("gear", [31], 1, plen=31),
    Cfg("gzip", [8192, 4096, 1], 4, pat=1, plen=4092),
    Cfg("gzip", [8192, 4096, 1], 4, pat=658, plen=8190),
    Cfg("gzip", [8192, 4096, 1], 3, pat=614, plen=8200),
    Cfg("gzip", [300, 4096], 5, pat=774, plen=298),
    Cfg("gzip", [300, 4096], 4, pat=601, plen=310),
    Cfg("gzip", [256, 32700], 5, pat=128, plen=254),
    Cfg("mii", [5, 1], 9),
    Cfg("mii", [254], 5, pat=RISE, plen=252),
    Cfg("mii", [255], 5, pat=RISE, plen=253),
    Cfg("mii", [300], 6, pat=RISE, plen=298),
    Cfg("pigz", [12, 1], 6, plen=5),
    Cfg("pigz", [31], 7, pat=96373, plen=40),
    Cfg("pigz", [20], 7, pat=601, plen=40),
    Cfg("ram", [254], 6, pat=100, plen=252),
    Cfg("ram", [256], 6, pat=100, plen=254),
    Cfg("ram", [65536], 3, pat=100, plen=65534),
    Cfg("zpaq", [7], 1, plen=4095),
    Cfg("zpaq", [7], 1, pat=688, plen=4095),
    Cfg("zpaq", [0, 3, 300, 600], 3, plen=298),
    Cfg("zpaq", [0, 1, 65539, 65541], 3, plen=65538),
    Cfg("zstd", [8 * M20, 1], 3, plen=33),
    Cfg("zstd", [3 * M20], 3, plen=70),
    Cfg("zstd", [M20], 3, plen=256),
]

# many chunks before the symbolic bytes, all followed
MULTI = [
    Cfg("bup", [20], 3, pat=low(3, 1200), plen=220, cap=-1),
    Cfg("buzsalt", [5, 15, 60, 77], 2, plen=90, cap=-1),
    Cfg("buzborg", [4, 7, 20, 3], 2, plen=60, cap=-1),
    Cfg("fast", [4, 10, 30, 0], 2, pat=low(3), plen=100, cap=-1),
    Cfg("gear", [4], 2, plen=90, cap=-1),
    Cfg("gzip", [9, 40], 3, plen=120, cap=-1),
    Cfg("gzip", [3, 5], 3, pat=low(7), plen=60, cap=-1),
    Cfg("mii", [2], 4, plen=60, cap=-1),
    Cfg("pigz", [5], 4, plen=130, cap=-1),
    Cfg("ram", [3], 4, plen=90, cap=-1),
    Cfg("ram", [9], 4, pat=low(15), plen=90, cap=-1),
    Cfg("zpaq", [0, 4, 4, 16], 1, pat=low(3), plen=70, cap=-1),
    Cfg("zpaq", [0, 3, 2, 30], 1, pat=low(1), plen=90, cap=-1),
    Cfg("zpaq", [0, 5, 8, 40], 1, pat=low(7, 900), plen=120, cap=-1),
    # with an edge within, close to the end of, and at the end of the prefix
    Cfg("zstd", [M20], 4, pat=89693, plen=46, cap=-1),
    Cfg("zstd", [M20], 4, pat=43353, plen=62, cap=-1),
    Cfg("zstd", [M20], 4, pat=143015, plen=37, cap=-1),
]

# even more chunks: (configuration, masks of the alphabet)
FAR = [Cfg(a, k, n, pat=P + 17 * m if m == 255 else low(m, P + 17 * m), plen=l, cap=-1)
       for a, k, n, l, ms in (
           ("bup", [20], 2, 3000, (3, 255)), ("bup", [3], 2, 1500, (3, 127, 255)), ("bup", [64, 1], 1, 5000, (7, 255)),
           ("buzsalt", [5, 15, 60, 77], 1, 1000, (1, 15, 255)), ("buzsalt", [67, 31, 200, 7], 1, 1500, (3, 255)),
           ("buzborg", [4, 7, 20, 3], 1, 800, (3, 255)), ("buzborg", [33, 63, 1000, 9], 1, 2000, (7, 255)),
           ("fast", [4, 10, 30, 0], 1, 1200, (3, 255)), ("fast", [8, 64, 300, 0], 1, 2000, (1, 15, 255)),
           ("gear", [4], 1, 1200, (3, 255)), ("gear", [6], 1, 2500, (1, 255)),
           ("gzip", [9, 40], 1, 1500, (7, 255)), ("gzip", [3, 5], 1, 900, (7, 255)), ("gzip", [32, 50], 1, 2500, (1, 255)),
           ("mii", [2], 2, 1000, (3, 255)), ("mii", [1], 2, 500, (3,)), ("mii", [4], 2, 2500, (7, 255)),
           ("pigz", [5], 2, 1200, (3, 255)), ("pigz", [7], 1, 3000, (15, 255)),
           ("ram", [3], 2, 900, (7, 255)), ("ram", [9], 2, 1200, (15, 255)), ("ram", [1], 2, 600, (1, 3)), ("ram", [40], 2, 2500, (127, 255)),
           ("zpaq", [0, 4, 4, 16], 1, 1200, (3, 7)), ("zpaq", [0, 3, 2, 30], 1, 1200, (3, 7, 255)),
           ("zpaq", [0, 5, 8, 40], 1, 1200, (3, 255)), ("zpaq", [2, 640], 1, 2500, (3, 255)))
       for m in ms]
# counters of more than 16 bits
BIG = [
    Cfg("bup", [65539], 3, pat=77, plen=65541, cap=1),
    Cfg("buzsalt", [65539, (1 << 20) - 1, 1 << 40, 7], 1, pat=P, plen=65541, cap=1),
    Cfg("buzborg", [65600, 4095, 1 << 40, 9], 1, pat=P, plen=65610, cap=1),
    Cfg("gzip", [65539, 65539 * 100 + 77], 2, pat=100, plen=65541, cap=1),
    Cfg("fast", [65530, 65537, 65545, 0], 2, pat=3, plen=65536, cap=1),
    Cfg("fast", [5, 65539, 65545, 0], 2, pat=0, plen=65536, cap=1),
    Cfg("gear", [24], 1, pat=P, plen=65541, cap=1),
    Cfg("pigz", [24], 2, pat=P, plen=65541, cap=1),
    Cfg("mii", [3], 5, pat=7, plen=65541, cap=1),
    Cfg("ram", [65539], 3, pat=90, plen=65541, cap=1),
    Cfg("ram", [5], 2, pat=256 + 255, plen=65541, cap=1),
    Cfg("zpaq", [0, 32, 65539, 65545], 1, pat=P, plen=65541, cap=1),
    Cfg("zpaq", [0, 24, 9, 65545], 1, pat=5, plen=65541, cap=1),
    Cfg("zstd", [8 * M20, 1], 2, pat=P, plen=65541, cap=1),
]
# nothing found in a lot of data, and then symbolic bytes
QUIET = [c for l in (262, 1030, 4100, 8199) for c in (
    Cfg("bup", [64, 1], 3, pat=200, plen=l, cap=1),
    Cfg("buzsalt", [67, 127, 1 << 40, 7], 1, pat=9, plen=l, cap=1),
    Cfg("fast", [64, 5000, 1 << 22, 0], 2, pat=2, plen=l, cap=1),
    Cfg("gear", [7], 1, pat=9, plen=l, cap=1),
    Cfg("gzip", [64, 200], 2, pat=3, plen=l, cap=1),
    Cfg("mii", [3], 3, pat=7, plen=l, cap=1),
    Cfg("pigz", [7], 2, pat=1, plen=l, cap=1),
    Cfg("ram", [l - 2], 2, pat=90, plen=l, cap=1),
    Cfg("ram", [5], 2, pat=RISE, plen=l, cap=1),
    Cfg("zpaq", [0, 8, l - 1, 1 << 21], 1, pat=5, plen=l, cap=1),
    Cfg("zstd", [M20], 3, pat=0, plen=l, cap=1))]
# more than 1 MiB in one slice; or in slices of 70001 bytes
M1 = (1 << 20) + 13
HUGE = [
    Cfg("bup", [64, 1], 3, pat=200, plen=M1, cap=1),
    Cfg("buzsalt", [67, 127, 1 << 40, 7], 1, pat=9, plen=M1, cap=1),
    Cfg("fast", [2048, 2049, 1 << 22, 0], 2, pat=2, plen=M1, cap=1),
    Cfg("gear", [7], 1, pat=9, plen=M1, cap=1),
    Cfg("gzip", [64, 200], 2, pat=3, plen=M1, cap=1),
    Cfg("mii", [3], 3, pat=7, plen=M1, cap=1),
    Cfg("pigz", [7], 2, pat=1, plen=M1, cap=1),
    Cfg("ram", [M1 - 2], 2, pat=90, plen=M1, cap=1),
    Cfg("zpaq", [0, 8, 1 << 20, 1 << 21], 1, pat=5, plen=M1, cap=1),
    Cfg("zstd", [M20], 3, pat=0, plen=M1, cap=1),
]

ALGOS = ["bup", "buz", "buztab", "buzborg", "buzsalt", "fast", "gear", "gzip", "mii", "pigz", "ram", "zpaq", "zstd"]


class Job:
    def __init__(self, scenario, c, n, feed=0, cap=0, flags=0, zeros=0, extra=(), secs=None, algo=True, weight=None):
        self.func = scenario + ("_" + c.algo if algo else "")
        self.params = c.cfg + [c.pat, c.plen, n, feed, cap, flags, zeros] + list(extra)
        self.any, self.wmax = c.any, c.wmax
        # another instance: what is arbitrary, largest window, configuration
        self.other = ()
        self.secs = secs
        self.weight = weight if weight is not None else n * c.cost

    def name(self):
        p = self.params
        s = "%s cfg=%s prefix=%s:%d symbolic=%d feed=%d edges=%d flags=%d" % (
            self.func, ",".join(str(x) for x in p[:4]), p[4], p[5], p[6], p[7], p[8], p[9])
        if len(p) > 10 and any(p[10:]):
            s += " extra=%s" % ",".join(str(x) for x in p[10:])
        if self.any:
            s += " arbitrary=%s" % ",".join(str(i) for i in range(4) if self.any >> i & 1)
            if self.wmax:
                s += " window<=%d" % self.wmax
        if self.other:
            s += " other=%s" % ",".join(str(x) for x in self.other)
        return s.replace(" ", "|")

    def key(self):
        return (self.func, tuple(self.all()))

    def all(self):
        """the parameters as the scenario gets them"""
        if not self.any and not self.other:
            return self.params
        return self.params + [0] * (14 - len(self.params)) + [self.any, self.wmax] + list(self.other)


def par(algo, cfg=(0, 0, 0, 0), pat=P, plen=0):
    return Cfg(algo, cfg, 0, pat, plen)


def std(scenario, cfgs, feeds, tier, dn=0, cap=0, flags=(0,), skip=(), only=None, longs=True, extra=(), longcap=2, longfeeds=None, longflags=None, huge=False):
    """one job per configuration, feed and flag"""
    out = []
    d = dn + tier
    for c in CORE + ANY:
        if c.algo in skip or (only and c.algo not in only) or (cfgs and not cfgs(c)):
            continue
        for f in feeds:
            for fl in flags:
                # more cuts, fewer bytes
                less = 1 if f == 2 else 2 if f > 2 and f != 1000 else 0
                n = max(1, c.n + d - less)
                out.append(Job(scenario, c, n, f, c.cap or cap, fl, 0, extra))
    if longs:
        for c in LONG + ANYLONG + BIG + MULTI + FAR + QUIET:
            if c.algo in skip or (only and c.algo not in only) or (cfgs and not cfgs(c)):
                continue
            far = c in FAR or c in MULTI
            for f in feeds if far else longfeeds or feeds[:1]:
                for fl in flags if far else longflags or flags[:1]:
                    less = 1 if f in (1, 2) and c.n > 4 else 0
                    n = max(1, c.n + min(d, 1) - less)
                    out.append(Job(scenario, c, n, f, max(0, c.cap or longcap), fl, 0, extra))
        if huge:
            for c in HUGE:
                if c.algo in skip or (only and c.algo not in only) or (cfgs and not cfgs(c)):
                    continue
                # pieces of 70001 bytes
                out.append(Job(scenario, c, c.n, 72001 if feeds[0] else 0, c.cap, flags[0], 0, extra))
    return out


def no_min0(c):
    return "min0" not in c.tags


WIN = ("bup", "buz", "buztab", "buzborg", "buzsalt", "gzip", "zstd")


def c01(t):
    return (std("c01_incr", no_min0, (1, 1000), t) + std("c01_fce", None, (1, 1000), t, flags=(0, 1))
            # the known finding: with a minimum of 0 a match on the very first byte
            + [Job("c01_incr", c, 4, 0, 0) for c in CORE if "min0" in c.tags])


def some(scenario, t, n=None, pick=(), skip=(), cfgs=None, extra=(), flags=(0,), all=False):
    """few jobs per algorithm: the first two small configurations, an arbitrary one, and long ones"""
    out, seen = [], {}
    for c in CORE + ANY + [c for c in LONG if c.plen < 200] + MULTI:
        if (pick and c.algo not in pick) or c.algo in skip or "min0" in c.tags or (cfgs and not cfgs(c)):
            continue
        kind = (c.algo, "c" if c in CORE else "a" if c.any else "m" if c in MULTI else "l")
        seen[kind] = seen.get(kind, 0) + 1
        if seen[kind] > 2:
            continue
        for fl in flags:
            if all and (c in LONG and c.algo[:3] == "buz"):
                continue
            cap = 0 if all else max(0, c.cap or (2 if c in LONG else 0))
            out.append(Job(scenario, c, max(1, min(c.n, n or 9) + t), 0, cap, fl, 0, extra))
    return out


def fine(scenario, t, flags=(0,), cfgs=None, pick=(), extra=()):
    """every position to split the data at"""
    return [Job(scenario, c, (2 if c.algo in ("zpaq", "gear", "buzborg", "buzsalt", "fast") else 3) + t - 1, 501, 0, fl, 0, extra)
            for c in MULTI for fl in flags if not pick or c.algo in pick]


def c02(t):
    return (std("c02", no_min0, (0,), t, longcap=0) + std("c02_part", no_min0, (0,), t, dn=-1, longcap=0)
            + [Job("c02_fast_min0", par("fast", (0, 2, 4, 1)), 3, algo=False)]
            + some("c02_resume", t, 4, all=True, extra=(1,), skip=("zpaq", "gear", "fast")) + some("c02_resume", t, 2, all=True, extra=(1,), pick=("zpaq", "gear", "fast"))
            + some("c02_adapt", t, 4, all=True))


def c03(t):
    j = std("c03", no_min0, (1, 2, 1000), t, huge=True)
    j += std("c03", no_min0, (1, 2, 1000), t, flags=(1,), only=("fast",))
    j += fine("c03", t)
    if t:
        j += std("c03", no_min0, (3,), t)
    return j


def c04(t):
    j = std("c04", None, (1, 2, 1000), t, flags=(0, 1), huge=True)
    j += fine("c04", t, flags=(0, 1))
    if t:
        j += std("c04", None, (3,), t)
    return j


def c05(t):
    j = std("c05", no_min0, (1,), t)
    # conversions
    j += some("c05_from_ref", t, 3)
    j += some("c05_from", t, 3, pick=("buz", "buztab", "buzborg", "buzsalt", "gzip", "mii", "pigz", "zpaq", "zstd"))
    j += some("c05_state", t, 3, pick=("bup", "pigz", "zpaq"))
    j += some("c05_state_default", t, 3, pick=("buz", "fast", "gear", "gzip", "ram", "zpaq", "zstd"))
    for c in LONG:
        if c.algo in ("bup", "fast") and c.cfg[1 if c.algo == "bup" else 3] == (1 if c.algo == "bup" else 2):
            j.append(Job("c05_incr_default", c, c.n, 0, 2))
    for c in CORE:
        if c.algo == "mii":
            j.append(Job("c05_mii_state", c, c.n, 0, 0, algo=False))
    return j


def heads(c):
    """lengths at which an edge is possible"""
    k = c.cfg
    if c.algo == "bup":
        return ((1, 2), (2, 3)) if k[0] >= 16 else ()
    if c.algo in ("gear", "zpaq"):
        if c.algo == "zpaq" and k[0] == 0:
            m = max(k[2], 1)
            return ((m, m + 1),) if m < k[3] else ((m, 2 * m),)
        return (1, 2), (2, 3)
    if c.algo == "fast":
        return ((k[0] + 1, min(k[2], k[0] + 2)),) if k[0] + 1 < k[2] else ((k[2], 2 * k[2]),)
    if c.algo == "mii":
        return ((k[0] + 1, k[0] + 2), (k[0] + 2, k[0] + 3)) if k[0] else ()
    if c.algo == "ram":
        return ((k[0] + 2, k[0] + 3),)
    if c.algo == "pigz" and k[0] > 5:
        return ((2, 4),)
    return (1, 3), (2, 4)


def c06(t):
    j = std("c06_incr", no_min0, (1,), t, skip=("zstd",))
    j += std("c06_incr", no_min0, (0,), t, skip=("zstd",), flags=(1,), only=("fast",))
    j += std("c06_fce", None, (1,), t, skip=("zstd",), flags=(0, 1))
    # tails behind different heads
    tail = {"bup": 2, "buz": 3, "buztab": 3, "buzborg": 2, "buzsalt": 2, "fast": 3, "gear": 1, "gzip": 4, "mii": 5,
            "pigz": 4, "ram": 4, "zpaq": 1}
    for c in CORE:
        if c.algo not in tail:
            continue
        n = tail[c.algo] + t
        if c.algo == "zpaq" and c.cfg[2:] == [3, 5]:
            n = max(1, n - 1)
        if c.algo in ("mii", "ram") and c.cfg[0] > 3:
            n -= 1
        for fl in (0, 1):
            if fl == 0 and "min0" in c.tags:
                continue
            if c.algo == "fast" and c.cfg[3] == 0:
                j.append(Job("c06_tail", c, 2, 0, 0, fl, 0, (3, 1)))
                continue
            for la, lb in heads(c):
                j.append(Job("c06_tail", c, n, 0, 0, fl, 0, (la, lb)))
    return j


def c07(t):
    j = []
    d = t

    def add(algo, cfg, n, la, lb, pat=P, plen=0, cw=0, flags=(0, 1, 2)):
        # only the first edge counts, except where nothing is reset
        cap = 2 if algo == "zstd" else 1
        for fl in flags:
            j.append(Job("c07", par(algo, cfg, pat, plen), n + d, 0, cap, fl, 0, (la, lb, cw)))

    for w, n in ((16, 3), (8, 3), (3, 4), (1, 4)):
        add("bup", [w], n, 1, 2, cw=max(0, w - 2))
    add("bup", [33], 3, 0, 1, cw=31)
    add("bup", [33], 2, 1, 2, cw=30)
    add("bup", [64, 1], 3, 2, 1, plen=70, cw=62)
    add("bup", [257], 3, 1, 1, plen=3, cw=255)
    for cfg in ([1, 1, 1000], [2, 3, 1000], [3, 1, 1000], [33, 1, 1000]):
        add("buz", cfg, 3, 1, 2, cw=max(0, cfg[0] - 2))
        add("buztab", cfg, 3, 1, 3, cw=max(0, cfg[0] - 2))
    for cfg in ([1, 3], [2, 4], [3, 256], [5, 1000]):
        add("gzip", cfg, 4, 1, 3, cw=max(0, cfg[0] - 3))
    add("gzip", [8192, 999480], 3, 1, 1, pat=121, plen=5, cw=8190)
    add("gzip", [300, 59900], 3, 1, 2, pat=199, plen=20, cw=298)
    # every window length
    for w in list(range(1, 71)) + [95, 96, 97, 127, 128, 129, 255, 256, 257]:
        add("buzborg", [w, 2047, 100000, 5], 1, 0, 1, cw=w, flags=(w % 3,), pat=P + w)
        add("buzborg", [w, 2047, 100000, 6], 1, 0, 1, cw=w, flags=((w + 1) % 3,), pat=P + 2 * w, plen=3)
        add("bup", [w], 1, 1, 1, cw=max(0, w - 1), flags=((w + 2) % 3,), pat=P + w)
        add("gzip", [w, 3 + 96 * w], 2, 1, 2, cw=max(0, w - 2), flags=(w % 3,), pat=P + w)
    add("zstd", [M20], 2, 1, 2, cw=31)
    add("zstd", [M20], 2, 0, 1, cw=30, plen=33)
    add("zstd", [8 * M20, 1], 1, 1, 2, cw=30, plen=3)
    return j


LIMITED = ("buz", "buztab", "buzborg", "buzsalt", "fast", "mii", "ram", "zpaq")


def c08(t):
    return (std("c08_incr", no_min0, (1, 1000), t, only=LIMITED) + std("c08_fce", None, (1, 1000), t, only=LIMITED, flags=(0, 1))
            + std("c08_iter", no_min0, (0,), t, only=LIMITED, longcap=0))


def define(algos, t):
    out = []
    for fl, feed in ((0, 0), (4, 0), (1, 0), (3, 1), (2, 1)):
        for j in std("def", None if fl in (1, 3) else no_min0, (feed,), t, only=algos, flags=(fl,), huge=fl != 4):
            p = j.params
            if j.func == "def_zpaq" and (p[5] < 1000 or feed):
                # multiplications
                p[6] = max(1, p[6] - 1 - (1 if feed and p[5] < 1000 else 0))
            if j.func == "def_gear" and p[0] > 8:
                p[6] = max(1, p[6] - (1 if feed else 0))
            if j.wmax > 200 and feed:
                continue
            if j.func == "def_mii" and j.any and p[5] and feed:
                p[6] -= 1
            if j.func == "def_fast" and j.any and feed:
                p[6] -= 1
            if j.func == "def_buzborg" and feed:
                p[6] = max(1, p[6] - 1)
            # the definition is compared from here on
            p.append(0 if p[5] < 300 or p[8] == 0 else p[5] - 8)
            out.append(j)
    out += fine("def", t, (2, 3), pick=algos, extra=(0,))
    return out


def c09(t):
    return define(WIN, t)


def c10(t):
    return define(("gear", "fast", "pigz", "zpaq"), t)


def c11(t):
    j = define(("mii", "ram"), t)
    d = t
    for algo in ("mii", "ram"):
        for w in range(0, 7):
            for fl in (0, 1):
                j.append(Job("def", par(algo, [w]), 8 + d, 0, 0, fl))
    return j


def c12(t):
    j = []
    d = t
    for fl in (0, 1):
        # defaults, close to the places where they matter
        for c in (
            Cfg("bup", [64, 1], 5, plen=62), Cfg("bup", [64, 1], 5), Cfg("bup", [64, 1], 5, plen=64),
            Cfg("fast", [2048, 8192, 65536, 2], 2, plen=2047), Cfg("fast", [2048, 8192, 65536, 2], 2, pat=0, plen=8190),
            Cfg("fast", [2048, 8192, 65536, 2], 2, pat=0, plen=65533),
            Cfg("gear", [13, 1], 4, plen=40), Cfg("gear", [13, 1], 4),
            Cfg("gzip", [8192, 4096, 1], 4, pat=1, plen=4092), Cfg("gzip", [8192, 4096, 1], 4, pat=658, plen=8190),
            Cfg("mii", [5, 1], 9), Cfg("pigz", [12, 1], 6), Cfg("pigz", [12, 1], 6, plen=20),
            Cfg("zstd", [8 * M20, 1], 3, plen=33), Cfg("zpaq", [7], 3, plen=4094),
            Cfg("zpaq", [7], 2, plen=520190),
            Cfg("buzsalt", [0, 0, 0, 0], 3, plen=65), Cfg("buzsalt", [0, 0, 0, 129], 3, plen=67),
        ):
            j.append(Job("def", c, c.n + d, 0, 2, fl, 0, (max(0, c.plen - 8),)))
        # parameters
        for c in (
            [Cfg("gear", [l], 3) for l in (1, 2, 5)] + [Cfg("gear", [12], 2), Cfg("gear", [13], 2, pat=622, plen=40), Cfg("gear", [20], 2, pat=11004, plen=40), Cfg("gear", [31], 1)] + [Cfg("pigz", [b], 5) for b in (1, 3, 8, 13, 21, 31)]
            + [Cfg("mii", [w], 8) for w in (1, 4, 6)] + [Cfg("ram", [w], 7) for w in (0, 3, 5)]
            + [Cfg("zstd", [s], 2, plen=33) for s in (M20, 2 * M20 - 1, 2 * M20, 5 * M20, 1 << 30)]
            + [Cfg("gzip", [w, m], 6) for w, m in ((1, 7), (4, 100), (5, 1))]
            + [Cfg("zpaq", [1, 10], 2, plen=63), Cfg("zpaq", [1, 10], 2, plen=8126), Cfg("zpaq", [1, 11], 2, plen=127),
               Cfg("zpaq", [1, 12], 1, plen=255), Cfg("zpaq", [2, 130], 2, plen=0), Cfg("zpaq", [2, 640], 2, plen=9),
               Cfg("zpaq", [2, 70], 2, plen=68), Cfg("zpaq", [3, 2, 5], 3), Cfg("zpaq", [4, 2, 6], 3),
               Cfg("zpaq", [5, 0, 4], 3), Cfg("zpaq", [6, 2], 3), Cfg("zpaq", [8], 2), Cfg("zpaq", [9, 1, 5], 3),
               Cfg("zpaq", [10, 1, 6], 3), Cfg("zpaq", [11, 1], 3), Cfg("zpaq", [12, 2, 1, 5], 3),
               Cfg("zpaq", [13, 2, 1, 5], 3), Cfg("zpaq", [14, 3], 3), Cfg("zpaq", [15, 0, 5], 3), Cfg("zpaq", [16, 3, 2], 3)]
        ):
            j.append(Job("def", c, c.n + d, 0, 2, fl, 0, (max(0, c.plen - 8),)))
        for kind in (0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13, 14, 15, 16):
            j.append(Job("c12_zpaq_any", par("zpaq", [kind]), 1 + d, 0, 1, fl, algo=False))
            j.append(Job("c12_zpaq_any", par("zpaq", [kind], P, 40 if kind != 1 else 70), 1, 0, 1, fl, algo=False))
    for seed in (777, 778, 779):
        j.append(Job("c12_zstd_any", par("zstd", [], seed, 33), 1, 0, 1, 0, algo=False))
    j.append(Job("c12_zstd_any", par("zstd", [], 777, 200), 0, 0, 1, 0, algo=False))
    for s in ("c12_default_eq", "c12_borg_table", "c12_tables"):
        j.append(Job(s, par("-"), 0, algo=False))
    return j


def c13(t):
    j = []
    d = t
    n = {"bup": 4, "buz": 4, "fast": 3, "gear": 2, "gzip": 3, "mii": 5, "ram": 5, "pigz": 3, "zstd": 2}
    for a, k in n.items():
        for fl in (0, 1):
            for feed in (0, 1):
                pl = 32 if a == "zstd" else 0
                m = 0
                if a == "gzip":
                    for m in (7, 4096, U64):
                        j.append(Job("c13_" + a, par(a, [m], P, 0), k + d, feed, 2, fl, 0, (4,), algo=False))
                    j.append(Job("c13_" + a, par(a, [0], 255, 3), 1, feed, 2, fl, 0, (3,), algo=False))
                    continue
                j.append(Job("c13_" + a, par(a, [], P, pl), k + d - (feed and k > 3), feed, 3, fl, 0, (6,), algo=False))
            # long concrete data in front
            if a in ("bup", "mii", "ram", "pigz", "gear"):
                j.append(Job("c13_" + a, par(a, [], 255, 40 if a == "bup" else 300), 1, 0, 1, fl, 0, (30 if a == "bup" else 70,), algo=False))
    for kind in range(0, 17):
        for fl in (0, 1):
            j.append(Job("c13_zpaq", par("zpaq", [kind]), 2, 0, 3, fl, algo=False))
            j.append(Job("c13_zpaq", par("zpaq", [kind], P, 70), 1, 0, 2, fl, algo=False))
    j.append(Job("c13_roll", par("bup"), 7 + d, 0, 0, 0, 0, (8,), algo=False))
    # the configurations of the other checks
    j += std("c01_fce", None, (0,), t, dn=-1)
    j += std("c01_incr", no_min0, (0,), t, dn=-1)
    # sums and digests at their largest
    for c in (Cfg("bup", [64, 1], 4, pat=255, plen=70), Cfg("bup", [65535], 2, pat=255, plen=65540),
              Cfg("bup", [1000], 3, pat=255, plen=1003), Cfg("gzip", [8192, 4095], 3, pat=255, plen=8195),
              Cfg("gzip", [70000, U64], 2, pat=255, plen=70005), Cfg("gear", [31], 3, pat=255, plen=50),
              Cfg("pigz", [31], 4, pat=255, plen=50), Cfg("ram", [300], 4, pat=255, plen=299),
              Cfg("fast", [60, 70, U64, 2], 2, pat=255, plen=69), Cfg("zstd", [M20], 2, pat=255, plen=65),
              Cfg("zpaq", [8], 2, pat=255, plen=300)):
        j.append(Job("c01_fce", c, c.n, 0, 2))
        j.append(Job("c01_incr", c, c.n, 0, 2))
    return j


def c14(t):
    j = []
    d = t
    for c in CORE:
        if "min0" in c.tags:
            continue
        n = max(2, c.n - 2) + d
        if c.algo == "zpaq":
            n = min(n, 3 + d)
        j.append(Job("c14_indep", c, n, 0, 3, 0, 0, (2,)))
        if c.algo in ("bup", "buz", "fast", "gear", "gzip", "pigz", "ram"):
            k = {"gear": 2, "bup": 3}.get(c.algo, 3)
            for s in ("c14_clone_incr", "c14_clone_state"):
                j.append(Job(s, c, max(1, n - 3), 0, 4, 0, 0, (k, k - 1)))
        j.append(Job("c14_clone_cfg", c, n, 0, 3))
    for c in LONG:
        if c.plen < 1000 and c.n >= 3:
            j.append(Job("c14_indep", c, min(c.n, 3 if c.algo not in ("buz", "gear", "zpaq") else 1 if c.algo == "buz" else 2), 0, c.cap or 2, 0, 0, (2,)))
            j.append(Job("c14_clone_cfg", c, min(c.n, 3), 0, c.cap or 2))
            if c.algo in ("bup", "gzip", "ram", "pigz"):
                for s in ("c14_clone_incr", "c14_clone_state"):
                    j.append(Job(s, c, 1, 0, 3, 0, 0, (3, 2)))
    # next to an instance with another configuration
    other = {"bup": [((1, 5), []), ((0, 0), [64, 1]), ((0, 0), [3])],
             "buz": [((1, 3), [0, 3, 9]), ((6, 0), [2, 0, 0]), ((0, 0), [3, 1, 2])],
             "buztab": [((4, 0), [3, 1, 0]), ((0, 0), [2, 1, 100])],
             "buzborg": [((8, 0), [3, 1, 9, 0]), ((0, 0), [2, 3, 100, 7]), ((0, 0), [2, 3, 100, 8])],
             "buzsalt": [((8, 0), [2, 3, 100, 0]), ((0, 0), [3, 1, 3, 255])],
             "fast": [((7, 0), [0, 0, 0, 1]), ((0, 0), [2048, 8192, 65536, 2]), ((0, 0), [1, 5, 6, 1])],
             "gear": [((1, 0), []), ((0, 0), [13, 1])],
             "gzip": [((2, 0), [2]), ((1, 5), [0, 4]), ((0, 0), [8192, 4096, 1])],
             "mii": [((1, 0), []), ((0, 0), [5, 1])],
             "pigz": [((1, 0), []), ((0, 0), [12, 1])],
             "ram": [((1, 0), []), ((0, 0), [1])],
             "zpaq": [((14, 0), [0]), ((0, 0), [7]), ((0, 0), [0, 2, 1, 4])],
             "zstd": [((1, 0), []), ((0, 0), [8 * M20, 1])]}
    less = {"gear": 1, "zpaq": 1, "buz": 2, "bup": 3, "gzip": 3}
    for c in CORE + [x for x in ANY + LONG + MULTI if x.plen < 1000]:
        if "min0" in c.tags:
            continue
        core = c in CORE
        if core and c.algo == "zpaq" and c.cfg[2:] == [1, 4]:
            continue
        for i, ((a, w), k) in enumerate(other[c.algo]):
            if not core and (a or c.n == 0):
                continue
            for fl in range(4) if core else (i % 4,):
                n = max(1, (c.n if core else min(c.n, 3)) - 1 - less.get(c.algo, 1))
                x = Job("c14_other", c, n + (d if c.cost else 0), 0, max(0, c.cap or (3 if core else 2)), fl, 0, (2, max(0, c.plen - 8)))
                x.other = [a, w] + k + [0] * (4 - len(k))
                j.append(x)
    eqi = {"bup": 4, "buz": 4, "fast": 4, "ram": 5, "zstd": 2}
    for c in CORE:
        if "min0" in c.tags or (c.algo == "fast" and c.cfg[3] == 0):
            continue
        if c.algo in eqi:
            for la, lb in ((0, 1), (1, 1), (1, 2), (2, 2), (0, 3)):
                if c.algo == "zstd" and la + lb > 2:
                    continue
                if c.algo == "bup" and la + lb > 3:
                    continue
                j.append(Job("c14_eq_incr", c, eqi[c.algo] + d, 0, 0, 0, 0, (la, lb)))
        if c.algo in ("bup", "buz", "fast", "gear", "ram", "zstd"):
            for la, lb in ((0, 1), (1, 1), (1, 2), (2, 2), (0, 3)):
                if c.algo in ("zstd", "gear") and la + lb > 2:
                    continue
                n = {"gear": 2, "zstd": 2}.get(c.algo, 4)
                j.append(Job("c14_eq_state", c, n + d, 0, 0, 0, 0, (la, lb)))
    # different windows with the same sums
    for w in (3, 4, 6):
        for la, lb in ((3, 3), (3, 4), (4, 4), (5, 5)):
            j.append(Job("c14_eq_state", par("bup", [w]), 3 + d, 0, 1, 0, 0, (la, lb)))
    for w in (1, 2, 3, 4, 6):
        for la, lb in ((0, 1), (1, 2), (3, 3), (3, 4), (4, 4), (5, 5), (6, 6)):
            j.append(Job("c14_eq_roll", par("bup", [w]), min(w, 4) + 1 + d, 0, 0, 0, 0, (la, lb), algo=False))
    for la, lb in ((1, 1), (2, 2), (3, 3)):
        j.append(Job("c14_eq_roll", par("bup", [64, 1], P, 61), 4 + d, 0, 0, 0, 0, (la, lb), algo=False))
    for s, n, pl in (("bup", 4, 0), ("buz", 4, 0), ("fast", 2, 0), ("gzip", 3, 0), ("pigz", 4, 0), ("ram", 5, 0),
                     ("zpaq", 2, 0), ("zstd", 2, 32)):
        j.append(Job("c14_eq_" + s, par(s, [], P, pl), n + d, 0, 2, 0, algo=False))
    return j


def c15(t):
    return [Job("c15_" + s, par("-"), 0, algo=False) for s in ("u64", "i64", "u8", "i32", "char_pair")]


def c16(t):
    j = []
    d = t
    for w in (1, 2, 3, 5, 8, 16, 33):
        j.append(Job("c16_roll", par("bup", [w]), 8 + d, algo=False))
        j.append(Job("c16_push", par("bup", [w]), 5 + d, 0, 0, 0, 0, (4,), algo=False))
    for kind in (1, 2):
        for pl in (0, 60, 64, 126):
            j.append(Job("c16_roll", par("bup", [64, kind], P, pl), 7 + d, algo=False))
            j.append(Job("c16_push", par("bup", [64, kind], P, pl), 5 + d, 0, 0, 0, 0, (4,), algo=False))
    for w in (88, 98, 102, 257, 1000):
        for pat in (P, 255):
            j.append(Job("c16_roll", par("bup", [w], pat, w - 3), 7 + d, algo=False))
            j.append(Job("c16_push", par("bup", [w], pat, w - 3), 4 + d, 0, 0, 0, 0, (3,), algo=False))
    # positions in the window beyond 8 and 16 bits
    for w, pl in ((70001, 65534), (70001, 69998), (65536, 65533)):
        j.append(Job("c16_roll", par("bup", [w], P, pl), 5 + d, algo=False))
        j.append(Job("c16_push", par("bup", [w], P, pl), 3 + d, 0, 0, 0, 0, (2,), algo=False))
    return j


def c17(t):
    j = std("c17_fce", None, (0,), t, longcap=2, huge=True)
    j += std("c17_iter", no_min0, (0,), t, dn=-1, longcap=2)
    for x in j:
        if x.params[5] > M20:
            x.params[6] = 1
    less = {"zpaq": 2, "gear": 2, "zstd": 2}
    d = t
    for c in CORE:
        if "min0" in c.tags:
            continue
        n = min(c.n, 5) + d - less.get(c.algo, 0)
        if c.algo in ("bup", "buzborg", "buzsalt") and n > 4:
            n = 4
        # 1: with what push() returns, not translated (FastCDC)
        for fl in (0, 1) if c.algo == "fast" else (0,):
            j.append(Job("c17_incr", c, max(2, n), 0, 0, fl))
    for c in QUIET:
        j.append(Job("c17_incr", c, c.n, 0, 1, 0))
        # with something behind
        j.append(Job("c17_fce", c, 1, 0, 1, 0, 11))
        if c.plen == 1030 and c.algo != "zpaq":
            j.append(Job("c17_iter", c, 1, 0, 1, 0, 9))
    for c in LONG:
        if c.n >= 3 and c.plen < 1000:
            j.append(Job("c17_incr", c, 3 if c.algo in ("ram", "mii", "gzip", "bup") else 2, 0, c.cap or 2, 0))
    return j


def c18(t):
    j = std("c18_incr", no_min0, (1, 1000), t) + std("c18_fce", None, (1, 1000), t, flags=(0, 1))
    # much data, few edges
    for c in (Cfg("bup", [64, 1], 2, plen=5000), Cfg("buzborg", [67, U32, U64, 1], 2, plen=20000),
              Cfg("fast", [2048, 8192, 65536, 2], 1, pat=0, plen=30000), Cfg("gear", [31], 2, plen=20000),
              Cfg("gzip", [8192, 1 << 40], 2, pat=3, plen=30000), Cfg("mii", [300], 2, plen=20000),
              Cfg("pigz", [31], 2, plen=20000), Cfg("ram", [100000], 2, plen=20000),
              Cfg("zpaq", [0, 32, 100000, 200000], 1, plen=20000), Cfg("zstd", [1 << 40], 1, plen=20000)):
        for f in (0, 1):
            j.append(Job("c18_incr", c, c.n, f, 3))
            j.append(Job("c18_fce", c, c.n, f, 3, 0))
        j.append(Job("c18_incr", c, c.n, 1000, 3))
    return j


PLAN = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11,
            C12=c12, C13=c13, C14=c14, C15=c15, C16=c16, C17=c17, C18=c18)


def jobs(prop, tier):
    seen, out = set(), []
    for j in PLAN[prop](tier):
        if j.key() not in seen:
            seen.add(j.key())
            out.append(j)
    return out


if __name__ == "__main__":
    import sys
    for p in PLAN:
        for t in (0, 1, 2):
            print(p, t, len(jobs(p, t)))
