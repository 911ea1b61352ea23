"""Seeded scenarios of the list family (C04-C07, C11, C19): configurations, cache
contents and groups of requests as abstract queries. No expected answers here:
spec/CkubeQuery.tla defines them."""
import random

NAMES = ["a", "ab", "abc", "b", "ba", "web-1", "web-2", "web-10", "web", "x.y", "1", "10", "z-b", "default"]
NSS = ["n1", "n2", "n10", "default", "kube-system", "N1"]
CLUSTERS = ["c1", "c2", "c10", "default", "prod.eu", "C1"]
ODD_CLUSTERS = ["arn:aws:eks:eu/x", "-dev", "user@kube.example", "Über"]     # not label values
LABS = ["alpha", "beta", "al", "alp", "x;y", ";", "a;;b", "two words", "k=v", "sl/ash", "b:c", "Beta", "x,y", "tail;", "grün", "日本", "?~", "plus+", "hash#1", "50%"]
SELV = ["alpha", "beta", "al", "alp", "Beta"]
TIERS = ["front", "back", "mid-1", "m"]
NUMS = ["0", "1", "2", "9", "10", "-3", "07", "2.5", "2.50", "+4", "100", "-0", "10.0"]
# close to each other, large, small: told apart by 64 bit floats, not by lesser types
FINE = ["16777216", "16777217", "16777218", "4294967295", "4294967296", "4294967297", "-4294967296", "2147483647", "2147483648", "-2147483649", "1700000000000", "1700000000001",
        "0.1", "0.10000001", "0.100", "-0.1", "0.0001", "1.00000000001", "1.0", "9007199254740991", "9007199254740990", "-9007199254740991", "0.5", "-0.5", "00.50", "0.0000000001", "0.0000000002", "-0.0000000001", "1.0000000001", "1.0000000002", "3000000000.25", "3000000000.75"]
NOTNUM = ["abc", "1a", "", "--1", " 5", "5 ", " 7", "9 ", "5%", "5Gi", "100m", "1,5", "0x10", "-", ".", "1.2.3", "1 2"]


class Gen:
    def __init__(self, seed, focus):
        self.r = random.Random("%s/%s" % (seed, focus))
        self.focus = focus
        self.named = False

    def p(self, x):
        return self.r.random() < x

    # ---- configuration -----------------------------------------------------
    def conf(self, t):
        r = self.r
        c = {"name": ["name"], "namespace": ["ns"], "lab": ["label", "lab"]}
        if t == "nodes" and self.p(0.6):
            del c["namespace"]
        if self.p(0.7):
            c["num"] = ["label", "num"]
        if self.p(0.5):
            c["tier"] = ["dflt", "tier", "none"]
        if self.p(0.4):
            c["note"] = ["anno", "note"]
        if self.p(0.3):
            c["q"] = ["quote", "lab"]
        if self.p(0.3):
            c["Fixed-key"] = ["lit", "constant x"]
        # what the gateway knows better than any configuration
        if self.p(0.12):
            c["cluster"] = r.choice([["label", "lab"], ["lit", "c1"]])
        if self.p(0.08):
            c["is_deleted"] = r.choice([["label", "lab"], ["lit", "true"]])
        if self.p(0.08) and self.focus != "table":
            c[r.choice(["name", "namespace"])] = ["label", "lab"]
            self.named = True       # a table shows what was configured
        if self.focus == "encode":
            c["k\u00fc~?>"] = ["lit", "v>?~\u65e5"]
        return c

    def scenario(self):
        r = self.r
        self.named = False
        self.odd = self.p(0.25)
        deflt = r.choice(ODD_CLUSTERS + ["", "default"]) if self.odd else r.choice(CLUSTERS)
        types = r.sample(["pods", "services", "nodes", "deployments", "widgets"], r.choice([1, 2, 2, 3]))
        if self.focus == "cluster" and len(types) == 1:
            types = types + ["pods"] if types != ["pods"] else ["pods", "widgets"]
        self.types = {t: self.conf(t) for t in types}
        self.deflt = deflt
        self.eff = deflt or "default"
        self.clusters = list({self.eff, *r.sample(CLUSTERS, r.choice([1, 2, 3]))})
        if self.odd:
            self.clusters.append(r.choice(ODD_CLUSTERS))
        self.clusters = sorted(set(self.clusters))
        self.names = r.sample(NAMES, r.choice([2, 4, 8, 12]))
        self.nss = r.sample(NSS, r.choice([1, 2, 3]))
        self.labs = r.sample(LABS, r.choice([2, 4, 8]))
        if self.focus == "encode":
            self.labs += [self.anytext() for _ in range(r.choice([2, 4, 8]))]
        self.nums = (r.sample(FINE, r.choice([4, 8])) if self.p(0.3) else r.sample(NUMS, r.choice([3, 5, 9]))) + (r.sample(NOTNUM, 1) if self.p(0.4 if self.focus == "order" else 0.25) else [])
        self.cache = {}
        self.ver = 0
        self.steps = []
        self.grp = 0
        rounds = r.choice([1, 2, 3])
        for _ in range(rounds):
            for _ in range(r.choice([0, 3, 8, 14, 20] + [70] * (self.focus == "order"))):
                self.change()
            for _ in range(r.choice([2, 4, 6])):
                self.group()
        return {"deflt": self.eff, "types": self.types, "steps": self.steps}

    CHARS = [chr(c) for c in range(32, 127) if chr(c) not in '"\\'] + list("\u00e9\u00fc\u00df\u65e5\u672c\u4e2d\u20ac\u03c9\u0416\U0001f600\u00ff\u00bf\u3042")

    def anytext(self):
        r = self.r
        n = r.choice([1, 2, 3, 5, 10, 30, 41, 42, 43, 60, 100, 300, 1000] + [3000] * self.p(0.3) + [9000] * self.p(0.1))
        pool = r.choice([self.CHARS, self.CHARS, list("?~>/+\u00ff\u00bf"), list("ab;"), list("<>&'%+ /")])
        return "".join(r.choice(pool) for _ in range(n)).strip(" ") or "?"

    def obj(self, t):
        r = self.r
        labels = {"lab": r.choice(self.labs)}
        if self.p(0.85):
            labels["num"] = r.choice(self.nums)
        if self.p(0.5):
            labels["tier"] = r.choice(TIERS)
        self.ver += 1
        o = {"c": r.choice(self.clusters), "ns": "" if t == "nodes" else r.choice(self.nss), "n": r.choice(self.names),
             "v": self.ver, "labels": labels, "annos": {}, "del": self.p(0.1)}
        if self.p(0.3):
            o["annos"]["note"] = r.choice(LABS)
        return o

    def change(self):
        r = self.r
        t = r.choice(list(self.types))
        x = r.random()
        if x < 0.82 or not self.cache:
            o = self.obj(t)
            k = (t, o["c"], o["ns"], o["n"])
            self.steps.append({"op": "mod" if k in self.cache else "put", "t": t, "o": o})
            self.cache[k] = o
        elif x < 0.96:
            k = r.choice(list(self.cache))
            o = dict(self.cache.pop(k))
            self.steps.append({"op": "del", "t": k[0], "o": o})
        else:
            c = r.choice(self.clusters)
            self.steps.append({"op": "clear", "t": t, "c": c})
            for k in [k for k in self.cache if k[0] == t and k[1] == c]:
                del self.cache[k]

    # ---- queries -------------------------------------------------------------
    def some(self, xs, lo=1, hi=3):
        xs = list(xs)
        return self.r.sample(xs, min(len(xs), self.r.randint(lo, hi)))

    def req(self, keys, vals):
        k = self.r.choice(keys)
        op = self.r.choice(["in", "in", "eq", "eq", "notin", "ne", "ex", "nex"])
        vs = vals(k)
        v = self.some(vs) if op in ("in", "notin") else self.some(vs, 1, 1)
        return {"key": k, "op": op, "vals": v if op not in ("ex", "nex") else []}

    def index_vals(self, k):
        return {"name": [n for n in self.names], "namespace": self.nss or ["n1"], "cluster": [c for c in CLUSTERS],
                "is_deleted": ["true", "false"], "tier": TIERS + ["none"]}.get(k, SELV)

    def value(self, k):
        r = self.r
        pool = {"name": self.names, "namespace": self.nss, "cluster": CLUSTERS, "is_deleted": ["true", "fal", "e"],
                "num": [n for n in self.nums], "tier": TIERS + ["none"], "q": self.labs}.get(k, self.labs)
        v = r.choice(pool)
        if self.p(0.4) and len(v) > 1:
            i = r.randrange(len(v))
            v = v[i:r.randrange(i + 1, len(v) + 1)]
        v = v.strip(" ")
        return v.lstrip("!")

    def part(self, t, nonss):
        r = self.r
        keys = list(self.types[t]) + ["cluster", "is_deleted"]
        if "namespace" not in keys:
            keys.append("namespace")
        x = r.random()
        base = {"k": "", "neg": False, "key": "", "val": "", "exact": False, "reqs": [], "raw": r.choice(["", "", "", " "])}
        if x < 0.3:
            k = r.choice(keys)
            v = self.value(k)
            if not v:
                v = "a"
            v = v.replace("=", "")
            if not v.strip(" ") or v[0] in "!" or v.startswith("__ckube"):
                v = "a"
            base.update(k="fuzzy", val=v, neg=self.p(0.3), exact=self.p(0.25))
        elif x < 0.65:
            k = r.choice(keys) if self.p(0.92) else r.choice(["nokey", "Name", "labe", "x", "name ", "lab\t"])
            v = self.value(k)
            base.update(k="kv", key=k, val=v, neg=self.p(0.3), exact=self.p(0.35))
            if not base["exact"] and not base["neg"] and v == "" and self.p(0.8):
                base["exact"] = True
        elif x < 0.95 or self.focus not in ("match", "order"):
            ks = [k for k in keys if not (nonss and k == "namespace") and k.isascii() and k != "Fixed-key"]
            ks = [k for k in ks if k not in ("cluster",) or not self.noadvcluster] + (["missing"] if self.p(0.3) else [])
            if self.focus == "encode":        # a restriction the helpers replace
                ks = [k for k in ks if k not in ("namespace", "cluster")] + ["namespace"] * ("ns" in self.helped) + ["cluster"] * ("cl" in self.helped)
            reqs = []
            for _ in range(r.choice([1, 1, 2, 3])):
                q = self.req(ks, self.index_vals)
                if (q["key"] == "cluster" or q["key"] == "namespace" and self.focus == "encode") and q["op"] in ("notin", "ne", "ex", "nex"):
                    q["op"] = "in"
                    q["vals"] = self.some(CLUSTERS if q["key"] == "cluster" else NSS)
                reqs.append(q)
            base.update(k="adv", reqs=reqs)
        else:
            base.update(k="bad", raw=r.choice(["__ckube_as__: a in (", "__ckube_as__:", "__ckube_as__: name>1", "__ckube_as__:a==b==c",
                                               "__ckube_as__: =x", "__ckube_as__:name in ()x", "__ckube_as__: a,,b"]))
        return base

    def labelreq(self):
        return self.req(["lab", "tier", "num", "absent"], lambda k: {"tier": TIERS, "num": ["1", "10", "9", "2.5"]}.get(k, SELV))

    def sortspec(self, t):
        r = self.r
        f = self.focus
        conf = self.types[t]
        keys = [k for k in conf if k not in ("lab", "note", "q")] + ["cluster", "is_deleted", "namespace"]
        if all(all(ord(ch) < 128 for ch in o["labels"]["lab"]) for o in self.cache.values()):
            keys += ["lab"]
        out = []
        for _ in range(r.choice([1, 1, 2, 3, 2, 3] + [5, 6, 7, 8] * (f == "order"))):
            k = r.choice(sorted(set(keys)))
            typ = "int" if (k == "num" and self.p(0.75)) or (self.p(0.04)) else "str"
            out.append({"key": k, "typ": typ, "dir": r.choice(["asc", "desc"]), "how": r.randrange(8)})
        if self.p(0.06):
            out.append({"key": r.choice(["nope", "Name"]), "typ": "str", "dir": "asc", "how": 0})
        return out

    BADSORT = ["name down", "name!float", "name asc desc", "name!int!int", "name  desc", "name!", "name ASC", "name,cluster up", "name!num desc"]

    def query(self):
        r = self.r
        f = self.focus
        t = r.choice(list(self.types))
        namespaced = t != "nodes"
        q = {"t": t, "ns": "", "calls": [], "parts": [], "sel": [], "sort": [], "badsort": False, "page": 0, "size": 0, "mark": ""}
        nss, cls = [], []
        if namespaced and self.p(0.35):
            q["ns"] = r.choice(self.nss + ["n1"])
        pn = {"match": 0.35}.get(f, 0.15)
        if namespaced and self.p(pn):
            nss = self.some(NSS, 1, 2)
        self.noadvcluster = self.p(0.5)
        if self.p(0.55 if f != "cluster" else 0.4) or self.odd and f != "cluster":
            ok = [c for c in self.clusters if c in CLUSTERS]
            if self.p(0.6):
                ok = [c for c in CLUSTERS if c in self.clusters] or CLUSTERS
                cls = ok
            else:
                cls = self.some(CLUSTERS, 1, 3)
            self.noadvcluster = True
        elif self.p(0.3 if f == "cluster" else 0.05):
            q["mark"] = r.choice(self.clusters)
            self.noadvcluster = True
        if nss:
            q["calls"].append({"h": "ns", "v": nss})
        if cls:
            q["calls"].append({"h": "cl", "v": cls})
        r.shuffle(q["calls"])
        if f == "encode" and self.p(0.5):
            for _ in range(r.choice([1, 2])):
                h = r.choice(["ns", "cl"]) if namespaced else "cl"
                q["calls"].insert(r.randrange(len(q["calls"]) + 1), {"h": h, "v": self.some(NSS if h == "ns" else CLUSTERS)})
            if any(c["h"] == "cl" for c in q["calls"]):
                q["mark"] = ""
        nss = [c for c in q["calls"] if c["h"] == "ns"]
        self.helped = {c["h"] for c in q["calls"]}
        np = {"encode": [0, 1, 1, 2, 3, 5], "match": [0, 1, 1, 2, 2, 3, 4], "cluster": [0, 0, 1, 2], "pages": [0, 0, 1, 2], "order": [0, 0, 0, 1], "table": [0, 0, 1]}[f]
        for _ in range(r.choice(np)):
            q["parts"].append(self.part(t, bool(nss)))
        if self.p({"match": 0.4, "pages": 0.5, "encode": 0.4}.get(f, 0.2)):
            q["sel"] = [self.labelreq() for _ in range(r.choice([1, 1, 2, 3]))]
        if self.p({"order": 0.9, "pages": 0.5, "table": 0.4}.get(f, 0.2)):
            q["sort"] = self.sortspec(t)
        return q

    def group(self):
        r = self.r
        f = self.focus
        self.grp += 1
        q = self.query()
        step = {"op": "req", "grp": "g%d" % self.grp, "rawsort": "",
                "extra": r.choice(["", "", "", "limit=500", "timeoutSeconds=30", "timeout=5s&limit=1"])}
        if f == "order" and self.p(0.12):
            q["badsort"] = True
            q["sort"] = []
            step["rawsort"] = r.choice(self.BADSORT)

        def add(page, size, table=False, again=False):
            table = table and not self.named
            qq = dict(q, page=page, size=size)
            s = dict(step, q=qq, table=table)
            if again and len({c["h"] for c in q["calls"]}) == len(q["calls"]) > 1:     # the order of the helpers does not matter
                qq["calls"] = q["calls"][::-1]
            if page >= 1000000000:
                s["rpage"] = r.choice([2147483648, 4611686018427387904, 9223372036854775807, 3000000001])
            if size >= 1000000000:
                s["rsize"] = r.choice([2147483648, 4611686018427387904, 9223372036854775807])
            self.steps.append(s)
        add(0, 0)
        n = len(self.cache)
        if f in ("pages", "table") or self.p(0.3):
            size = r.choice([1, 1, 2, 3, 5, 7, max(1, n // 2), max(1, n), n + 1])
            npages = min(6, n // size + 2)
            for pg in range(1, npages + 1):
                add(pg, size, again=self.p(0.3))
                if f == "table" or self.p(0.05):
                    add(pg, size, table=True)
            if f == "pages":
                x = [(0, 3), (2, 0), (1, 0), (-1, 2), (1, -1), (-2, -2), (0, -1), (-1, 0), (1000000000, 1), (1000000000, 1000000000),
                     (1, 1000000000), (2, 1000000000), (1000000000, 3), (n + 1, 1), (n, 1)]
                for pg, sz in r.sample(x, 4):
                    add(pg, sz)
        if f == "table" or self.p(0.1):
            add(0, 0, table=True)
        if self.p(0.5):
            add(0, 0, again=True)
        if f == "encode" and self.p(0.7):
            self.steps.append({"op": "wrap", "t": r.choice(["get", "create", "update", "patch", "delete"]), "c": r.choice(CLUSTERS + ODD_CLUSTERS),
                               "grp": r.choice(["set", "free"]), "n": r.choice(["mine", "dsm-cluster-c1", "All", "0"])})
        if f == "cluster":
            for _ in range(4):
                t = r.choice(list(self.types))
                if self.cache and self.p(0.8):
                    k = r.choice(list(self.cache))
                    t, c, ns, n = k
                    if self.p(0.5):
                        c = r.choice(self.clusters + ["", "c9"])
                else:
                    c, ns, n = r.choice(self.clusters + ["", "c9"]), ("" if t == "nodes" else r.choice(self.nss)), r.choice(self.names)
                if c == self.eff and self.p(0.5):
                    c = ""
                self.steps.append({"op": "get", "t": t, "c": c, "ns": ns, "n": n})


def big(g):
    """a cache of hundreds of objects, of which large pages and all of it are asked for"""
    r = g.r
    while True:
        s = g.scenario()
        t = r.choice(list(g.types))
        g.types = {t: g.types[t]}
        n = r.choice([501, 640, 1001, 1100])
        os, seen = [], set()
        while len(os) < n:
            o = g.obj(t)
            o["n"] = r.choice(["p-%d", "p%03d", "x.%d.y"]) % r.randrange(2 * n)
            if (o["c"], o["ns"], o["n"]) not in seen:
                seen.add((o["c"], o["ns"], o["n"]))
                os.append(o)
        g.cache = {("x", i): o for i, o in enumerate(os)}
        g.steps = [{"op": "fill", "t": t, "os": os}]
        g.grp = 0
        for i in range(8):
            q = dict(g.query(), t=t)
            q["sort"] = [k if j == 0 else dict(k, typ="str") for j, k in enumerate(q["sort"])]  # keeps judging it cheap
            if i < 4:
                q.update(parts=[], sel=[], calls=[], ns="", mark="")
                q["calls"] = [{"h": "cl", "v": [c for c in g.clusters if c in CLUSTERS] or CLUSTERS}]
            if t == "nodes":
                q["ns"], q["calls"] = "", [c for c in q["calls"] if c["h"] != "ns"]
            g.grp += 1
            for pg, sz in [(0, 0)] + r.sample([(1, 500), (2, 500), (1, 501), (2, 501), (1, 1000), (2, 1000), (1, n), (1, n - 1), (2, n - 1), (1, n // 2), (2, n // 2), (3, n // 3), (n, 1), (n // 2, 2)], 3):
                g.steps.append({"op": "req", "grp": "g%d" % g.grp, "rawsort": "", "extra": "", "q": dict(q, page=pg, size=sz), "table": False})
        if g.focus == "table":
            g.steps += [dict(x, table=True) for x in g.steps[1:2]]
        return dict(s, steps=g.steps, types=g.types)


def scenarios(seed, focus, n):
    g = Gen(seed, focus)
    out = [big(g) for _ in range(1 if n < 1000 else 8)]
    while len(out) < n:
        s = g.scenario()
        if any(x["op"] == "req" for x in s["steps"]):
            out.append(s)
    return out
