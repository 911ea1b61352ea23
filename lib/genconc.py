"""Seeded load for the concurrency check: who writes and reads what, at once."""
import random


def scenario(rnd, single, reads):
    types = rnd.choice([["pods"], ["pods", "widgets"], ["deployments"], ["services"]])
    clusters = rnd.choice([["c1"], ["c1", "c2"], ["default", "c-2"]])
    nss = ["a", "b", "c"][:rnd.choice([1, 2, 3])]
    names = ["n%d" % i for i in range(rnd.choice([2, 5, 9]))]
    srcs = [(t, c) for t in types for c in clusters]
    deflt = clusters[0]
    sc = {"deflt": deflt, "clusters": clusters, "types": types, "nss": nss, "names": names, "single": single,
          "fill": [], "reads": reads, "writers": [], "readers": []}
    if rnd.random() < 0.7:
        for t, c in srcs:
            for ns in nss:
                for n in names:
                    if rnd.random() < 0.7:
                        sc["fill"].append([t, c, "put", ns, n])

    def script(mine, k, clears):
        r = []
        for _ in range(k):
            t, c = rnd.choice(srcs if mine is None else [mine])
            x = rnd.random()
            op = "clear" if clears and x < 0.04 else "del" if x < 0.3 else "put" if x < 0.6 else "mod"
            r.append([t, c, op, rnd.choice(nss), rnd.choice(names)])
        return r
    clears = rnd.random() < 0.5
    if single:
        for s in srcs:
            k = rnd.choice([7, 23, 60])
            w = script(s, k, clears)
            if rnd.random() < 0.5:
                # one namespace only, so that its states follow each other fast
                ns = rnd.choice(nss)
                for x in w:
                    x[3] = ns
            sc["writers"].append(w)
    else:
        for _ in range(rnd.choice([2, 3, 4])):
            sc["writers"].append(script(None, rnd.choice([5, 17, 40]), clears))
    for _ in range(rnd.choice([2, 3, 4])):
        rs = []
        for _ in range(rnd.choice([3, 8])):
            t = rnd.choice(types)
            k = rnd.choices(["list", "table", "page", "get"], [6, 2, 3 if single else 0, 3])[0]
            r = {"kind": k, "t": t, "cs": [], "ns": "", "n": "", "page": 0, "size": 0}
            if k in ("list", "table"):
                r["ns"] = rnd.choice(nss + [""])
                r["cs"] = rnd.choice([[], [rnd.choice(clusters)], list(clusters)])
            elif k == "page":
                r["ns"] = rnd.choice(nss)
                r["cs"] = rnd.choice([[], [rnd.choice(clusters)]])
                r["size"] = rnd.choice([1, 2, 3, 5])
                r["page"] = rnd.randint(1, 4)
            else:
                r["ns"], r["n"] = rnd.choice(nss), rnd.choice(names)
                r["cs"] = [rnd.choice(clusters)]
            rs.append(r)
        sc["readers"].append(rs)
    return sc


def scenarios(seed, n, reads):
    rnd = random.Random(seed * 7919 + 12)
    return [scenario(rnd, i % 3 != 2, reads) for i in range(n)]


def first_touches(seed, n, rounds):
    """Several sources meet in a cluster and namespace nothing has been put in yet."""
    rnd = random.Random(seed * 104729 + 3)
    out = []
    for _ in range(n):
        k = rnd.choice([2, 3, 4])
        t, nss = rnd.choice(["pods", "widgets"]), ["a", "b"]
        names = ["n%d" % i for i in range(k)]
        same = rnd.random() < 0.7
        cs = ["c1"] if rnd.random() < 0.7 else ["c1", "c2"]
        sc = {"deflt": "c1", "clusters": cs, "types": [t], "nss": nss, "names": names, "single": False, "fill": [],
              "reads": 1, "once": True, "rounds": rounds, "readers": [], "writers":
              [[[t, rnd.choice(cs), "put", "a" if same else rnd.choice(nss), names[i]]] for i in range(k)]}
        if rnd.random() < 0.5:
            sc["readers"] = [[{"kind": "list", "t": t, "cs": list(cs), "ns": "", "n": "", "page": 0, "size": 0}]]
        out.append(sc)
    return out
