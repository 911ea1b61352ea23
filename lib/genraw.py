"""Seeded scenarios for C20: arbitrary requests between ordinary changes and reads."""
import base64, json, random
import genlist

PK = "ckube.daocloud.io/query"


def b64(b):
    return base64.b64encode(b).decode()


def opt(s):
    """the label value form of embedded list options"""
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogatepass")
    return base64.b64encode(s).decode().rstrip("=")


def pct(b):
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogatepass")
    return "".join(chr(c) if chr(c).isalnum() and c < 128 else "%%%02X" % c for c in b)


BIG = [2**31 - 1, 2**31, 2**63 - 1, -2**63, 2**62, -1, 0, 1, 2, 3, 3037000500, 4294967296, 2**63 - 2]
ILL = ['"1"', "1.5", "1e3", "1e400", "null", "[]", "{}", "true", "-0", '"x"', str(2**63), str(-2**63 - 1), "9" * 400, "01", "[1,2]"]
STOK = ["__ckube_as__:", ";", ";;", "!", "!!", "=", "==", "!=", '"', '""', " ", "in", "notin", "(", ")", ",", "name", "cluster", "namespace", "lab", "a",
        "web", "dsm-cluster-", "c1", "<", ">", "\x00", "\n", "\t", "\\", "é", "日", "%", "*", ".*", "[", "{.metadata.name}", "{{", "}}", "\ufeff", "0", "x" * 70,
        "__ckube_as__: cluster in (c1)", "__ckube_as__:namespace in (", "nokey="]
OTOK = ["name", "lab", "num", "cluster", "nokey", "!", "int", "str", " ", "desc", "asc", ",", ",,", "!int", " desc", "!str asc", "", "\x00", "é", "-", ";", "  ", "!!int", "name!int"]
LTOK = ["lab", "tier", "num", "=", "==", "!=", " in ", " notin ", "(", ")", ",", "!", "a", "alpha", " ", "<none>", "x.y/z", "/", ">", "<", "-", "..", "é", "\x00", "''", "lab=alpha", PK, PK + "=", PK + " notin (", PK + " in (x", ")", "_", "A" * 300]
METHODS = ["GET"] * 12 + ["POST", "PUT", "DELETE", "DELETE", "PATCH", "OPTIONS", "HEAD", "HEAD", "TRACE", "FOO", "get", "PROPFIND", "M-SEARCH", "LIST"]
CTYPES = ["", "application/json", "application/strategic-merge-patch+json", "text/plain", "x", "application/json; charset=\xff", "multipart/form-data", ";;;"]
ACCEPTS = ["", "application/json", "application/json;as=Table;v=v1;g=meta.k8s.io,application/json", "*/*", "text/html", "application/vnd.kubernetes.protobuf", "application/json;as=Table", "x" * 3000, ",,;;"]


class RawGen(genlist.Gen):
    def tokens(self, pool, n=8):
        return "".join(self.r.choice(pool) for _ in range(self.r.randint(0, n)))

    def number(self):
        r = self.r
        return r.choice(ILL) if self.p(0.35) else str(r.choice(BIG))

    def options(self):
        """embedded list options, mostly broken"""
        r = self.r
        x = r.random()
        if x < 0.55:
            f = []
            if self.p(0.7):
                f.append('"page":' + self.number())
            if self.p(0.7):
                f.append('"page_size":' + self.number())
            if self.p(0.1):
                f.append('"total":' + self.number())
            if self.p(0.6):
                f.append('"search":' + (json.dumps(self.tokens(STOK)) if self.p(0.85) else r.choice(ILL)))
            if self.p(0.5):
                f.append('"sort":' + (json.dumps(self.tokens(OTOK, 6)) if self.p(0.85) else r.choice(ILL)))
            if self.p(0.1):
                f.append('"sort":"name"')
            r.shuffle(f)
            j = "{" + ",".join(f) + "}"
            if self.p(0.1):
                j = j[: r.randint(0, len(j))]
            return opt(j)
        if x < 0.65:
            return opt(r.choice(["", "null", "[]", "[" * 5000, '{"a":' * 3000, "{}", "0", '"x"', "\x00", "{\"search\":\"\ud800\"}", "{}{}", " {} "]))
        if x < 0.75:
            return opt(bytes(r.randrange(256) for _ in range(r.choice([1, 2, 3, 30, 200]))))
        if x < 0.9:
            return r.choice(["%%%", "a", "abcde", "====", "YQ==", "-_-_", "A" * 5000, "a.b", "0.", ".", "..", "é", "1", "Zm9v", "Zg", "not-base64"])
        return self.tokens(LTOK, 3)

    def selector(self):
        r = self.r
        x = r.random()
        if x < 0.3:
            return self.tokens(LTOK)
        o = self.options()
        if x < 0.45:
            s = PK + "=" + o
        elif x < 0.6:
            s = PK + r.choice([" notin (", " in ("]) + o + ")"
        elif x < 0.85:      # chunked
            n = r.choice([1, 2, 3, 7, 20])
            k = max(1, len(o) // n)
            ch = [o[i:i + k] for i in range(0, len(o), k)]
            vs = []
            off = 0
            for c in ch:
                vs.append("%s%s%s" % (r.choice([str(off), str(off), str(off), str(off), str(len(vs)), "-1", "999999999999", "99999999999999999999", "x", "", "0x1", "1e9", "+1"]), r.choice([".", ".", ".", ".", "", "..", "-"]), c))
                off += len(c)
            if vs and self.p(0.3):
                vs.append(r.choice(vs))
            if self.p(0.3) and vs:
                vs.pop(r.randrange(len(vs)))
            r.shuffle(vs)
            s = PK + r.choice([" notin (", " notin (", " in ("]) + ",".join(vs) + ")"
        elif x < 0.93:
            s = r.choice([PK, "!" + PK, PK + "=", PK + "!=" + o, PK + " in ()", PK + " notin (,)", PK + ">" + "5"])
        else:
            s = PK + "=" + o + "," + PK + " notin (" + self.options() + ")," + PK + "=" + self.options()
        if self.p(0.3):
            s = r.choice(["lab=alpha,", "lab in (alpha, beta),", "!tier,", ",", "lab,"]) + s
        if self.p(0.1):
            s += r.choice([",", ",lab=alpha", ",,", ")", " "])
        return s

    def path(self):
        r = self.r
        g = {"pods": "/api/v1", "services": "/api/v1", "nodes": "/api/v1", "deployments": "/apis/apps/v1", "widgets": "/apis/example.com/v1alpha1"}
        t = r.choice(list(self.types)) if self.p(0.85) else r.choice(["secrets", "Pods", "pods ", "%70ods"])
        base = g.get(t, "/api/v1")
        x = r.random()
        if x < 0.4:
            return base + "/" + t
        if x < 0.6:
            return base + "/namespaces/" + r.choice(self.nss + ["", "%2e%2e", "n%2F1", "é", "%00", "n 1".replace(" ", "%20"), "-", "N1", "x" * 400]) + "/" + t
        if x < 0.75:
            return base + "/namespaces/" + r.choice(self.nss) + "/" + t + "/" + r.choice(self.names + ["%2e%2e", "%00", "a%2Fb", "%E6%97%A5", "x" * 3000, "%zz", "..", "."]) + r.choice(["", "", "", "/log", "/status", "/"])
        if x < 0.8:
            return base + "/" + t + "/" + r.choice(self.names)
        return r.choice(["/", "//", "/api", "/api/v1", "/apis", "/version", "/openapi/v2", "/healthz", "/healthy", "/metrics", "/metrics/", "/custom/v1/namespaces/n1/deployments/web/services",
                         "/custom/v1/clusters/c1/namespaces/n1/deployments/%2e/services", "/custom/v1/clusters//namespaces//deployments//services", "/api/v1/watch/pods", "/api/v1/watch/namespaces/n1/pods/a",
                         "/api/v1/namespaces//pods", "/api//pods", "/apis///", "/api/v1/../v1/pods", "/./api/v1/pods", "/api/v1/pods/", "/API/V1/PODS", "/" + "a/" * 500, "/%", "/%2", "/?", "/#x", "*", "http://other.example/api/v1/pods",
                         "/api/v1/namespaces/n1", "/api/v1/namespaces", "/apis/apps/v1/namespaces/n1", "/debug/pprof", "/api/v1/nodes/x/proxy/", "/é".encode().decode("latin1"), "/api/v1/pods;a=b", "/api/v1/pods%3Flimit=1"])

    def rawquery(self):
        r = self.r
        kv = []
        if self.p(0.75):
            kv.append("labelSelector=" + pct(self.selector()))
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            kv.append(r.choice([
                "limit=" + r.choice(["0", "-1", "x", "9" * 30, ""]), "timeoutSeconds=" + r.choice(["-1", "x", "1e9", ""]), "timeout=" + r.choice(["x", "-5s", "0", ""]),
                "watch=" + r.choice(["1", "true", "y", "0", "", "maybe"]), "fieldSelector=" + r.choice(["metadata.name=x", "a==b!=c", "%00"]), "resourceVersion=" + r.choice(["0", "x", "-1", "dsm-cluster-", "dsm-cluster-c1", "dsm-cluster-nowhere", "dsm-cluster-%2F"]),
                "fieldManager=" + r.choice(["me", "dsm-cluster-c1", "dsm-cluster-", ""]), "cluster=" + r.choice(["c1", "", "nowhere", "%00"]), "continue=" + "x" * r.choice([1, 2000]),
                "%zz=1", "a;b=c", "=", "=x", "&&&", "labelSelector", "labelSelector=", "labelSelector[]=a", "pretty=true", "x=" + "y" * 10000, "%00=%00", "?", "watch", "dryRun=All&dryRun=None"]))
        r.shuffle(kv)
        return "&".join(kv)

    def body(self, m):
        r = self.r
        if m in ("GET", "HEAD", "OPTIONS") and self.p(0.9):
            return b""
        return r.choice([b"", b"{}", b"[]", b"null", b"\x00\xff", b"{", b'{"dryRun":["dsm-cluster-c1"]}', b'{"dryRun":"dsm-cluster-c1"}', b'{"dryRun":[1]}', b'{"dryRun":[""]}', b'{"dryRun":["dsm-cluster-"]}', b'{"dryRun":["dsm-cluster-nowhere","All"]}',
                         b'{"dryRun":null}', b'{"dryRun":[null]}', b'{"dryRun":[]}', b'{"gracePeriodSeconds":1e99,"dryRun":["dsm-cluster-c1"]}', b"[" * 20000, b'{"a":' * 5000, b"x" * 300000, '{"dryRun":["日"]}'.encode()])

    def http(self, kind):
        r = self.r
        m = "GET" if kind == "abort" else r.choice(METHODS)
        if kind == "query" and self.p(0.6):
            m = "GET"
        p, q = self.path(), self.rawquery()
        if kind == "down":
            p = r.choice(["/api/v1/secrets", "/api/v1/pods", "/api/v1/watch/pods", "/version"])
            q = r.choice(["fieldManager=dsm-cluster-dead", "resourceVersion=dsm-cluster-dead&watch=true", "cluster=dead", "cluster=dead&watch=1", "resourceVersion=dsm-cluster-dead&x=1"])
            if p == "/api/v1/pods":
                q += "&fieldSelector=a"
        b = self.body(m)
        h = ["Host: ckube"]
        a = r.choice(ACCEPTS)
        if a and self.p(0.5):
            h.append("Accept: " + a)
        ct = r.choice(CTYPES)
        if ct and b:
            h.append("Content-Type: " + ct)
        if self.p(0.15):
            h.append(r.choice(["Authorization: Bearer x", "Authorization:", "Authorization: " + "B" * 5000, "X-Forwarded-For: \xff", "Range: bytes=0-", "Upgrade: websocket", "If-None-Match: *", "Accept-Encoding: gzip", "Cookie: a=" + "b" * 4000,
                               "Impersonate-User: root", "X-Http-Method-Override: DELETE", "Origin: x"]))
        ver = "HTTP/1.1"
        h.append("Connection: close")
        if kind == "frame":
            x = r.randrange(7)
            if x == 0:
                h.append("Content-Length: 100")
                b = b"short"
                m = r.choice(["DELETE", "POST", "PUT"])
            elif x == 1:
                h.append("Transfer-Encoding: chunked")
                b = r.choice([b"zz\r\nx", b"5\r\nab", b"ffffffffffffffffff\r\n", b"-1\r\n\r\n", b""])
                m = r.choice(["DELETE", "POST", "PUT"])
            elif x == 2:
                ver = r.choice(["HTTP/1.0", "HTTP/9.9", "HTTP/2.0", "", "http/1.1"])
            elif x == 3:
                m = r.choice(["CONNECT", "", "G\x00T", "GET ", "(", "É"])
            elif x == 4:
                h = ["no colon", ": empty", "A" * 70000 + ": x"][: r.randint(1, 3)]
            elif x == 5:
                h.append("Host: twice")
            else:
                h.append("Expect: 100-continue")
                h.append("Content-Length: %d" % len(b))
        elif b:
            h.append("Content-Length: %d" % len(b))
        t = p + ("?" + q if q and "?" not in p else "")
        t = t.replace(" ", "%20")
        return (m + " " + t + " " + ver + "\r\n" + "\r\n".join(h) + "\r\n\r\n").encode("latin1", "replace") + b

    def raws(self):
        r = self.r
        for _ in range(r.choice([2, 4, 8])):
            kind = r.choice(["query"] * 8 + ["frame", "abort", "down"])
            n = r.choice([1, 1, 1, 1, 4, 12])
            reqs = [self.http(kind) for _ in range(n)]
            if kind == "query" and not {"pods", "services"} <= set(self.types) and any(b"/custom/" in q for q in reqs):
                kind = "down"       # what it needs is not configured
            self.steps.append({"op": "raw", "kind": kind, "b64": [b64(q) for q in reqs]})

    def group(self):
        self.raws()
        if self.p(0.5):
            self.change()
            self.raws()
        super().group()


def scenarios(seed, n):
    out = []
    g = RawGen(seed, "cluster")
    while len(out) < n:
        s = g.scenario()
        s["ups"] = sorted({"c1", "c2", g.eff})
        out.append(s)
    return out
