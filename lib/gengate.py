"""Concrete requests for the feature combinations printed by GenGateway.tla (C08-C10)."""
import json, random, urllib.parse
import genlist

BASE = {"pods": "/api/v1", "services": "/api/v1", "nodes": "/api/v1", "deployments": "/apis/apps/v1", "widgets": "/apis/example.com/v1alpha1"}
NAMES = ["a", "ab", "web-1", "web-2", "x.y", "default", "A", "namespaces", "watch", "status", "healthy", "metrics", "custom", "healthz"]
ODDN = ["a b", "x%y", "日本", "a:b", "a+b", "a;b", "q?r", "~x", "@me", "(x)", "a,b", "h#1", "a&b=c"]
NSS = ["n1", "n2", "default", "kube-system", "pods", "N1", "healthy"]
CL = ["c1", "c2", "c10", "default", "prod.eu", "C1"]
ODD = ["arn:aws:eks:eu/x", "user@kube.example", "Über"]
TOKENS = ["s3cret-Tok", "tok/en+==", "Z", "0123456789abcdef" * 8]


class GateGen:
    def __init__(self, seed, tag):
        self.r = random.Random("%s/gate/%s" % (seed, tag))
        self.lg = genlist.Gen(seed, "match")
        self.lg.r = self.r
        self.lg.names, self.lg.nss = NAMES, NSS

    def p(self, x):
        return self.r.random() < x

    def config(self, token=None):
        r = self.r
        deflt = r.choice(CL + CL + ODD)
        ups = sorted({deflt, *r.sample(CL + ODD, r.choice([1, 2, 3]))}) if self.p(0.85) else sorted(set(r.sample(CL, 2)) - {deflt})
        prefix = {c: r.choice(["", "", "", "/k8s/clusters/c-1", "/p%20q"]) for c in ups}
        types = r.sample(list(BASE), r.choice([2, 3, 4]))
        conf = {t: {"name": ["name"], "namespace": ["ns"], "lab": ["label", "lab"]} for t in types}
        self.cfg = {"deflt": deflt, "token": r.choice(["", "", r.choice(TOKENS)]) if token is None else token, "prefix": prefix, "conf": conf}
        self.clusters = sorted({*ups, deflt, "gone"})
        self.objs = {}
        v = 0
        for t in types:
            o = {}
            for _ in range(r.choice([3, 6, 10])):
                v += 1
                x = {"c": r.choice(self.clusters), "ns": "" if t == "nodes" else r.choice(NSS), "n": r.choice(NAMES + ODDN[:3]), "v": v,
                     "labels": {"lab": r.choice(["alpha", "beta", "al"]), "tier": r.choice(genlist.TIERS), "secret": "SECRET-%d" % v}, "annos": {}, "del": False}
                o[(x["c"], x["ns"], x["n"])] = x
            self.objs[t] = list(o.values())
        self.ups = ups

    def auth(self, how=None):
        """(good?, headers, extra query)"""
        r = self.r
        T = self.cfg["token"]
        if T == "":
            return r.choice([("bad", []), ("bad", [["Authorization", "Bearer x"]])])
        if how is None:
            how = "good" if self.p(0.9) else "bad"
        if how == "good":
            return "good", [["Authorization", r.choice(["Bearer " + T, T])]]
        forms = [[], [["Authorization", ""]], [["Authorization", "Bearer"]], [["Authorization", "Bearer wrong"]], [["Authorization", "Bearer " + T.swapcase()]],
                 [["Authorization", "Bearer " + T[:-1]]], [["Authorization", "Bearer " + T[1:]]], [["Authorization", "Bearer " + T[::-1]]],
                 [["X-Auth-Token", T]], [["Proxy-Authorization", "Bearer " + T]], [["Cookie", "token=" + T]], [["X-Forwarded-Authorization", "Bearer " + T]],
                 [["Authorization", "Bearer " + T[: len(T) // 2] + " " + T[len(T) // 2:]]], [["Authorization", "*"]], [["Authorization", "Bearer null"]],
                 [["X-Remote-User", "admin"]], [["Authorization2", T]]]
        f = r.choice(forms)
        if any(k == "Authorization" and T in v for k, v in f):
            f = []
        return "bad", f

    def esc(self, s):
        return urllib.parse.quote(s, safe="")

    def path(self, shape):
        """(abstract shape, t, ns, n, escaped path)"""
        r = self.r
        t = r.choice(list(BASE))
        if self.p(0.6):
            t = r.choice(list(self.cfg["conf"]))
        b = BASE[t]
        ns = r.choice(NSS)
        objs = self.objs.get(t, [])
        n = r.choice(NAMES + (ODDN if self.p(0.4) else []))
        if objs and self.p(0.7):
            o = r.choice(objs)
            ns, n = o["ns"] or ns, o["n"]
        e = self.esc(n)
        if shape == "list":
            return "list", t, "", "", "%s/%s" % (b, t)
        if shape == "nslist":
            return "list", t, ns, "", "%s/namespaces/%s/%s" % (b, ns, t)
        if shape == "get":
            if t != "nodes" and self.p(0.5) and "nodes" in self.cfg["conf"]:
                t, b = "nodes", BASE["nodes"]
                n = r.choice([o["n"] for o in self.objs["nodes"]])
                e = self.esc(n)
            return "get", t, "", n, "%s/%s/%s" % (b, t, e)
        if shape == "nsget":
            return "get", t, ns, n, "%s/namespaces/%s/%s/%s" % (b, ns, t, e)
        if shape == "sub":
            x = r.choice(["status", "log", "scale", "eviction", "pods", "a%2Fb", "proxy/x/y", "exec"])
            return "other", t, ns, n, r.choice(["%s/namespaces/%s/%s/%s/%s" % (b, ns, t, e, x), "%s/%s/%s/%s" % (b, t, e, x)])
        if shape == "ulist":
            return "other", "", ns, "", r.choice(["/api/v1/secrets", "/api/v1/namespaces/%s/configmaps" % ns, "/apis/batch/v1/jobs", "/apis/example.com/v1alpha1/gadgets", "/apis/batch/v1/namespaces/%s/jobs" % ns])
        if shape == "uget":
            e = self.esc(r.choice(NAMES + ODDN + ["a/b"]))
            return "other", "", ns, n, r.choice(["/api/v1/namespaces/%s/secrets/%s" % (ns, e), "/apis/rbac.authorization.k8s.io/v1/clusterroles/%s" % e, "/api/v1/persistentvolumes/%s" % e, "/apis/batch/v1/namespaces/%s/jobs/%s" % (ns, e)])
        if shape == "wrongver":
            return "other", "", ns, "", r.choice(["/api/v2/pods", "/apis/apps/v1beta1/deployments", "/apis/extensions/v1/namespaces/n1/pods", "/api/v1/deployments", "/apis/v1/pods", "/api/v1alpha1/namespaces/n1/widgets/a", "/apis/example.com/v1/widgets", "/api/v1/Pods", "/API/v1/pods", "/apis/core/v1/pods/a"])
        if shape == "watchpath":
            return "watchpath", t, ns, n, r.choice(["%s/watch/%s" % (b, t), "%s/watch/namespaces/%s/%s" % (b, ns, t), "%s/watch/namespaces/%s/%s/%s" % (b, ns, t, e), "/api/v1/watch/secrets"])
        if shape == "nsobj":
            return "other", "", "", "", r.choice(["/api/v1/namespaces", "/api/v1/namespaces/n1", "/api/v1/namespaces/pods", "/api/v1/namespaces/n1/status", "/api/v1/namespaces/n1/finalize"])
        if shape == "root":
            return "other", "", "", "", r.choice(["/", "/version", "/api", "/apis", "/api/v1", "/apis/apps/v1", "/apis/apps", "/openapi/v2", "/healthz", "/readyz", "/livez/ping", "/healthy/x", "/metrics/x", "/healthyx", "/custom", "/custom/v1/namespaces/n1", "/custom/v1/clusters/c1/namespaces/n1/deployments/d",
                                                  "/logs/", "/debug/pprof/", "/.well-known/openid-configuration", "/x%2Fy", "/%E6%97%A5", "/a%20b"])
        if shape in ("healthy", "metrics"):
            return shape, "", "", "", "/" + shape
        if shape == "dirty":  # sent to the cleaned path first; only sent without the token
            return shape, "", "", "", r.choice(["//healthy", "/healthy/../api/v1/pods", "/healthy/%2e%2e/api/v1/pods", "/metrics/../api/v1/secrets", "/api/v1//pods", "/./api/v1/pods", "/healthy%2F..%2Fapi%2Fv1%2Fpods", "//api/v1/pods", "/api/v1/pods/../../../healthy"])
        if shape == "custom":
            return shape, "", "", "", r.choice(["/custom/v1/namespaces/n1/deployments/web/services", "/custom/v1/clusters/c1/namespaces/n1/deployments/web/services"])

    OPTS = {"none": {}, "limit": {"limit": ["500"]}, "timeoutSeconds": {"timeoutSeconds": ["30"]}, "timeout": {"timeout": ["5s"]},
            "limits": {"limit": ["1"], "timeout": ["1m"], "timeoutSeconds": ["7"]}, "field": {"fieldSelector": ["spec.nodeName=x,status.phase!=Running"]},
            "rv": {"resourceVersion": ["12345"]}, "rv0": {"resourceVersion": ["0"]}, "watch1": {"watch": ["1"]}, "watchtrue": {"watch": ["true"]}, "watchy": {"watch": ["y"]},
            "watchfalse": {"watch": ["false"]}, "continue": {"limit": ["2"], "continue": ["eyJ2IjoibWV0YS5rOHMuaW8vdjEifQ"]}, "pretty": {"pretty": ["true"]},
            "repeated": {"dryRun": ["All", "None"]}, "foo": {"foo": ["bar", "b a&z=+%", "é"]}, "empty": {"x": [""]}, "manager": {"fieldManager": ["me & you"]},
            "limitfoo": {"limit": ["3"], "Limit": ["4"]}, "watchtwice": {"watch": ["true", "true"]}, "watchtimeout": {"watch": ["true"], "timeout": ["10s"], "timeoutSeconds": ["99"], "allowWatchBookmarks": ["true"]}}

    # names of options clients send, and values for them; none is one the cache answers
    ROPTS = {"resourceVersionMatch": ["NotOlderThan", "Exact", ""], "allowWatchBookmarks": ["true", "false"], "sendInitialEvents": ["true"], "includeUninitialized": ["true"],
             "includeObject": ["Object", "None", "Metadata"], "fieldValidation": ["Strict", "Warn"], "force": ["true"], "gracePeriodSeconds": ["0", "30"], "propagationPolicy": ["Orphan"],
             "orphanDependents": ["true"], "exact": ["true"], "export": ["1"], "page": ["1"], "page_size": ["2"], "pageSize": ["10"], "search": ["name=a", "a"], "sort": ["name", "name desc"], "q": ["x"],
             "query": ["a=b"], "token": ["t"], "access_token": ["abc"], "Cluster": ["c1"], "CLUSTER": ["c2"], "clusters": ["c1"], "LabelSelector": ["a=b"], "labelselector": ["a=b"], "labelSelectors": ["x"],
             "FieldSelector": ["a=b"], "ResourceVersion": ["5"], "resourceversion": ["dsm-cluster-c1"], "fieldmanager": ["dsm-cluster-c2"], "namespace": ["n1"], "name": ["a"], "container": ["x"], "follow": ["true"],
             "tailLines": ["10"], "command": ["ls"], "Timeout": ["1s"], "timeoutseconds": ["9"], "TimeoutSeconds": ["9"], "LIMIT": ["1"], "offset": ["1"], "_": ["1700000000"], "ckube.daocloud.io/query": ["x"],
             "fieldSelector": ["metadata.name=a", "metadata.namespace=n1", ""], "limit ": ["1"], "dryRun": ["All", "dsm-cluster-c1", "x-dsm-cluster-c2"], "continue": ["", "abc"], "pretty": ["", "1"],
             "fieldManager": ["kubectl-client-side-apply", "my-dsm-cluster-c2", " dsm-cluster-c1", "DSM-cluster-c1", "dsm-clusterc1", "dsm-cluster", "cluster-c1", "xdsm-cluster-default", "dsm_cluster-c1"],
             "resourceVersion": ["0", "77", "x-dsm-cluster-c1", "dsm-cluster", "Dsm-Cluster-c2", "7dsm-cluster-c10", "1 dsm-cluster-default"]}
    REPEATED = {"fieldManager": [["x", "dsm-cluster-c1"], ["a", "b"]], "resourceVersion": [["5", "dsm-cluster-c1"]], "fieldSelector": [["a=b", "c=d"]]}

    def options(self, o, k):
        r = self.r
        if o == "watchtwice":
            return {"watch": r.choice([["true", "true"], ["1", "0"], ["true", "false"], ["true", ""], ["1", "1", "1"]])}
        if o in ("watchy", "watchfalse"):
            return {"watch": [r.choice(["y", "t", "", "yes", "2", "TRUE", "on", "no"] if o == "watchy" else ["false", "0", "False", "FALSE"])]}
        if o != "rand":
            return dict(self.OPTS[o])
        out = {}
        if self.p(0.3):
            out.update(r.choice([{"limit": ["500"]}, {"timeout": ["5s"]}, {"timeoutSeconds": ["30"]}]))
        for name in r.sample(list(self.ROPTS), r.choice([1, 1, 1, 2, 3])):
            if name == {"fm": "fieldManager", "rv": "resourceVersion"}.get(k.rstrip("?")):
                continue
            out[name] = r.choice(self.REPEATED[name]) if name in self.REPEATED and self.p(0.2) else [r.choice(self.ROPTS[name])]
        return out or {"pretty": ["true"]}

    # headers that say nothing about who may ask or what is asked for
    NOISE = [["Origin", "https://ui.example"], ["Access-Control-Request-Method", "GET"], ["Access-Control-Request-Headers", "authorization"], ["X-Forwarded-For", "127.0.0.1"], ["X-Real-Ip", "127.0.0.1"],
             ["X-Forwarded-Host", "localhost"], ["User-Agent", "kube-probe/1.20"], ["User-Agent", "Prometheus/2.30"], ["User-Agent", "kubectl/v1.20 (linux/amd64) kubernetes/abc"], ["X-Http-Method-Override", "GET"],
             ["X-Original-Url", "/healthy"], ["X-Original-Uri", "/healthy"], ["X-Rewrite-Url", "/metrics"], ["X-Forwarded-Uri", "/healthy"], 
             ["Accept", "application/vnd.kubernetes.protobuf,*/*"], ["Accept", "text/html"], ["Accept", "application/json;as=PartialObjectMetadataList;g=meta.k8s.io;v=v1"], ["Accept", "application/vnd.kubernetes.protobuf"], ["Accept", "application/yaml"], ["Accept", "*/*"],
             ["Accept", "application/json;stream=watch"], ["Accept-Encoding", "gzip"], ["Accept-Encoding", "gzip, deflate, br"], ["Accept-Encoding", "identity"], ["Accept-Language", "de"], ["Impersonate-User", "system:admin"],
             ["Impersonate-Group", "system:masters"], ["X-Remote-User", "admin"], ["X-Remote-Group", "system:masters"], ["Referer", "http://localhost/metrics"], ["If-None-Match", "*"], ["If-Modified-Since", "Thu, 01 Jan 2099 00:00:00 GMT"],
             ["Cache-Control", "no-cache"], ["Pragma", "no-cache"], ["Sec-Fetch-Mode", "cors"], ["Sec-Fetch-Site", "same-origin"], ["X-Request-Id", "r-1"], ["Kubectl-Command", "kubectl get"], ["X-Requested-With", "XMLHttpRequest"],
             ["X-Cluster", "c2"], ["Cluster", "c2"], ["X-Namespace", "n2"], ["Cookie", "cluster=c2; session=1"], ["Range", "bytes=0-3"], ["Via", "1.1 ckube"], ["Forwarded", "for=127.0.0.1;host=localhost"], ["X-Auth", "ok"],
             ["Date", "Thu, 01 Jan 1970 00:00:00 GMT"], ["From", "a@b.c"], ["Warning", "199 - x"], ["X-Csrf-Token", "x"], ["Www-Authenticate", "Basic"], ["Sec-Websocket-Protocol", "base64url.bearer.authorization.k8s.io.eA"]]

    def sel(self, kind):
        r = self.r
        if kind == "none":
            return {"kind": "none", "reqs": [], "raw": ""}
        if kind in ("plain", "embedplain"):
            reqs = [self.lg.req(["lab", "tier", "absent", "app.kubernetes.io/name"], lambda k: {"tier": genlist.TIERS}.get(k, ["alpha", "beta", "al"])) for _ in range(r.choice([1, 1, 2, 3]))]
            return {"kind": "plain" if kind == "plain" else "embed", "reqs": reqs, "raw": ""}
        if kind == "embed":
            return {"kind": "embed", "reqs": [], "raw": ""}
        if kind == "gt":
            return {"kind": "bad", "reqs": [], "raw": r.choice(["num>5", "num<7,lab=alpha"])}
        if kind == "bad":
            return {"kind": "bad", "reqs": [], "raw": r.choice(["lab in (", "a b c", "lab in a", "!!x", "=x", "bad_/x=1", "lab=ü", "lab=a b", "<none>", "<none>"])}
        return {"kind": "badembed", "reqs": [], "raw": r.choice(["ckube.daocloud.io/query=a_b.c", "ckube.daocloud.io/query=x.y,lab=alpha", "ckube.daocloud.io/query notin (x.y)"])}

    def mark(self, how):
        r = self.r
        unknown = how.endswith("?")
        how = how.rstrip("?")
        if how == "none":
            return {"how": "none", "c": ""}
        if unknown:
            cs = [c for c in CL + (ODD if how != "embed" else []) + ["nowhere", "gone"] if c not in self.ups]
        else:
            cs = [c for c in self.ups if how != "embed" or c in CL]
            if not cs:
                cs = [c for c in CL if c in self.ups] or ["nowhere"]
        return {"how": how, "c": r.choice(cs)}

    def request(self, f, auth=None):
        r = self.r
        shape, t, ns, n, path = self.path(f["s"])
        m = f["m"]
        if m == "LOCK":
            m = r.choice(["LOCK", "LOCK", "TRACE", "PROPFIND", "SEARCH", "CONNECT-IT", "get"])
        good, hdrs = self.auth(auth)
        if self.p(0.5):
            hdrs = hdrs + [list(x) for x in r.sample(self.NOISE, r.choice([1, 1, 2, 4]))]
        q = {"m": m, "shape": shape, "t": t, "ns": ns, "n": n, "path": path, "opts": self.options(f["o"], f["k"]), "sel": self.sel(f["l"]), "mark": self.mark(f["k"]),
             "auth": good, "body": "", "plain": "", "ct": ""}
        if m in ("POST", "PUT", "PATCH") and self.p(0.85) or m in ("LOCK",) and self.p(0.5):
            q["body"] = r.choice(['{"kind":"Pod","metadata":{"name":"x","labels":{"a":"b"}}}', '[{"op":"replace","path":"/spec/x","value":1.50}]', "spec:\n  replicas: 3\n", '{"a":  [1,2 , 3],"big":12345678901234567890}\n',
                                  '{"metadata":{"annotations":{"x":"é日本 <&>"}}}', "x" * 20000, *(["@@big %d" % r.choice([40000, 1100000, 3200000, 5000000])] * self.p(0.15)), "\u0001binary\u0000", " ", '{"dryRun":["dsm-cluster-c1"]}'])
            q["ct"] = r.choice(["application/json", "application/json-patch+json", "application/merge-patch+json", "application/strategic-merge-patch+json", "application/apply-patch+yaml", "application/yaml", "application/vnd.kubernetes.protobuf"])
        if m == "DELETE":
            opt = r.choice([{}, {"gracePeriodSeconds": 0}, {"propagationPolicy": "Foreground", "kind": "DeleteOptions", "apiVersion": "v1"}, {"preconditions": {"uid": "u-1", "resourceVersion": "7"}},
                            {"orphanDependents": True}, {"gracePeriodSeconds": 30, "ignoreStoreReadErrorWithClusterBreakingPotential": True}])
            rest = r.choice([[], ["All"], ["All"], ["All", "dsm-cluster-c1"], ["x-dsm-cluster-c2"]])
            if q["mark"]["how"] == "body":
                q["plain"] = json.dumps(dict(opt, **({"dryRun": rest} if rest else {})))
                q["body"] = json.dumps(dict(opt, dryRun=["dsm-cluster-" + q["mark"]["c"]] + rest), ensure_ascii=False)
                q["ct"] = "application/json"
            elif self.p(0.7):
                q["body"] = r.choice([json.dumps(dict(opt, **({"dryRun": rest} if rest else {}))), "@@opts %d" % r.choice([900, 5000, 70000, 1100000]) if self.p(0.2) else "not json", '{ "propagationPolicy" : "Orphan" }\n', "\u0001bin"])
                q["ct"] = r.choice(["application/json", "application/vnd.kubernetes.protobuf"])
        st = r.choice([200, 200, 200, 201, 202, 400, 401, 403, 404, 409, 410, 422, 429, 500, 503, 504, 204, 302, 307, 203])
        if st < 300 and (shape == "watchpath" or f["o"] in ("watch1", "watchtrue", "watchy", "watchtwice", "watchtimeout")):
            st = 200  # the one success a watch request has
        body = "" if st == 204 else r.choice(['{"kind":"Status","apiVersion":"v1","code":%d}' % st, '{"kind":"PodList","items":[]}\n', "plain text", "", "<html>é日本</html>", '{"x":"' + "y" * 60000 + '"}', '{"a":1}\n{"b":2}\n', '{"type":"ADDED","object":{}}\n'])
        if st != 204 and self.p(0.004):
            body = "@@big %d" % r.choice([1100000, 4300000, 11000000, 34000000])
        return {"op": "req", "r": q, "hdrs": hdrs, "up": {"st": st, "body": body, "ct": r.choice(["application/json", "text/plain", ""]), "loc": "/elsewhere" if st in (302, 307) else ""}}

    def segment(self, feats, auth=None, token=None):
        self.config(token)
        steps = [self.request(f, auth) for f in feats]
        return {"cfg": self.cfg, "objs": self.objs, "steps": steps}

    def burst(self):
        """requests that are forwarded, to be sent at the same time"""
        r = self.r
        out = []
        for i in range(r.choice([4, 8, 16])):
            f = {"m": r.choice(["GET", "POST", "PATCH", "DELETE", "PUT", "GET"]), "s": r.choice(["list", "nslist", "nsget", "ulist", "uget", "sub"]), "o": "none", "l": "none", "k": r.choice(["none", "fm", "rv", "param"])}
            s = self.request(f, "good")
            s["r"]["opts"] = {"rid": [str(i)]}
            if s["r"]["mark"]["how"] == "none" and self.cfg["deflt"] not in self.ups:
                continue
            out.append(s)
        return {"op": "burst", "each": out}
