"""Seeded objects of many types and index configurations for the check of C17.
Expressions are made as syntax trees; what they yield is decided by CkubeObjects."""
import random

CUSTOM = [  # group, version, resource, kind, namespaced
    ("example.com", "v1", "hosts", "Host", True), ("example.com", "v1", "lists", "List", True),
    ("test.io", "v1beta1", "tests", "Test", True), ("a.b.c.example.org", "v2alpha1", "settings", "Settings", False),
    ("", "v1", "gadgets", "Gadget", True), ("", "v1", "globals", "GlobalList", False),
    ("security.istio.io", "v1beta1", "authorizationpolicies", "AuthorizationPolicy", True),
    ("x.io", "v1", "watch", "Watchlist", True), ("y.io", "v1", "artists", "Artist", False),
    ("apps", "v1", "rollouts", "Rollout", True), ("z.io", "v1", "pods", "Pod", True),
    ("gateway.io", "v1", "listenersets", "ListenerSet", True), ("a.io", "v1", "allowlistentries", "AllowListEntry", False), ("l.io", "v1", "listlists", "ListList", True),
    ("example.com", "v1alpha1", "hosts", "Host", True), ("apps", "v9", "deployments", "Deployment", True), ("", "v2", "pods", "Pod", True), ("batch", "v9", "jobs", "Job", True),
]
# served in two versions, one of them perhaps built in
TWICE = [("hosts", "example.com"), ("deployments", "apps"), ("pods", ""), ("jobs", "batch")]
BUILTIN = [
    ("", "v1", "pods", "Pod", True), ("", "v1", "services", "Service", True), ("", "v1", "nodes", "Node", False),
    ("", "v1", "namespaces", "Namespace", False), ("", "v1", "configmaps", "ConfigMap", True), ("", "v1", "secrets", "Secret", True),
    ("", "v1", "events", "Event", True), ("", "v1", "endpoints", "Endpoints", True), ("", "v1", "persistentvolumes", "PersistentVolume", False),
    ("", "v1", "persistentvolumeclaims", "PersistentVolumeClaim", True), ("", "v1", "serviceaccounts", "ServiceAccount", True),
    ("apps", "v1", "deployments", "Deployment", True), ("apps", "v1", "statefulsets", "StatefulSet", True),
    ("apps", "v1", "daemonsets", "DaemonSet", True), ("apps", "v1", "replicasets", "ReplicaSet", True),
    ("batch", "v1", "jobs", "Job", True), ("batch", "v1beta1", "cronjobs", "CronJob", True),
    ("networking.k8s.io", "v1", "ingresses", "Ingress", True), ("networking.k8s.io", "v1", "networkpolicies", "NetworkPolicy", True),
    ("rbac.authorization.k8s.io", "v1", "clusterroles", "ClusterRole", False), ("rbac.authorization.k8s.io", "v1", "rolebindings", "RoleBinding", True),
    ("storage.k8s.io", "v1", "storageclasses", "StorageClass", False), ("autoscaling", "v1", "horizontalpodautoscalers", "HorizontalPodAutoscaler", True),
    ("policy", "v1", "poddisruptionbudgets", "PodDisruptionBudget", True), ("autoscaling", "v2beta2", "horizontalpodautoscalers", "HorizontalPodAutoscaler", True),
]
STR = ["a", "web-1", "", "x.y/z", "h\u00e9llo \u2713", "t\tn\n", 'q"uo\\te', "<b>&amp;", "10.0.0.1", "true", "7", "}{", "$x", "a b", "null"]
KEYS = ["spec", "data", "Data", "status", "kindOf", "objectMeta", "TypeMeta", "x-y", "a.b", "a/b", "a~b", "", "\u00e9", "items", "metadata2", "Kind", "labels", "0", "<&>"]


class Num(str):
    """A number given by its literal."""


def value(rnd, d):
    x = rnd.random()
    if d <= 0 or x < 0.45:
        return rnd.choice([lambda: rnd.choice(STR), lambda: rnd.choice([True, False]), lambda: None,
                           lambda: Num(rnd.choice(["0", "1", "-1", "80", "9007199254740993", "123456789012345678901234567890", "1.50", "1e3", "0.1", "-0", "1E+2", "3.0"]))])()
    if x < 0.75:
        return {rnd.choice(KEYS[:-1] if rnd.random() < .9 else KEYS): value(rnd, d - 1) for _ in range(rnd.randint(0, 4))}
    return [value(rnd, d - 1) for _ in range(rnd.randint(0, 3))]


def lit(v):
    """JSON text; numbers as they are spelled."""
    import json
    if isinstance(v, Num):
        return str.__str__(v)
    if isinstance(v, dict):
        return "{" + ",".join(json.dumps(k) + ":" + lit(x) for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ",".join(lit(x) for x in v) + "]"
    return json.dumps(v)


class Raw(str):
    pass


# ---- expressions -----------------------------------------------------------
def jpkey(k):
    return "." + k.replace(".", "\\.") if all(c.isalnum() or c in "-_./" for c in k) else "['%s']" % k


def ptr(ks):
    return "".join("/" + k.replace("~", "~0").replace("/", "~1") for k in ks)


def jp(ks):
    return "{" + "".join(jpkey(k) for k in ks) + "}"


def tm(ks):
    return "." + ".".join(ks)


def expressions(rnd, custom):
    """name -> (text, tree); every object has labels and annotations, custom ones a spec with
    name, tier, num, flag, big and the lists items (of maps) and tags (of strings)."""
    meta = [["metadata", "name"], ["metadata", "resourceVersion"], ["metadata", "labels", "app"], ["metadata", "labels", "none"],
            ["metadata", "annotations", "example.com/owner"], ["metadata", "none", "deep"], ["kind"], ["apiVersion"], ["metadata", "namespace"]]
    if custom:
        meta += [["spec", "name"], ["spec", "num"], ["spec", "flag"], ["spec", "tier"], ["spec", "big"], ["status", "phase"]]
    flat = [k for k in meta if all(c.isalnum() for x in k for c in x)]
    have = [["metadata", "name"], ["metadata", "resourceVersion"], ["metadata", "labels", "app"], ["kind"]]
    out = {}

    rangey = custom and rnd.random() < 0.5

    def one():
        x = rnd.random()
        if rangey and rnd.random() < 0.6:
            f = rnd.choice(["name", "port"])
            return "{range .spec.items[*]}{.%s};{end}" % f, ["jp", [["r", "/spec/items", [["p", "/" + f], ["t", ";"]]]]]
        if x < 0.12:
            s = rnd.choice(["fixed", "a b", "x:y", "", "v1.2"])
            return s, ["lit", s]
        if x < 0.16:
            return rnd.choice(["{{/* nothing */}}", '{{ define "x" }}never{{ end }}', "{{ .metadata.name", "{{ if .kind }}x", "{{ nosuchfunction .kind }}"]), ["tm", []]
        if x < 0.55:
            parts, text = [], ""
            for _ in range(rnd.choice([1, 1, 1, 2, 3])):
                if rnd.random() < 0.25:
                    s = rnd.choice(["-", "/", "pre ", " and "])
                    parts.append(["t", s]); text += s
                ks = rnd.choice(meta)
                parts.append(["p", ptr(ks)]); text += jp(ks)
            y = rnd.random()
            if custom and y < 0.3:
                f = rnd.choice(["name", "port", "none"])
                parts.append(["s", "/spec/items", "/" + f]); text += "{.spec.items[*].%s}" % f
            elif custom and y < 0.6:
                parts.append(["r", "/spec/items", [["p", "/name"], ["t", ":"], ["p", "/port"], ["t", ","]]])
                text += "{range .spec.items[*]}{.name}:{.port},{end}"
            elif custom and y < 0.7:
                parts.append(["s", "/spec/tags", ""]); text += "{.spec.tags[*]}"
            return text, ["jp", parts]
        parts, text = [], ""
        for _ in range(rnd.choice([1, 1, 2, 3])):
            y = rnd.random()
            if y < 0.15:
                s = rnd.choice(["-", "/", "pre ", "(}"])
                parts.append(["t", s]); text += s
            if y < 0.35:
                ks = rnd.choice(have)
                parts.append(["f", ptr(ks)]); text += "{{ %s }}" % tm(ks)
            elif y < 0.45:
                parts.append(["f", "/metadata/labels/none"]); text += "{{ .metadata.labels.none }}"
            elif y < 0.6:
                ks = rnd.choice([["metadata", "labels", "none"], ["metadata", "labels", "app"], ["metadata", "generateName"]])
                parts.append(["d", "dflt", ptr(ks)]); text += '{{ default "dflt" %s }}' % tm(ks)
            elif y < 0.7:
                parts.append(["q", "/metadata/labels/plain"]); text += "{{ quote .metadata.labels.plain }}"
            elif y < 0.8:
                parts.append(["j", "_", ["/metadata/name", "/metadata/labels/plain"]]); text += '{{ join "_" .metadata.name .metadata.labels.plain }}'
            elif y < 0.9 or not custom:
                ks = rnd.choice([["metadata", "labels", "none"], ["metadata", "labels", "app"], ["metadata", "namespace"]])
                parts.append(["i", ptr(ks), [["t", "yes"]], [["t", "no"]]]); text += "{{ if %s }}yes{{ else }}no{{ end }}" % tm(ks)
            else:
                parts.append(["r", "/spec/items", [["f", "/name"], ["t", ";"]]]); text += "{{ range .spec.items }}{{ .name }};{{ end }}"
        if "{{" not in text:
            parts.append(["f", "/kind"]); text += "{{ .kind }}"
        return text, ["tm", parts]
    for k in rnd.sample(["a", "b", "c", "owner", "x_y", "items", "labels", "phase", "tags"], rnd.randint(1, 6)):
        t, x = one()
        out[k] = {"text": t, "x": x}
    if rnd.random() < 0.6:
        out["name"] = {"text": "{.metadata.name}", "x": ["jp", [["p", "/metadata/name"]]]}
        out["namespace"] = {"text": "{.metadata.namespace}", "x": ["jp", [["p", "/metadata/namespace"]]]}
    return out


def custom_body(rnd):
    b = {rnd.choice([k for k in KEYS[1:] if k != "Kind"]): value(rnd, 3) for _ in range(rnd.randint(0, 4))}
    b.pop("status", None)
    if rnd.random() < 0.7:
        b["status"] = {"phase": rnd.choice(["Running", "Failed", "1"])} if rnd.random() < .8 else {}
    spec = {"name": rnd.choice(["n1", "n 2", "\u00e9"]), "tier": rnd.choice(["t1", "t2"]), "num": Num(rnd.choice(["1", "0", "-7", "80", "999999"])),
            "big": Num(rnd.choice(["1000000", "1700000000", "4294967296", "9007199254740993", "12"])),
            "flag": rnd.choice([True, False]),
            "items": [{"name": rnd.choice(["i1", "i2", "i3"]), "port": Num(str(rnd.choice([80, 443, 8080])))} for _ in range(rnd.randint(0, 3))],
            "tags": [rnd.choice(["x", "y", "zz"]) for _ in range(rnd.randint(0, 3))],
            "free": value(rnd, 4)}
    for k in ("name", "tier", "num", "flag", "big"):
        if rnd.random() < 0.15:
            del spec[k]
    b["spec"] = spec
    return b


def meta(rnd, custom):
    m = {"labels": {"app": rnd.choice(["web", "db", "a-b"]), "plain": rnd.choice(["p1", "p2"])}, "annotations": {"example.com/owner": rnd.choice(["me", "y o u", "x:y"])}}
    if rnd.random() < 0.4:
        m["annotations"]["kubectl.kubernetes.io/last-applied-configuration"] = '{"a":1,"b":"<x>"}\n'
    if custom:
        if rnd.random() < 0.3:
            m["generation"] = 3
        if rnd.random() < 0.7:
            m["creationTimestamp"] = "2023-04-05T06:07:08Z"
        if rnd.random() < 0.2:
            m["deletionTimestamp"] = "2023-04-05T06:07:09Z"
            m["deletionGracePeriodSeconds"] = 30
        if rnd.random() < 0.3:
            m["ownerReferences"] = [{"apiVersion": "v1", "kind": "K", "name": "o", "uid": "u", "controller": True, "blockOwnerDeletion": False}]
        if rnd.random() < 0.3:
            m["finalizers"] = ["f/one", "two"]
        if rnd.random() < 0.3:
            m["managedFields"] = [{"manager": "kubectl", "operation": "Update", "apiVersion": "v1", "time": "2023-04-05T06:07:08Z", "fieldsType": "FieldsV1", "fieldsV1": {"f:spec": {".": {}, "f:x": {}}}}]
        if rnd.random() < 0.1:
            del m["annotations"]
    return m


def scenario(rnd, steps):
    clusters = rnd.choice([["c1", "c2"], ["default", "c-2"], ["only"]])
    types = {}
    custom, builtin = rnd.sample(CUSTOM, 3), rnd.sample(BUILTIN, 3)
    if rnd.random() < 0.3:
        r, g = rnd.choice(TWICE)
        custom += [x for x in CUSTOM if (x[2], x[0]) == (r, g) and x not in custom]
        builtin += [x for x in BUILTIN if (x[2], x[0]) == (r, g) and x not in builtin]
    for g, v, r, k, ns in custom:
        types[r + "." + g + "/" + v] = {"G": g, "V": v, "R": r, "Kind": k, "ListKind": k + "List", "Builtin": False, "Namespaced": ns, "Index": expressions(rnd, True)}
    for g, v, r, k, ns in builtin:
        types[r + "." + g + "/" + v] = {"G": g, "V": v, "R": r, "Kind": k, "ListKind": k + "List", "Builtin": True, "Namespaced": ns, "Index": expressions(rnd, False)}
    out = []
    ids = []
    for _ in range(steps):
        t = rnd.choice(sorted(types))
        ty = types[t]
        c = rnd.choice(clusters)
        x = rnd.random()
        if x < 0.5 or not ids:
            ns = rnd.choice(["default", "ns-1"]) if ty["Namespaced"] else ""
            s = {"op": "put", "t": t, "c": c, "ns": ns, "n": rnd.choice(["one", "two-2", "three.3"]), "meta": meta(rnd, not ty["Builtin"])}
            if ty["Builtin"]:
                s["fill"] = rnd.randint(1, 10 ** 9)
            else:
                s["body"] = custom_body(rnd)
                if rnd.random() < 0.12 and not any("range .spec" in x["text"] for x in ty["Index"].values()):
                    s["body"] = {}
            ids.append((t, c, ns, s["n"]))
            out.append(s)
            if rnd.random() < 0.6:
                out.append({"op": "get", "t": t, "c": c, "ns": ns, "n": s["n"]})
            if rnd.random() < 0.5:
                out.append({"op": "search", "t": t, "c": clusters[0], "ns": "", "n": "", "key": rnd.choice(sorted(ty["Index"]))})
        elif x < 0.6:
            t, c, ns, n = rnd.choice(ids)
            s = {"op": "del", "t": t, "c": c, "ns": ns, "n": n, "meta": meta(rnd, not types[t]["Builtin"])}
            if types[t]["Builtin"]:
                s["fill"] = rnd.randint(1, 10 ** 9)
            else:
                s["body"] = custom_body(rnd)
            out.append(s)
        elif x < 0.8:
            t, c, ns, n = rnd.choice(ids)
            out.append({"op": "get", "t": t, "c": rnd.choice([c, clusters[0]]), "ns": ns, "n": n})
        else:
            out.append({"op": "list", "t": t, "c": c, "ns": rnd.choice(["", "default"]) if ty["Namespaced"] else "", "n": ""})
    return {"deflt": clusters[0], "clusters": clusters, "types": types, "steps": out}


def write(path, seed, n, steps):
    rnd = random.Random(seed * 15485863 + 17)
    import json
    with open(path, "w") as f:
        for _ in range(n):
            sc = scenario(rnd, steps)
            for s in sc["steps"]:
                if "body" in s:
                    s["body"] = "@@" + lit(s["body"]) + "@@"
            # numbers must reach the driver as they are spelled
            t = json.dumps(sc)
            out, i = "", 0
            while True:
                j = t.find('"@@', i)
                if j < 0:
                    f.write(out + t[i:] + "\n")
                    break
                k = t.find('@@"', j + 3)
                out += t[i:j] + json.loads(t[j:k + 3])[2:-2]
                i = k + 3
