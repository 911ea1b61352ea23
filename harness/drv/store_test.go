package drv

import (
	"encoding/json"
	"sort"
	"testing"

	"github.com/prometheus/client_golang/prometheus"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/utils/prommonitor"
)

func init() { modes["store"] = driveStore }

type storeOp struct {
	Op  string    `json:"op"`
	K   [4]string `json:"k"`
	V   int       `json:"v"`
	Lab string    `json:"lab"`
	T   string    `json:"t"`
	C   string    `json:"c"`
}

var storeTypes = []string{"pods", "deployments", "nodes", "widgets"}

func gaugeDump(typs []string) L {
	byRes := map[store.GroupVersionResource]string{}
	for _, t := range typs {
		byRes[typeTable[t].gvr] = t
	}
	res := L{}
	mfs, _ := prometheus.DefaultGatherer.Gather()
	for _, mf := range mfs {
		if mf.GetName() != "ckube_resources_total" {
			continue
		}
		for _, m := range mf.GetMetric() {
			lv := map[string]string{}
			for _, lp := range m.GetLabel() {
				lv[lp.GetName()] = lp.GetValue()
			}
			if v := m.GetGauge().GetValue(); v != 0 {
				res = append(res, L{byRes[store.GroupVersionResource{Group: lv["group"], Version: lv["version"], Resource: lv["resource"]}], lv["cluster"], lv["namespace"], int(v)})
			}
		}
	}
	return res
}

// driveStore replays histories printed by the specification on the real store
// and records, after every operation, everything that can be read.
func driveStore(t *testing.T, in []json.RawMessage, out *Out) {
	defer func() { objStyle = 0 }()
	for i, raw := range in {
		var ops []storeOp
		must(raw, &ops)
		_, ic := proxiesFor(storeTypes, stdIndex)
		st := memory.NewMemoryStore(ic)
		objStyle = i % objStyles
		prommonitor.Resources.Reset()
		keys := map[[4]string]bool{}
		for _, o := range ops {
			if o.Op != "clean" {
				keys[o.K] = true
				// the same identity elsewhere must stay what it was
				for _, c := range []string{"default", "c2", "admin@c-3"} {
					keys[[4]string{o.K[0], c, o.K[2], o.K[3]}] = true
				}
			}
		}
		var ks [][4]string
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return toJSON(ks[i]) < toJSON(ks[j]) })
		out.Emit(M{"ev": "reset", "n": i})
		for _, o := range ops {
			failed := ""
			func() {
				defer func() {
					if r := recover(); r != nil {
						failed = "panic"
					}
				}()
				switch o.Op {
				case "add":
					_ = st.OnResourceAdded(typeTable[o.K[0]].gvr, o.K[1], verObj(o.K[0], o.K[2], o.K[3], o.V, o.Lab))
				case "mod":
					_ = st.OnResourceModified(typeTable[o.K[0]].gvr, o.K[1], verObj(o.K[0], o.K[2], o.K[3], o.V, o.Lab))
				case "del":
					_ = st.OnResourceDeleted(typeTable[o.K[0]].gvr, o.K[1], verObj(o.K[0], o.K[2], o.K[3], o.V, o.Lab))
				case "clean":
					_ = st.Clean(typeTable[o.T].gvr, o.C)
				}
			}()
			list, get := L{}, L{}
			find := map[string]L{"p": {}, "q": {}}
			for _, typ := range storeTypes {
				gvr := typeTable[typ].gvr
				for _, it := range st.Query(gvr, store.Query{}).Items {
					c := clusterOf(it)
					v, lab, ns, name := versionOf(it, c)
					list = append(list, L{typ, c, ns, name, v, lab})
				}
				for lab := range find {
					for _, it := range st.Query(gvr, store.Query{Paginate: page.Paginate{Search: `lab="` + lab + `"`}}).Items {
						_, _, ns, name := versionOf(it, "")
						find[lab] = append(find[lab], L{typ, clusterOf(it), ns, name})
					}
				}
			}
			for _, k := range ks {
				if it := st.Get(typeTable[k[0]].gvr, k[1], k[2], k[3]); it != nil {
					v, lab, ns, name := versionOf(it, k[1])
					if ns != k[2] || name != k[3] {
						v = -4
					}
					get = append(get, L{k[0], k[1], k[2], k[3], v, lab})
				}
			}
			ev := M{"ev": "op", "o": o, "list": list, "get": get, "gauge": gaugeDump(storeTypes),
				"find": L{M{"lab": "p", "items": find["p"]}, M{"lab": "q", "items": find["q"]}}}
			if failed != "" {
				ev["ev"] = failed
			}
			out.Emit(ev)
		}
	}
}
