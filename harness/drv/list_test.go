package drv

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/gorilla/mux"
	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/kubernetes"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/common/constants"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/server"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/watcher"
)

func init() { modes["list"] = driveList }

// objDef is an object as the specification sees it.
type objDef struct {
	C      string            `json:"c"`
	NS     string            `json:"ns"`
	N      string            `json:"n"`
	V      int               `json:"v"`
	Labels map[string]string `json:"labels"`
	Annos  map[string]string `json:"annos"`
	Del    bool              `json:"del"`
}

func (d objDef) meta() metav1.ObjectMeta {
	om := metav1.ObjectMeta{Namespace: d.NS, Name: d.N, ResourceVersion: fmt.Sprint(d.V), UID: types.UID(fmt.Sprintf("uid-%d", d.V))}
	if len(d.Labels) > 0 {
		om.Labels = map[string]string{}
		for k, v := range d.Labels {
			om.Labels[k] = v
		}
	}
	if len(d.Annos) > 0 {
		om.Annotations = map[string]string{}
		for k, v := range d.Annos {
			om.Annotations[k] = v
		}
	}
	if d.Del {
		t := metav1.NewTime(time.Unix(1700000000, 0))
		om.DeletionTimestamp = &t
	}
	return om
}

func (d objDef) build(typ string) interface{} {
	ti := typeTable[typ]
	tm := metav1.TypeMeta{Kind: ti.kind, APIVersion: ti.apiVersion()}
	om := d.meta()
	switch typ {
	case "pods":
		return &corev1.Pod{TypeMeta: tm, ObjectMeta: om}
	case "nodes":
		return &corev1.Node{TypeMeta: tm, ObjectMeta: om}
	case "services":
		return &corev1.Service{TypeMeta: tm, ObjectMeta: om}
	case "deployments":
		return &appsv1.Deployment{TypeMeta: tm, ObjectMeta: om}
	}
	return &watcher.ObjType{TypeMeta: tm, ObjectMeta: om, Data: map[string]interface{}{}}
}

// indexExpr renders the source of an index value as configured expression.
func indexExpr(src []string) string {
	switch src[0] {
	case "name":
		return "{.metadata.name}"
	case "ns":
		return "{.metadata.namespace}"
	case "label":
		return "{.metadata.labels." + src[1] + "}"
	case "anno":
		return "{.metadata.annotations." + src[1] + "}"
	case "dflt":
		return `{{ default "` + src[2] + `" .metadata.labels.` + src[1] + ` }}`
	case "quote":
		return `{{ quote .metadata.labels.` + src[1] + ` }}`
	}
	return src[1]
}

type reqDef struct {
	Key  string   `json:"key"`
	Op   string   `json:"op"`
	Vals []string `json:"vals"`
}

func (r reqDef) render() string {
	switch r.Op {
	case "in":
		return r.Key + " in (" + strings.Join(r.Vals, ",") + ")"
	case "notin":
		return r.Key + " notin (" + strings.Join(r.Vals, ", ") + ")"
	case "eq":
		return r.Key + "=" + r.Vals[0]
	case "ne":
		return r.Key + "!=" + r.Vals[0]
	case "ex":
		return r.Key
	}
	return "!" + r.Key
}

func renderReqs(rs []reqDef) string {
	var s []string
	for _, r := range rs {
		s = append(s, r.render())
	}
	return strings.Join(s, ",")
}

type partDef struct {
	K     string   `json:"k"`
	Neg   bool     `json:"neg"`
	Key   string   `json:"key"`
	Val   string   `json:"val"`
	Exact bool     `json:"exact"`
	Reqs  []reqDef `json:"reqs"`
	Raw   string   `json:"raw"` // rendered form of a bad part, and blanks of others
}

func (p partDef) render() string {
	v := p.Val
	if p.Exact {
		v = `"` + v + `"`
	}
	if p.Neg {
		v = "!" + v
	}
	switch p.K {
	case "fuzzy":
		return p.Raw + v
	case "kv":
		return p.Raw + p.Key + "=" + v
	case "adv":
		return p.Raw + constants.AdvancedSearchPrefix + p.Raw + renderReqs(p.Reqs)
	}
	return p.Raw
}

func renderParts(ps []partDef) string {
	var s []string
	for i, p := range ps {
		x := p.render()
		if i > 0 && strings.HasPrefix(x, ";") {
			x = " " + x // otherwise taken for a part of the separator
		}
		s = append(s, strings.ReplaceAll(x, ";", ";;"))
	}
	return strings.Join(s, ";")
}

type sortDef struct {
	Key string `json:"key"`
	Typ string `json:"typ"`
	Dir string `json:"dir"`
	How int    `json:"how"` // spelling: bit 0 writes "!str", bit 1 writes " asc"
}

func renderSort(ss []sortDef) string {
	var r []string
	for _, s := range ss {
		x := s.Key
		if s.Typ == "int" {
			x += "!int"
		} else if s.How&1 != 0 {
			x += "!str"
		}
		if s.Dir == "desc" {
			x += " desc"
		} else if s.How&2 != 0 {
			x += " asc"
		}
		r = append(r, x)
	}
	sep := ","
	if len(ss) > 0 && ss[0].How&4 != 0 {
		sep = ", "
	}
	return strings.Join(r, sep)
}

type queryDef struct {
	T       string    `json:"t"`
	NS      string    `json:"ns"`
	Parts   []partDef `json:"parts"`
	Sel     []reqDef  `json:"sel"`
	Sort    []sortDef `json:"sort"`
	BadSort bool      `json:"badsort"`
	Page    int64     `json:"page"`
	Size    int64     `json:"size"`
	Calls   []struct {
		H string   `json:"h"`
		V []string `json:"v"`
	} `json:"calls"`
	Mark string `json:"mark"`
}

type listStep struct {
	Op      string            `json:"op"`
	T       string            `json:"t"`
	C       string            `json:"c"`
	NS      string            `json:"ns"`
	N       string            `json:"n"`
	O       json.RawMessage   `json:"o"`
	OS      []json.RawMessage `json:"os"`
	Q       json.RawMessage   `json:"q"`
	Grp     string            `json:"grp"`
	RawSort string            `json:"rawsort"`
	RPage   int64             `json:"rpage"` // what is really sent for a huge page or size
	RSize   int64             `json:"rsize"`
	Table   bool              `json:"table"`
	Eq      bool              `json:"eq"` // equality form of the embedded options
	Extra   string            `json:"extra"`
}

type listScenario struct {
	Deflt string                         `json:"deflt"`
	Types map[string]map[string][]string `json:"types"`
	Steps []listStep                     `json:"steps"`
}

// world is one configured server over one store.
type world struct {
	st      store.Store
	handler http.Handler
}

func newWorld(deflt, token string, types map[string]map[string][]string, clients map[string]kubernetes.Interface) *world {
	cfg := &common.Config{DefaultCluster: deflt, Token: token}
	ic := map[store.GroupVersionResource]map[string]string{}
	for t, conf := range types {
		ti := typeTable[t]
		idx := map[string]string{}
		for k, src := range conf {
			idx[k] = indexExpr(src)
		}
		ic[ti.gvr] = idx
		cfg.Proxies = append(cfg.Proxies, common.Proxy{Group: ti.gvr.Group, Version: ti.gvr.Version, Resource: ti.gvr.Resource, ListKind: ti.kind + "List", Index: idx})
	}
	common.InitConfig(cfg)
	w := &world{st: memory.NewMemoryStore(ic)}
	w.handler = muxOf(clients, w.st)
	return w
}

func muxOf(clients map[string]kubernetes.Interface, st store.Store) http.Handler {
	var h http.Handler
	server.NewMuxServer("127.0.0.1:0", clients, st, func(r *mux.Router) { h = r })
	return h
}

func typePath(t, ns, name string) string {
	ti := typeTable[t]
	p := "/api/" + ti.gvr.Version
	if ti.gvr.Group != "" {
		p = "/apis/" + ti.gvr.Group + "/" + ti.gvr.Version
	}
	if ns != "" {
		p += "/namespaces/" + ns
	}
	p += "/" + ti.gvr.Resource
	if name != "" {
		p += "/" + name
	}
	return p
}

// call sends one request; a panic that leaves the handler is reported as status 599.
func call(h http.Handler, method, target, accept string, body string) (st int, hdr http.Header, b []byte) {
	defer func() {
		if e := recover(); e != nil {
			st, b = 599, []byte(fmt.Sprint(e))
		}
	}()
	req := httptest.NewRequest(method, target, strings.NewReader(body))
	if accept != "" {
		req.Header.Set("Accept", accept)
	}
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, req)
	return rec.Code, rec.Header(), rec.Body.Bytes()
}

func itemID(m metav1.Object) L {
	v, err := strconv.Atoi(m.GetResourceVersion())
	if err != nil {
		v = -1
	}
	return L{m.GetAnnotations()[constants.DSMClusterAnno], m.GetNamespace(), m.GetName(), v}
}

// decodeList reads a list the way a typed client does.
func decodeList(typ string, b []byte) (metav1.ListInterface, L, error) {
	items := L{}
	var l metav1.ListInterface
	switch typ {
	case "pods":
		x := &corev1.PodList{}
		if err := json.Unmarshal(b, x); err != nil {
			return nil, nil, err
		}
		for i := range x.Items {
			items = append(items, itemID(&x.Items[i]))
		}
		l = x
	case "services":
		x := &corev1.ServiceList{}
		if err := json.Unmarshal(b, x); err != nil {
			return nil, nil, err
		}
		for i := range x.Items {
			items = append(items, itemID(&x.Items[i]))
		}
		l = x
	case "nodes":
		x := &corev1.NodeList{}
		if err := json.Unmarshal(b, x); err != nil {
			return nil, nil, err
		}
		for i := range x.Items {
			items = append(items, itemID(&x.Items[i]))
		}
		l = x
	case "deployments":
		x := &appsv1.DeploymentList{}
		if err := json.Unmarshal(b, x); err != nil {
			return nil, nil, err
		}
		for i := range x.Items {
			items = append(items, itemID(&x.Items[i]))
		}
		l = x
	default:
		x := &unstructured.UnstructuredList{}
		if err := x.UnmarshalJSON(b); err != nil {
			return nil, nil, err
		}
		for i := range x.Items {
			items = append(items, itemID(&x.Items[i]))
		}
		l = x
	}
	return l, items, nil
}

func (w *world) request(s listStep) M {
	var q queryDef
	must(s.Q, &q)
	p := page.Paginate{Page: q.Page, PageSize: q.Size, Sort: renderSort(q.Sort), Search: renderParts(q.Parts)}
	if s.RawSort != "" {
		p.Sort = s.RawSort
	}
	if s.RPage != 0 {
		p.Page = s.RPage
	}
	if s.RSize != 0 {
		p.PageSize = s.RSize
	}
	ev := M{"ev": "list", "q": s.Q, "grp": s.Grp}
	if s.Table {
		ev["ev"] = "table"
	}
	client := func(err error) M {
		ev["st"], ev["err"] = 400, "client: "+err.Error()
		return ev
	}
	for _, c := range q.Calls {
		var err error
		if c.H == "ns" {
			err = p.Namespaces(c.V)
		} else {
			err = p.Clusters(c.V)
		}
		if err != nil {
			return client(err)
		}
	}
	lo, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: renderReqs(q.Sel)}, p)
	if err != nil {
		return client(err)
	}
	ls := lo.LabelSelector
	if s.Eq { // the form sent to real api servers by older clients
		ls = strings.Replace(ls, constants.PaginateKey+" notin (", constants.PaginateKey+"=", 1)
		if i := strings.Index(ls, ")"); i > 0 {
			ls = ls[:i] + ls[i+1:]
		}
	}
	vals := url.Values{}
	if ls != "" {
		vals.Set("labelSelector", ls)
	}
	if q.Mark != "" {
		g, err := page.QueryGetOptions(metav1.GetOptions{}, q.Mark)
		if err != nil {
			return client(err)
		}
		vals.Set("resourceVersion", g.ResourceVersion)
	}
	target := typePath(q.T, q.NS, "")
	qs := vals.Encode()
	if s.Extra != "" {
		if qs != "" {
			qs += "&"
		}
		qs += s.Extra
	}
	if qs != "" {
		target += "?" + qs
	}
	accept := "application/json"
	if s.Table {
		accept = "application/json;as=Table;v=v1;g=meta.k8s.io,application/json"
	}
	st, _, b := call(w.handler, "GET", target, accept, "")
	ev["st"] = st
	if st != 200 {
		ev["err"] = string(b)
		if len(b) > 300 {
			ev["err"] = string(b[:300])
		}
		return ev
	}
	raw := map[string]json.RawMessage{}
	if err := json.Unmarshal(b, &raw); err != nil {
		ev["st"], ev["err"] = 598, err.Error()
		return ev
	}
	kind := ""
	_ = json.Unmarshal(raw["kind"], &kind)
	version := ""
	if _ = json.Unmarshal(raw["apiVersion"], &version); !s.Table && version != typeTable[q.T].apiVersion() {
		kind += " of " + version
	}
	ev["kind"] = kind
	if s.Table {
		tb := metav1.Table{}
		if err := json.Unmarshal(b, &tb); err != nil {
			ev["st"], ev["err"] = 598, err.Error()
			return ev
		}
		cols := L{}
		for _, c := range tb.ColumnDefinitions {
			cols = append(cols, c.Name)
		}
		rows := L{}
		for _, r := range tb.Rows {
			row := L{}
			for _, c := range r.Cells {
				if cs, ok := c.(string); ok {
					row = append(row, cs)
				} else {
					row = append(row, "\u0000"+fmt.Sprint(c))
				}
			}
			rows = append(rows, row)
		}
		ev["cols"], ev["rows"] = cols, rows
		return ev
	}
	if len(raw["items"]) == 0 || raw["items"][0] != '[' {
		ev["st"], ev["err"] = 598, "items is not an array"
		return ev
	}
	l, items, err := decodeList(q.T, b)
	if err != nil {
		ev["st"], ev["err"] = 598, err.Error()
		return ev
	}
	ev["items"] = items
	ev["remain"] = int64(0)
	if r := l.GetRemainingItemCount(); r != nil {
		ev["remain"] = *r
	}
	ev["total"] = page.MakeupResPaginate(l, p).Total
	return ev
}

func (w *world) get(s listStep) M {
	ev := M{"ev": "get", "t": s.T, "c": s.C, "ns": s.NS, "n": s.N}
	target := typePath(s.T, s.NS, s.N)
	vals := url.Values{}
	if s.C != "" {
		o, err := page.QueryGetOptions(metav1.GetOptions{}, s.C)
		if err != nil {
			ev["st"] = 400
			return ev
		}
		vals.Set("resourceVersion", o.ResourceVersion)
		target += "?" + vals.Encode()
	}
	st, _, b := call(w.handler, "GET", target, "application/json", "")
	ev["st"] = st
	if st == 200 {
		u := struct {
			metav1.ObjectMeta `json:"metadata"`
		}{}
		if err := json.Unmarshal(b, &u); err != nil {
			ev["st"] = 598
			return ev
		}
		ev["item"] = itemID(&u)
	}
	return ev
}

func (w *world) apply(op, t, c string, d objDef) {
	gvr := typeTable[t].gvr
	switch op {
	case "put":
		_ = w.st.OnResourceAdded(gvr, d.C, d.build(t))
	case "mod":
		_ = w.st.OnResourceModified(gvr, d.C, d.build(t))
	case "del":
		_ = w.st.OnResourceDeleted(gvr, d.C, d.build(t))
	case "clear":
		_ = w.st.Clean(gvr, c)
	}
}

func driveList(t *testing.T, in []json.RawMessage, out *Out) {
	for _, raw := range in {
		var sc listScenario
		must(raw, &sc)
		w := newWorld(sc.Deflt, "", sc.Types, nil)
		kinds := M{}
		for ty := range sc.Types {
			kinds[ty] = typeTable[ty].kind + "List"
		}
		out.Emit(M{"ev": "reset", "cfg": M{"deflt": sc.Deflt, "conf": sc.Types, "kinds": kinds}})
		for _, s := range sc.Steps {
			switch s.Op {
			case "put", "mod", "del":
				var d objDef
				must(s.O, &d)
				w.apply(s.Op, s.T, "", d)
				ev := "put"
				if s.Op == "del" {
					ev = "del"
				}
				out.Emit(M{"ev": ev, "t": s.T, "o": s.O})
			case "fill":
				for _, o := range s.OS {
					var d objDef
					must(o, &d)
					w.apply("put", s.T, "", d)
				}
				out.Emit(M{"ev": "fill", "t": s.T, "os": s.OS})
			case "clear":
				w.apply("clear", s.T, s.C, objDef{})
				out.Emit(M{"ev": "clear", "t": s.T, "c": s.C})
			case "get":
				out.Emit(w.get(s))
			case "wrap":
				out.Emit(wrap(s))
			default:
				out.Emit(w.request(s))
			}
		}
	}
}

// wrap addresses a cluster with one of the option wrappers of package page.
func wrap(s listStep) M {
	ev := M{"ev": "wrap", "kind": s.T, "cluster": s.C, "set": s.Grp == "set"}
	c := s.C
	mine := ""
	if s.Grp == "set" {
		mine = s.N
	}
	t := int64(7)
	fm := func(r interface{}, marker *string, before string, err error) {
		ev["err"] = err != nil
		ev["marker"] = *marker
		*marker = ""
		ev["before"], ev["after"] = before, toJSON(r)
	}
	switch s.T {
	case "get":
		o := metav1.GetOptions{}
		b := toJSON(o)
		o.ResourceVersion = mine
		r, err := page.QueryGetOptions(o, c)
		fm(&r, &r.ResourceVersion, b, err)
	case "create":
		o := metav1.CreateOptions{DryRun: []string{"All"}}
		b := toJSON(o)
		o.FieldManager = mine
		r, err := page.QueryCreateOptions(o, c)
		fm(&r, &r.FieldManager, b, err)
	case "update":
		o := metav1.UpdateOptions{DryRun: []string{"All"}}
		b := toJSON(o)
		o.FieldManager = mine
		r, err := page.QueryUpdateOptions(o, c)
		fm(&r, &r.FieldManager, b, err)
	case "patch":
		f := true
		o := metav1.PatchOptions{Force: &f}
		b := toJSON(o)
		o.FieldManager = mine
		r, err := page.QueryPatchOptions(o, c)
		fm(&r, &r.FieldManager, b, err)
	case "delete":
		o := metav1.DeleteOptions{GracePeriodSeconds: &t}
		b := toJSON(o)
		if mine != "" {
			o.DryRun = []string{mine}
		}
		r, err := page.QueryDeleteOptions(o, c)
		marker := strings.Join(r.DryRun, ",")
		r.DryRun = nil
		fm(&r, &marker, b, err)
	}
	return ev
}
