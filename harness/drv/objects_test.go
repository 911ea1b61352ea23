package drv

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/util/intstr"
	"k8s.io/client-go/kubernetes/scheme"
	"k8s.io/client-go/rest"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/common/constants"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/watcher"
)

func init() { modes["objects"] = driveObjects }

type objType struct {
	G, V, R, Kind string
	ListKind      string
	Builtin       bool
	Namespaced    bool
	Index         map[string]struct {
		Text string      `json:"text"`
		X    interface{} `json:"x"`
	}
}

func (o objType) apiv() string {
	if o.G == "" {
		return o.V
	}
	return o.G + "/" + o.V
}

func (o objType) path(ns, n string) string {
	p := "/api/" + o.V
	if o.G != "" {
		p = "/apis/" + o.G + "/" + o.V
	}
	if ns != "" {
		p += "/namespaces/" + ns
	}
	p += "/" + o.R
	if n != "" {
		p += "/" + n
	}
	return p
}

type objStep struct {
	Op   string                 `json:"op"`
	T    string                 `json:"t"`
	C    string                 `json:"c"`
	NS   string                 `json:"ns"`
	N    string                 `json:"n"`
	Body json.RawMessage        `json:"body"` // a custom object, without its identity
	Meta map[string]interface{} `json:"meta"` // more metadata
	Fill int64                  `json:"fill"` // a built-in object filled at random
	Key  string                 `json:"key"`
}

type objScenario struct {
	Deflt    string             `json:"deflt"`
	Clusters []string           `json:"clusters"`
	Types    map[string]objType `json:"types"`
	Steps    []objStep          `json:"steps"`
}

// leaves flattens JSON: [pointer, type, text] of every scalar and empty container.
func leaves(b []byte) (L, interface{}) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return L{L{"?", "s", err.Error()}}, nil
	}
	out := L{}
	flat("", v, &out)
	return out, v
}

func flat(p string, v interface{}, out *L) {
	add := func(t, s string) { *out = append(*out, L{p, t, s}) }
	switch x := v.(type) {
	case nil:
		add("0", "")
	case bool:
		add("b", fmt.Sprint(x))
	case json.Number:
		add("n", x.String())
	case string:
		add("s", x)
	case []interface{}:
		if len(x) == 0 {
			add("l", "")
		}
		for i, e := range x {
			flat(fmt.Sprintf("%s/%d", p, i), e, out)
		}
	case map[string]interface{}:
		if len(x) == 0 {
			add("m", "")
		}
		for k, e := range x {
			flat(p+"/"+strings.ReplaceAll(strings.ReplaceAll(k, "~", "~0"), "/", "~1"), e, out)
		}
	}
}

// filler fills the fields of a Go struct at random.
type filler struct {
	*rand.Rand
	p float64
}

var fillStrings = []string{"a", "web-1", "x.y/z", "", "héllo ✓", "tab\tnl\n", `q"uote\`, "<b>&", "10.0.0.1", "true", "7", "2020-01-01T00:00:00Z", "a b", "}{"}

func (f filler) str() string { return fillStrings[f.Intn(len(fillStrings))] }

func (f filler) fill(v reflect.Value, depth int) {
	switch v.Interface().(type) {
	case metav1.Time:
		v.Set(reflect.ValueOf(metav1.Unix(1600000000+f.Int63n(1000000), 0)))
		return
	case metav1.MicroTime:
		v.Set(reflect.ValueOf(metav1.NewMicroTime(time.Unix(1600000000+f.Int63n(1000000), 1000*f.Int63n(1000000)))))
		return
	case metav1.Duration:
		v.Set(reflect.ValueOf(metav1.Duration{Duration: time.Duration(f.Intn(100000)) * time.Second}))
		return
	case resource.Quantity:
		v.Set(reflect.ValueOf(resource.MustParse([]string{"250m", "1Gi", "5", "0", "1500m", "128Mi", "1e3", "0.5", "1000000000000"}[f.Intn(9)])))
		return
	case intstr.IntOrString:
		x := intstr.FromInt(f.Intn(70000))
		if f.Intn(2) == 0 {
			x = intstr.FromString([]string{"http", "25%", "80"}[f.Intn(3)])
		}
		v.Set(reflect.ValueOf(x))
		return
	case runtime.RawExtension:
		v.Set(reflect.ValueOf(runtime.RawExtension{Raw: []byte(`{"apiVersion":"x/v1","kind":"K","spec":{"n":12345678901234567,"f":1.50}}`)}))
		return
	case metav1.FieldsV1:
		v.Set(reflect.ValueOf(metav1.FieldsV1{Raw: []byte(`{"f:metadata":{"f:labels":{".":{},"f:app":{}}}}`)}))
		return
	}
	some := func() bool { return f.Float64() < f.p/(1+float64(depth)/6) }
	switch v.Kind() {
	case reflect.String:
		v.SetString(f.str())
	case reflect.Bool:
		v.SetBool(f.Intn(2) == 0)
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Int16, reflect.Int8:
		n := []int64{0, 1, -1, 80, 65535, 2147483647}[f.Intn(6)]
		if v.Kind() == reflect.Int64 && f.Intn(3) == 0 {
			n = 9007199254740993
		}
		if v.OverflowInt(n) {
			n = 3
		}
		v.SetInt(n)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		v.SetUint(uint64(f.Intn(200)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(1.5)
	case reflect.Ptr:
		if some() {
			v.Set(reflect.New(v.Type().Elem()))
			f.fill(v.Elem(), depth+1)
		}
	case reflect.Slice:
		if some() {
			n := 1 + f.Intn(2)
			s := reflect.MakeSlice(v.Type(), n, n)
			for i := 0; i < n; i++ {
				f.fill(s.Index(i), depth+1)
			}
			v.Set(s)
		}
	case reflect.Map:
		if some() {
			m := reflect.MakeMap(v.Type())
			for i := 1 + f.Intn(2); i > 0; i-- {
				k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
				k.SetString([]string{"app", "k8s.io/x", "a.b", "_u"}[f.Intn(4)])
				f.fill(e, depth+1)
				m.SetMapIndex(k, e)
			}
			v.Set(m)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() && (depth < 3 || f.Float64() < 0.75) {
				f.fill(v.Field(i), depth+1)
			}
		}
	}
}

// reported renders the object of a step as an API server would.
func (s objStep) reported(ty objType, ver int) []byte {
	if !ty.Builtin {
		m := map[string]json.RawMessage{}
		if len(s.Body) > 0 {
			must(s.Body, &m)
		}
		meta := map[string]interface{}{}
		for k, v := range s.Meta {
			meta[k] = v
		}
		meta["name"], meta["resourceVersion"], meta["uid"] = s.N, fmt.Sprint(ver), fmt.Sprintf("uid-%d", ver)
		if s.NS != "" {
			meta["namespace"] = s.NS
		}
		m["metadata"], m["kind"], m["apiVersion"] = json.RawMessage(toJSON(meta)), json.RawMessage(toJSON(ty.Kind)), json.RawMessage(toJSON(ty.apiv()))
		b, err := json.Marshal(m)
		if err != nil {
			panic(err)
		}
		return b
	}
	gvk := schema.GroupVersionKind{Group: ty.G, Version: ty.V, Kind: ty.Kind}
	o, err := scheme.Scheme.New(gvk)
	if err != nil {
		panic(err)
	}
	f := filler{rand.New(rand.NewSource(s.Fill)), 0.75}
	f.fill(reflect.ValueOf(o).Elem(), 0)
	o.GetObjectKind().SetGroupVersionKind(gvk)
	mo := o.(metav1.Object)
	mo.SetName(s.N)
	mo.SetNamespace(s.NS)
	mo.SetResourceVersion(fmt.Sprint(ver))
	mo.SetUID("uid")
	if f.Intn(4) != 0 {
		mo.SetDeletionTimestamp(nil)
	}
	if l, ok := s.Meta["labels"]; ok {
		ls := map[string]string{}
		for k, v := range l.(map[string]interface{}) {
			ls[k] = v.(string)
		}
		mo.SetLabels(ls)
	}
	if a, ok := s.Meta["annotations"]; ok {
		as := map[string]string{}
		for k, v := range a.(map[string]interface{}) {
			as[k] = v.(string)
		}
		mo.SetAnnotations(as)
	}
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	return b
}

// objUp serves the watch of every type and cluster: one endless stream each.
type objUp struct {
	mu      sync.Mutex
	streams map[string]*io.PipeWriter
}

type objRT struct {
	u *objUp
	c string
}

func (t objRT) RoundTrip(req *http.Request) (*http.Response, error) {
	pr, pw := io.Pipe()
	t.u.mu.Lock()
	t.u.streams[t.c+" "+req.URL.Path] = pw
	t.u.mu.Unlock()
	context.AfterFunc(req.Context(), func() { pr.CloseWithError(req.Context().Err()) })
	return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Request: req, Body: pr}, nil
}

func driveObjects(t *testing.T, in []json.RawMessage, out *Out) {
	for i, raw := range in {
		var sc objScenario
		must(raw, &sc)
		synctest.Test(t, func(t *testing.T) { runObjects(sc, rand.New(rand.NewSource(seed()*1009+int64(i))), out) })
	}
}

var plainValue = regexp.MustCompile(`^[A-Za-z0-9]([A-Za-z0-9 ._:,-]{0,60}[A-Za-z0-9])?$`)

func runObjects(sc objScenario, rnd *rand.Rand, out *Out) {
	cfg := &common.Config{DefaultCluster: sc.Deflt}
	ic := map[store.GroupVersionResource]map[string]string{}
	var gvrs []store.GroupVersionResource
	conf := M{}
	var names []string
	for t := range sc.Types {
		names = append(names, t)
	}
	sort.Strings(names)
	for _, t := range names {
		ty := sc.Types[t]
		gvr := store.GroupVersionResource{Group: ty.G, Version: ty.V, Resource: ty.R}
		idx, ast := map[string]string{}, M{}
		for k, x := range ty.Index {
			idx[k], ast[k] = x.Text, x.X
		}
		ic[gvr] = idx
		gvrs = append(gvrs, gvr)
		cfg.Proxies = append(cfg.Proxies, common.Proxy{Group: ty.G, Version: ty.V, Resource: ty.R, ListKind: ty.ListKind, Index: idx})
		conf[t] = M{"index": ast, "custom": !ty.Builtin, "apiv": ty.apiv(), "listkind": ty.ListKind}
	}
	common.InitConfig(cfg)
	st := memory.NewMemoryStore(ic)
	u := &objUp{streams: map[string]*io.PipeWriter{}}
	cfgs := map[string]rest.Config{}
	for _, c := range sc.Clusters {
		cfgs[c] = rest.Config{Host: "http://" + c + ".invalid", Transport: objRT{u, c}}
	}
	h := muxOf(nil, st)
	w := watcher.NewWatcher(cfgs, gvrs, st)
	_ = w.Start()
	synctest.Wait()
	out.Emit(M{"ev": "reset", "conf": conf, "deflt": sc.Deflt})
	have := map[string]bool{}
	lastIdx := map[string]map[string]string{}
	ver := 0
	for _, s := range sc.Steps {
		ty := sc.Types[s.T]
		k := L{s.T, s.C, s.NS, s.N}
		ks := fmt.Sprint(k)
		switch s.Op {
		case "put", "del":
			ver++
			body := s.reported(ty, ver)
			typ := "ADDED"
			if have[ks] {
				typ = "MODIFIED"
			}
			if s.Op == "del" {
				if !have[ks] {
					continue
				}
				typ = "DELETED"
			}
			have[ks] = s.Op == "put"
			pw := u.streams[s.C+" "+ty.path("", "")]
			if pw == nil {
				out.Emit(M{"ev": "nostream", "t": s.T, "c": s.C, "path": ty.path("", "")})
				continue
			}
			line := []byte(fmt.Sprintf(`{"type":%q,"object":%s}`+"\n", typ, body))
			i := rnd.Intn(len(line))
			go func() {
				_, _ = pw.Write(line[:i])
				_, _ = pw.Write(line[i:])
			}()
			synctest.Wait()
			o, _ := leaves(body)
			out.Emit(M{"ev": s.Op, "k": k, "o": o})
		case "get":
			vals := url.Values{}
			target := ty.path(s.NS, s.N)
			if s.C != sc.Deflt {
				g, err := page.QueryGetOptions(metav1.GetOptions{}, s.C)
				if err != nil {
					panic(err)
				}
				vals.Set("resourceVersion", g.ResourceVersion)
				target += "?" + vals.Encode()
			}
			code, _, b := call(h, "GET", target, "application/json", "")
			o, idx := servedObject(b)
			if code == 200 {
				lastIdx[s.T] = idx
			}
			out.Emit(M{"ev": "get", "k": k, "st": code, "o": o, "idx": idx})
		case "list", "search":
			p := page.Paginate{}
			val := ""
			if s.Op == "search" {
				var ok bool
				val, ok = lastIdx[s.T][s.Key]
				if !ok || !plainValue.MatchString(val) {
					continue
				}
				p.Search = s.Key + `="` + val + `"`
			} else if err := p.Clusters([]string{s.C}); err != nil {
				panic(err)
			}
			lo, err := page.QueryListOptions(metav1.ListOptions{}, p)
			if err != nil {
				panic(err)
			}
			code, _, b := call(h, "GET", ty.path(s.NS, "")+"?"+url.Values{"labelSelector": {lo.LabelSelector}}.Encode(), "application/json", "")
			var l struct {
				Kind       string            `json:"kind"`
				APIVersion string            `json:"apiVersion"`
				Items      []json.RawMessage `json:"items"`
			}
			if code == 200 && json.Unmarshal(b, &l) != nil {
				code = 598
			}
			keys, os, idxs := L{}, L{}, L{}
			for _, it := range l.Items {
				o, idx := servedObject(it)
				var m struct {
					metav1.ObjectMeta `json:"metadata"`
				}
				_ = json.Unmarshal(it, &m)
				keys = append(keys, L{s.T, m.Annotations[constants.DSMClusterAnno], m.Namespace, m.Name})
				if s.Op == "list" {
					os = append(os, o)
					idxs = append(idxs, idx)
				}
			}
			out.Emit(M{"ev": s.Op, "t": s.T, "c": s.C, "ns": s.NS, "key": s.Key, "val": val, "st": code, "kind": l.Kind, "apiv": l.APIVersion, "keys": keys, "os": os, "idxs": idxs})
		}
	}
	_ = w.Stop()
	time.Sleep(time.Minute)
	synctest.Wait()
}

func servedObject(b []byte) (L, map[string]string) {
	o, v := leaves(b)
	idx := map[string]string{}
	if m, ok := v.(map[string]interface{}); ok {
		if meta, ok := m["metadata"].(map[string]interface{}); ok {
			if a, ok := meta["annotations"].(map[string]interface{}); ok {
				s, _ := a[constants.IndexAnno].(string)
				_ = json.Unmarshal([]byte(s), &idx)
			}
		}
	}
	return o, idx
}
