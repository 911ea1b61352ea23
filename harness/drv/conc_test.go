package drv

import (
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/common/constants"
	"github.com/DaoCloud/ckube/page"
)

func init() { modes["conc"] = driveConc }

type concRead struct {
	Kind string   `json:"kind"` // list table page get
	T    string   `json:"t"`
	CS   []string `json:"cs"` // clusters named
	NS   string   `json:"ns"`
	N    string   `json:"n"`
	Page int64    `json:"page"`
	Size int64    `json:"size"`
}

type concScenario struct {
	Deflt    string       `json:"deflt"`
	Clusters []string     `json:"clusters"`
	Types    []string     `json:"types"`
	NSs      []string     `json:"nss"`
	Names    []string     `json:"names"`
	Single   bool         `json:"single"`
	Fill     [][]string   `json:"fill"`    // t, c, "set", ns, n: done before anything else
	Writers  [][][]string `json:"writers"` // per writer: t, c, op, ns, n
	Readers  [][]concRead `json:"readers"`
	Reads    int          `json:"reads"` // per reader
	Once     bool         `json:"once"`  // writers run their script once
	Rounds   int          `json:"rounds"`
}

type concEv struct {
	t int64
	m M
}

// driveConc runs writers and readers as goroutines of the real store and
// router. Nothing but a counter orders them.
func driveConc(t *testing.T, in []json.RawMessage, out *Out) {
	for _, raw := range in {
		var sc concScenario
		must(raw, &sc)
		for i := 0; i <= sc.Rounds; i++ {
			concRound(sc, out)
		}
	}
}

func concRound(sc concScenario, out *Out) {
	conf := map[string]map[string][]string{}
	for _, ty := range sc.Types {
		conf[ty] = map[string][]string{"name": {"name"}, "namespace": {"ns"}, "ver": {"label", "ver"}, "lab": {"label", "lab"}}
	}
	w := newWorld(sc.Deflt, "", conf, nil)
	srcs := L{}
	for _, ty := range sc.Types {
		for _, c := range sc.Clusters {
			srcs = append(srcs, ty+"|"+c)
		}
	}
	out.Emit(M{"ev": "reset", "srcs": srcs, "nss": sc.NSs, "names": sc.Names, "single": sc.Single})
	var clock, ver, wid int64 = 1, 0, 0
	tick := func() int64 { return atomic.AddInt64(&clock, 1) }
	var mu sync.Mutex
	var all []concEv
	write := func(log *[]concEv, s []string) {
		v := int(atomic.AddInt64(&ver, 1))
		id := fmt.Sprint("w", atomic.AddInt64(&wid, 1))
		ty, c, op, ns, n := s[0], s[1], s[2], s[3], s[4]
		gvr := typeTable[ty].gvr
		obj := verObj(ty, ns, n, v, "a")
		b := tick()
		*log = append(*log, concEv{b, M{"ev": "wb", "t": b, "w": id, "s": ty + "|" + c, "op": map[string]string{"put": "set", "mod": "set", "del": "del", "clear": "clear"}[op], "ns": ns, "n": n, "v": v}})
		switch op {
		case "put":
			_ = w.st.OnResourceAdded(gvr, c, obj)
		case "mod":
			_ = w.st.OnResourceModified(gvr, c, obj)
		case "del":
			_ = w.st.OnResourceDeleted(gvr, c, obj)
		case "clear":
			_ = w.st.Clean(gvr, c)
		}
		e := tick()
		*log = append(*log, concEv{e, M{"ev": "we", "t": e, "w": id}})
	}
	read := func(log *[]concEv, id string, r concRead) {
		target, accept, rsrcs, rnss := r.render(sc)
		b := tick()
		*log = append(*log, concEv{b, M{"ev": "rb", "t": b, "r": id}})
		st, _, body := call(w.handler, "GET", target, accept, "")
		e := tick()
		ev := M{"ev": "re", "t": e, "r": id, "kind": r.Kind, "srcs": rsrcs, "nss": rnss, "n": r.N, "page": r.Page, "size": r.Size, "st": st}
		items, remain := concItems(r, st, body)
		ev["items"], ev["remain"] = items, remain
		*log = append(*log, concEv{e, ev})
	}
	var log []concEv
	for _, s := range sc.Fill {
		write(&log, s)
	}
	var wg, rg sync.WaitGroup
	var stop, ready int32
	for wi := range sc.Writers {
		script := sc.Writers[wi]
		wg.Add(1)
		go func() {
			defer wg.Done()
			var log []concEv
			atomic.AddInt32(&ready, 1)
			for atomic.LoadInt32(&ready) < int32(len(sc.Writers)) { // all at once
				runtime.Gosched()
			}
			for i := 0; sc.Once && i < len(script) || !sc.Once && atomic.LoadInt32(&stop) == 0; i++ {
				write(&log, script[i%len(script)])
			}
			mu.Lock()
			all = append(all, log...)
			mu.Unlock()
		}()
	}
	for ri := range sc.Readers {
		script, id := sc.Readers[ri], fmt.Sprint("r", ri)
		rg.Add(1)
		go func() {
			defer rg.Done()
			var log []concEv
			for i := 0; i < sc.Reads; i++ {
				read(&log, id, script[i%len(script)])
			}
			mu.Lock()
			all = append(all, log...)
			mu.Unlock()
		}()
	}
	done := make(chan struct{})
	go func() {
		// everything else the process does with its data at the same time
		for i := 0; i < sc.Reads/8+1 && !sc.Once; i++ {
			call(w.handler, "GET", "/metrics", "", "")
		}
		rg.Wait()
		atomic.StoreInt32(&stop, 1)
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(40 * time.Second):
		out.Emit(M{"ev": "stuck", "what": "reads or updates did not finish within 40 s"})
		fmt.Println("stuck")
		out.w.Flush()
		os.Exit(3)
	}
	all = append(log, all...)
	sort.Slice(all, func(i, j int) bool { return all[i].t < all[j].t })
	log = nil
	// at rest
	for _, ty := range sc.Types {
		for _, c := range sc.Clusters {
			for _, ns := range append([]string{""}, sc.NSs...) {
				read(&log, "r0", concRead{Kind: "list", T: ty, CS: []string{c}, NS: ns})
			}
			for _, n := range sc.Names {
				read(&log, "r0", concRead{Kind: "get", T: ty, CS: []string{c}, NS: sc.NSs[0], N: n})
			}
		}
	}
	for _, e := range append(all, log...) {
		out.Emit(e.m)
	}
	out.Emit(M{"ev": "end"})
}

func (r concRead) render(sc concScenario) (target, accept string, srcs, nss L) {
	accept = "application/json"
	if r.Kind == "table" {
		accept = "application/json;as=Table;v=v1;g=meta.k8s.io,application/json"
	}
	cs := r.CS
	if len(cs) == 0 {
		cs = []string{sc.Deflt}
	}
	for _, c := range cs {
		srcs = append(srcs, r.T+"|"+c)
	}
	if r.NS != "" {
		nss = L{r.NS}
	} else {
		for _, n := range sc.NSs {
			nss = append(nss, n)
		}
	}
	vals := url.Values{}
	if r.Kind == "get" {
		o, err := page.QueryGetOptions(metav1.GetOptions{}, cs[0])
		if err != nil {
			panic(err)
		}
		vals.Set("resourceVersion", o.ResourceVersion)
		return typePath(r.T, r.NS, r.N) + "?" + vals.Encode(), accept, srcs, nss
	}
	p := page.Paginate{Page: r.Page, PageSize: r.Size}
	if len(r.CS) > 0 {
		if err := p.Clusters(r.CS); err != nil {
			panic(err)
		}
	}
	lo, err := page.QueryListOptions(metav1.ListOptions{}, p)
	if err != nil {
		panic(err)
	}
	target = typePath(r.T, r.NS, "")
	if lo.LabelSelector != "" {
		vals.Set("labelSelector", lo.LabelSelector)
		target += "?" + vals.Encode()
	}
	return target, accept, srcs, nss
}

// concItems reads the answer: [type|cluster, namespace, name, version] of every object.
func concItems(r concRead, st int, body []byte) (L, int64) {
	items := L{}
	if st != 200 {
		return items, 0
	}
	switch r.Kind {
	case "get":
		u := struct {
			metav1.ObjectMeta `json:"metadata"`
		}{}
		if json.Unmarshal(body, &u) != nil {
			return L{L{"?", "", "", 0}}, 0
		}
		return append(items, concItem(r.T, &u)), 0
	case "table":
		tb := metav1.Table{}
		if json.Unmarshal(body, &tb) != nil {
			return L{L{"?", "", "", 0}}, 0
		}
		for _, row := range tb.Rows {
			cell := map[string]string{}
			for i, c := range row.Cells {
				if i < len(tb.ColumnDefinitions) {
					cell[tb.ColumnDefinitions[i].Name] = fmt.Sprint(c)
				}
			}
			v := -1
			fmt.Sscan(cell["ver"], &v)
			items = append(items, L{r.T + "|" + cell["cluster"], cell["namespace"], cell["name"], v})
		}
		return items, 0
	}
	l, _, err := decodeList(r.T, body)
	if err != nil {
		return L{L{"?", "", "", 0}}, 0
	}
	_ = metav1.ListInterface(l)
	var raw struct {
		Items []struct {
			metav1.ObjectMeta `json:"metadata"`
		} `json:"items"`
	}
	must(body, &raw)
	for i := range raw.Items {
		items = append(items, concItem(r.T, &raw.Items[i]))
	}
	remain := int64(0)
	if n := l.GetRemainingItemCount(); n != nil {
		remain = *n
	}
	return items, remain
}

// concItem: 0 as version when the parts of the object do not belong together.
func concItem(ty string, m metav1.Object) L {
	id := itemID(m)
	v := id[3].(int)
	if m.GetLabels()["ver"] != fmt.Sprint(v) || string(m.GetUID()) != fmt.Sprintf("uid-%d", v) ||
		!strings.Contains(m.GetAnnotations()[constants.IndexAnno], fmt.Sprintf(`"ver":"%d"`, v)) {
		v = 0
	}
	return L{ty + "|" + id[0].(string), id[1], id[2], v}
}
