package drv

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/common/constants"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/pkg/client/fake"
)

func init() { modes["fake"] = driveFake }

// quiet waits until every goroutine of the fake server, and the reader of its events, waits.
var quietBuf = make([]byte, 8<<20)

func quiet() {
	buf := quietBuf
	for try := 0; try < 20000; try++ {
		n := runtime.Stack(buf, true)
		busy := false
		for _, g := range strings.Split(string(buf[:n]), "\n\n") {
			if !strings.Contains(g, "/pkg/client/fake.") && !strings.Contains(g, "drv.readFakeEvents") {
				continue
			}
			if strings.Contains(g, "drv.driveFake(") {
				continue
			}
			head := g
			if i := strings.Index(g, "\n"); i > 0 {
				head = g[:i]
			}
			if strings.Contains(head, "[select") || strings.Contains(head, "[chan receive") || strings.Contains(g, "ListenAndServe") && strings.Contains(head, "[IO wait") {
				continue
			}
			busy = true
			break
		}
		if !busy {
			return
		}
		time.Sleep(200 * time.Microsecond)
	}
	panic("the fake server does not come to rest")
}

// heldWatches counts the requests the fake server still works on, once they stop getting fewer.
func heldWatches() int {
	n, tries := 0, 4000
	if heldBefore {
		tries = 1
	}
	for try := 0; try < tries; try++ {
		n = 0
		for _, g := range strings.Split(string(quietBuf[:runtime.Stack(quietBuf, true)]), "\n\n") {
			if strings.Contains(g, "/pkg/client/fake.") && strings.Contains(g, "net/http.(*conn).serve") {
				n++
			}
		}
		if n == 0 {
			return 0
		}
		time.Sleep(5 * time.Millisecond)
	}
	heldBefore = true
	return n
}

var heldBefore bool

type fakeEvents struct {
	mu  sync.Mutex
	got []fake.Event
}

func readFakeEvents(ch <-chan fake.Event, f *fakeEvents) {
	for e := range ch {
		f.mu.Lock()
		f.got = append(f.got, e)
		f.mu.Unlock()
	}
}

// fakeBody is a body whose every part carries the version.
func fakeBody(typ, ns, name string, v, style int) string {
	ti := typeTable[typ]
	md := M{"uid": fmt.Sprintf("uid-%d", v), "resourceVersion": fmt.Sprint(v)}
	for part, kv := range fakeParts(v) {
		if kv != nil {
			md[part] = kv
		}
	}
	if ns != "" && style%2 == 0 {
		md["namespace"] = ns
	}
	if name != "" {
		md["name"] = name
	}
	o := M{"apiVersion": ti.apiVersion(), "kind": ti.kind, "metadata": md, "spec": M{"on": fmt.Sprintf("node-%d", v), "text": "<é&> \"" + strings.Repeat("x", style*300)}}
	b, _ := json.Marshal(o)
	if style == 5 {
		b, _ = json.MarshalIndent(o, "", "  ")
	}
	return string(b)
}

// fakeParts is what the metadata of a version has besides its names.
func fakeParts(v int) map[string]map[string]string {
	p := map[string]map[string]string{"labels": nil, "annotations": nil}
	if v%4 != 3 {
		p["labels"] = map[string]string{"ver": fmt.Sprint(v), "lab": "x"}
	}
	if v%3 == 0 {
		p["annotations"] = map[string]string{"note": fmt.Sprint(v)}
	}
	if v%7 == 0 {
		p["annotations"] = map[string]string{}
	}
	return p
}

type fakeObj struct {
	metav1.TypeMeta   `json:",inline"`
	metav1.ObjectMeta `json:"metadata"`
	Spec              struct {
		On   string `json:"on"`
		Text string `json:"text"`
	} `json:"spec"`
}

func (o *fakeObj) version(typ string) int {
	v := 0
	fmt.Sscan(o.ResourceVersion, &v)
	if v == 0 || string(o.UID) != fmt.Sprintf("uid-%d", v) || o.Spec.On != fmt.Sprintf("node-%d", v) || o.Kind != typeTable[typ].kind || !strings.HasPrefix(o.Spec.Text, `<é&> "`) {
		return -1
	}
	for part, want := range fakeParts(v) {
		got := map[string]map[string]string{"labels": o.Labels, "annotations": o.Annotations}[part]
		for k, x := range want {
			if got[k] != x {
				return -1
			}
		}
		for k := range got {
			if _, ok := want[k]; !ok && k != constants.IndexAnno && k != constants.DSMClusterAnno {
				return -1
			}
		}
	}
	return v
}

func fakeID(o *fakeObj, typ string) L {
	return L{clusterOf(o), o.Namespace, o.Name, o.version(typ)}
}

type fakeWatch struct {
	conn net.Conn
	head []byte
}

// leave ends the connection at once, so that its address can be taken again, and gives the address.
func (w *fakeWatch) leave() net.Addr {
	_ = w.conn.(*net.TCPConn).SetLinger(0)
	a := w.conn.LocalAddr()
	_ = w.conn.Close()
	return a
}

// openFakeWatch opens a watch, from the local address of an earlier one when one is given.
func openFakeWatch(addr, target string, from net.Addr) (*fakeWatch, int) {
	dial := net.Dialer{}
	if from != nil {
		dial.LocalAddr = from
		dial.Control = func(_, _ string, c syscall.RawConn) error {
			return c.Control(func(fd uintptr) {
				_ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
			})
		}
	}
	c, err := dial.Dial("tcp", addr)
	if err != nil && from != nil {
		c, err = net.Dial("tcp", addr)
	}
	if err != nil {
		panic(err)
	}
	fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: %s\r\n\r\n", target, addr)
	_ = c.SetReadDeadline(time.Now().Add(20 * time.Second))
	w := &fakeWatch{conn: c}
	b := make([]byte, 4096)
	for !bytes.Contains(w.head, []byte("\r\n\r\n")) {
		n, err := c.Read(b)
		w.head = append(w.head, b[:n]...)
		if err != nil {
			break
		}
	}
	resp, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(w.head)), nil)
	if err != nil {
		return w, 0
	}
	return w, resp.StatusCode
}

// log reads what has arrived, without waiting for more, and gives it as [action, version] pairs.
func (w *fakeWatch) log(typ string, bodies map[int]string) L {
	_ = w.conn.SetReadDeadline(time.Time{})
	all := append([]byte{}, w.head...)
	rc, err := w.conn.(*net.TCPConn).SyscallConn()
	if err != nil {
		panic(err)
	}
	buf := make([]byte, 1<<20)
	_ = rc.Read(func(fd uintptr) bool {
		for {
			n, err := syscall.Read(int(fd), buf)
			if n <= 0 || err != nil {
				return true
			}
			all = append(all, buf[:n]...)
		}
	})
	out := L{}
	resp, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(all)), nil)
	if err != nil {
		return L{L{"no response", 0}}
	}
	body, _ := io.ReadAll(resp.Body)
	d := json.NewDecoder(bytes.NewReader(body))
	for {
		var e struct {
			Type   string          `json:"type"`
			Object json.RawMessage `json:"object"`
		}
		if err := d.Decode(&e); err == io.EOF {
			return out
		} else if err != nil {
			return append(out, L{"garbage", 0})
		}
		a := map[string]string{"ADDED": "add", "MODIFIED": "update", "DELETED": "delete"}[e.Type]
		out = append(out, L{a, rawVersion(a, typ, string(e.Object), bodies)})
	}
}

// rawVersion is the version of a reported body: what was sent, or what was deleted.
func rawVersion(action, typ, raw string, bodies map[int]string) int {
	var o fakeObj
	if json.Unmarshal([]byte(raw), &o) != nil {
		return -2
	}
	v := o.version(typ)
	if action != "delete" && bodies[v] != raw {
		return -3
	}
	return v
}

func driveFake(t *testing.T, in []json.RawMessage, out *Out) {
	for _, raw := range in {
		var sc struct {
			Deflt  string `json:"deflt"`
			Reader bool   `json:"reader"`
			Steps  []struct {
				Op, T, C, NS, N string
				V, Style, ID    int
				Cs              []string
			} `json:"steps"`
		}
		must(raw, &sc)
		cfg := common.Config{DefaultCluster: sc.Deflt, Token: "ignored"}
		for _, ty := range []string{"pods", "nodes", "widgets", "deployments"} {
			ti := typeTable[ty]
			cfg.Proxies = append(cfg.Proxies, common.Proxy{Group: ti.gvr.Group, Version: ti.gvr.Version, Resource: ti.gvr.Resource, ListKind: ti.kind + "List", Index: map[string]string{"name": "{.metadata.name}", "namespace": "{.metadata.namespace}"}})
		}
		var s fake.CkubeServer
		var addr string
		for try := 0; s == nil; try++ {
			a := deadAddr()
			addr = a
			var err error
			s, err = fake.NewFakeCKubeServer(":"+a[strings.LastIndex(a, ":")+1:], toJSON(cfg))
			if err != nil && try > 3 {
				panic(err)
			}
		}
		base := s.GetKubeConfig().Host
		ev := &fakeEvents{}
		if sc.Reader {
			go readFakeEvents(s.Events(), ev)
		}
		quiet()
		out.Emit(M{"ev": "reset", "deflt": sc.Deflt, "reader": sc.Reader})
		bodies := map[int]string{}
		watches := map[int]*fakeWatch{}
		var gone net.Addr
		wtype := map[int]string{}
		cl := &http.Client{Timeout: patience}
		do := func(method, target, body string) (int, []byte) {
			req, err := http.NewRequest(method, base+target, strings.NewReader(body))
			if err != nil {
				panic(err)
			}
			req.Header.Set("Content-Type", "application/json")
			resp, err := cl.Do(req)
			if err != nil {
				return 0, nil
			}
			defer resp.Body.Close()
			b, _ := io.ReadAll(resp.Body)
			return resp.StatusCode, b
		}
		order := []int{}
		for i, x := range sc.Steps {
			vals := url.Values{}
			e := M{"ev": x.Op, "t": x.T, "c": x.C, "ns": x.NS, "n": x.N}
			switch x.Op {
			case "create", "update", "mismatch":
				method, p, name := "POST", typePath(x.T, x.NS, ""), x.N
				if x.Op != "create" {
					method, p = "PUT", typePath(x.T, x.NS, x.N)
					if x.Style == 3 {
						name = "" // the path names it
					}
				}
				if x.Op == "mismatch" {
					name = x.N + "x"
				}
				if x.C != "" {
					o, err := page.QueryCreateOptions(metav1.CreateOptions{}, x.C)
					if err != nil {
						panic(err)
					}
					vals.Set("fieldManager", o.FieldManager)
				}
				bodies[x.V] = fakeBody(x.T, x.NS, name, x.V, x.Style)
				e["v"] = x.V
				if x.Op != "create" && x.V%5 == 0 {
					vals.Set("pretty", "true")
					vals.Set("resourceVersion", "7")
				}
				e["st"], _ = do(method, p+"?"+vals.Encode(), bodies[x.V])
			case "delete":
				body := ""
				if x.C != "" {
					o, err := page.QueryDeleteOptions(metav1.DeleteOptions{}, x.C)
					if err != nil {
						panic(err)
					}
					body = toJSON(o)
				} else if x.Style > 4 {
					body = `{"kind":"DeleteOptions","apiVersion":"v1"}`
				}
				switch i % 5 { // what others add
				case 0:
					vals.Set("resourceVersion", "7")
					vals.Set("propagationPolicy", "Background")
				case 1:
					vals.Set("pretty", "true")
					vals.Set("fieldManager", "kubectl")
				}
				e["st"], _ = do("DELETE", typePath(x.T, x.NS, x.N)+"?"+vals.Encode(), body)
			case "get":
				if x.C != "" {
					o, err := page.QueryGetOptions(metav1.GetOptions{}, x.C)
					if err != nil {
						panic(err)
					}
					vals.Set("resourceVersion", o.ResourceVersion)
				}
				st, b := do("GET", typePath(x.T, x.NS, x.N)+"?"+vals.Encode(), "")
				got := L{}
				var o fakeObj
				if st == 200 && json.Unmarshal(b, &o) == nil {
					got = append(got, fakeID(&o, x.T))
				}
				e["st"], e["got"] = st, got
			case "list":
				st, b := do("GET", typePath(x.T, x.NS, "")+fakeSel(x.Cs, vals), "")
				var l struct {
					Items []fakeObj `json:"items"`
				}
				got := L{}
				if st == 200 && json.Unmarshal(b, &l) == nil {
					for i := range l.Items {
						got = append(got, fakeID(&l.Items[i], x.T))
					}
				}
				e["st"], e["got"], e["cs"] = st, got, append([]string{}, x.Cs...)
			case "reset":
				s.Clean()
				e = M{"ev": "clean"}
			case "open":
				p := typePath(x.T, x.NS, "")
				if x.Style < 5 {
					i := strings.LastIndex(p, "/"+typeTable[x.T].gvr.Version) + len("/"+typeTable[x.T].gvr.Version)
					p = p[:i] + "/watch" + p[i:]
				} else {
					vals.Set("watch", []string{"true", "1"}[x.Style%2])
				}
				w, st := openFakeWatch(addr, p+fakeSel(x.Cs, vals), gone)
				gone = nil
				watches[x.ID], wtype[x.ID] = w, x.T
				order = append(order, x.ID)
				e["st"], e["id"], e["cs"] = st, x.ID, append([]string{}, x.Cs...)
			case "close":
				e["id"], e["log"] = x.ID, watches[x.ID].log(wtype[x.ID], bodies)
				gone = watches[x.ID].leave()
				delete(watches, x.ID)
				if i+1 < len(sc.Steps) && sc.Steps[i+1].Op == "open" {
					// the next watch comes while this one is on its way out
					out.Emit(e)
					continue
				}
			}
			quiet()
			out.Emit(e)
		}
		for _, id := range order {
			if w := watches[id]; w != nil {
				out.Emit(M{"ev": "close", "id": id, "log": w.log(wtype[id], bodies)})
				w.conn.Close()
			}
		}
		evs := L{}
		ev.mu.Lock()
		for _, e := range ev.got {
			a := map[fake.EventAction]string{fake.EventActionAdd: "add", fake.EventActionUpdate: "update", fake.EventActionDelete: "delete"}[e.EventAction]
			ty := "?"
			for k, ti := range typeTable {
				if ti.gvr.Group == e.Group && ti.gvr.Version == e.Version && ti.gvr.Resource == e.Resource {
					ty = k
				}
			}
			v := -4
			if ty != "?" {
				v = rawVersion(a, ty, e.Raw, bodies)
			}
			evs = append(evs, L{a, ty, e.Cluster, e.Namespace, e.Name, v})
		}
		ev.mu.Unlock()
		out.Emit(M{"ev": "end", "events": evs, "held": heldWatches()})
	}
}

func fakeSel(cs []string, vals url.Values) string {
	if len(cs) > 0 {
		p := page.Paginate{}
		if err := p.Clusters(cs); err != nil {
			panic(err)
		}
		o, err := page.QueryListOptions(metav1.ListOptions{}, p)
		if err != nil {
			panic(err)
		}
		vals.Set("labelSelector", o.LabelSelector)
	}
	return "?" + vals.Encode()
}
