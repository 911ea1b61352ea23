package drv

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"k8s.io/client-go/rest"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/watcher"
)

func init() { modes["watch"] = driveWatch }

// vup is the virtual API servers behind the watch streams: every request waits
// for the scenario to accept or refuse it. It runs in a synctest bubble, so that
// hours of waiting take no time.
type vup struct {
	mu      sync.Mutex
	conns   map[string]*vconn // latest connection of "type|cluster"
	tries   map[string]int
	unknown []string
}

type vconn struct {
	key    string
	state  string // pend, open, none
	decide chan vanswer
	pr     *io.PipeReader
	pw     *io.PipeWriter
	queue  []M
}

type vanswer struct {
	status int // 0: err
	err    error
	body   string
}

type vtransport struct {
	u       *vup
	cluster string
}

func (c *vconn) set(u *vup, st string) {
	u.mu.Lock()
	c.state = st
	u.mu.Unlock()
}

type vbody struct {
	*io.PipeReader
	c *vconn
	u *vup
}

func (b vbody) Close() error {
	b.c.set(b.u, "none")
	return b.PipeReader.Close()
}

func typeOfPath(p string) string {
	for t := range typeTable {
		if typePath(t, "", "") == p {
			return t
		}
	}
	return ""
}

func (t *vtransport) RoundTrip(req *http.Request) (*http.Response, error) {
	typ := typeOfPath(req.URL.Path)
	key := typ + "|" + t.cluster
	c := &vconn{key: key, state: "pend", decide: make(chan vanswer)}
	c.pr, c.pw = io.Pipe()
	t.u.mu.Lock()
	if typ == "" || req.Method != "GET" || (req.URL.Query().Get("watch") != "true" && req.URL.Query().Get("watch") != "1") {
		t.u.unknown = append(t.u.unknown, req.Method+" "+req.URL.String())
	}
	if old := t.u.conns[key]; old != nil && old.state != "none" {
		t.u.unknown = append(t.u.unknown, "second stream of "+key)
	}
	t.u.conns[key] = c
	t.u.tries[key]++
	t.u.mu.Unlock()
	var a vanswer
	select {
	case <-req.Context().Done():
		c.set(t.u, "none")
		return nil, req.Context().Err()
	case a = <-c.decide:
	}
	if a.err != nil {
		c.set(t.u, "none")
		return nil, a.err
	}
	resp := &http.Response{StatusCode: a.status, Status: fmt.Sprint(a.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Request: req}
	if a.status != 200 {
		c.set(t.u, "none")
		resp.Body = io.NopCloser(strings.NewReader(a.body))
		return resp, nil
	}
	c.set(t.u, "open")
	context.AfterFunc(req.Context(), func() {
		c.set(t.u, "none")
		c.pr.CloseWithError(req.Context().Err())
	})
	resp.Body = vbody{c.pr, c, t.u}
	return resp, nil
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

var watchTypes = []string{"pods", "nodes", "widgets", "deployments"}
var watchClusters = []string{"c1", "c2"}

func idObj(typ, id string) (ns, name string) {
	if !typeTable[typ].namespaced {
		return "", map[string]string{"a": "x", "b": "y", "c": "z"}[id]
	}
	switch id {
	case "a":
		return "n1", "x"
	case "b":
		return "n2", "x"
	}
	return "n1", "y"
}

func objID(typ, ns, name string) string {
	for _, id := range []string{"a", "b", "c"} {
		if n, m := idObj(typ, id); n == ns && m == name {
			return id
		}
	}
	return "?" + ns + "/" + name
}

func splitKey(k string) (typ, cluster string) {
	i := strings.IndexByte(k, '|')
	return k[:i], k[i+1:]
}

type watchOp struct {
	Op   string `json:"op"`
	S    string `json:"s"`
	I    string `json:"i"`
	Kind string `json:"kind"`
	D    int    `json:"d"`
}

// gatedStore is the real store, with notifications that can be held up.
type gatedStore struct {
	store.Store
	mu   sync.Mutex
	gate chan struct{}
}

func (g *gatedStore) wait() {
	g.mu.Lock()
	c := g.gate
	g.mu.Unlock()
	if c != nil {
		<-c
	}
}
func (g *gatedStore) OnResourceAdded(r store.GroupVersionResource, c string, o interface{}) error {
	g.wait()
	return g.Store.OnResourceAdded(r, c, o)
}
func (g *gatedStore) OnResourceModified(r store.GroupVersionResource, c string, o interface{}) error {
	g.wait()
	return g.Store.OnResourceModified(r, c, o)
}
func (g *gatedStore) OnResourceDeleted(r store.GroupVersionResource, c string, o interface{}) error {
	g.wait()
	return g.Store.OnResourceDeleted(r, c, o)
}

func driveWatch(t *testing.T, in []json.RawMessage, out *Out) {
	defer func() { objStyle = 0 }()
	for i, raw := range in {
		var ops []watchOp
		must(raw, &ops)
		objStyle = i % objStyles
		synctest.Test(t, func(t *testing.T) { runWatch(ops, rand.New(rand.NewSource(seed()*100003+int64(i))), out) })
	}
}

func runWatch(ops []watchOp, rnd *rand.Rand, out *Out) {
	ps, ic := proxiesFor(watchTypes, stdIndex)
	common.InitConfig(&common.Config{Proxies: ps, DefaultCluster: "c1"})
	st := memory.NewMemoryStore(ic)
	u := &vup{conns: map[string]*vconn{}, tries: map[string]int{}}
	cfgs := map[string]rest.Config{}
	for _, c := range watchClusters {
		cfgs[c] = rest.Config{Host: "http://" + c + ".invalid", Transport: &vtransport{u, c}}
	}
	var gvrs []store.GroupVersionResource
	for _, ty := range watchTypes {
		gvrs = append(gvrs, typeTable[ty].gvr)
	}
	truth := map[string]map[string]int{}
	ver := 0
	for _, ty := range watchTypes {
		for _, c := range watchClusters {
			truth[ty+"|"+c] = map[string]int{}
		}
	}
	evJSON := func(typ, key, id string, v int) string {
		ty, _ := splitKey(key)
		ns, n := idObj(ty, id)
		return fmt.Sprintf(`{"type":%q,"object":%s}`, typ, toJSON(verObj(ty, ns, n, v, "p")))
	}
	observe := func(e M) {
		synctest.Wait()
		cache := M{}
		conn := M{}
		u.mu.Lock()
		for k := range truth {
			cache[k] = L{}
			s := "none"
			if c := u.conns[k]; c != nil {
				s = c.state
			}
			conn[k] = L{s, u.tries[k]}
		}
		e["strange"] = append([]string{}, u.unknown...)
		u.mu.Unlock()
		for _, ty := range watchTypes {
			for _, o := range st.Query(typeTable[ty].gvr, store.Query{}).Items {
				c := clusterOf(o)
				v, _, ns, n := versionOf(o, c)
				k := ty + "|" + c
				l, _ := cache[k].(L)
				cache[k] = append(l, L{objID(ty, ns, n), v})
			}
		}
		e["cache"], e["conn"] = cache, conn
		out.Emit(e)
	}
	write := func(c *vconn, s string) {
		go func() {
			i := 0
			if len(s) > 1 {
				i = rnd.Intn(len(s))
			}
			_, _ = c.pw.Write([]byte(s[:i]))
			_, _ = c.pw.Write([]byte(s[i:]))
		}()
		synctest.Wait()
	}
	gated := &gatedStore{Store: st}
	w := watcher.NewWatcher(cfgs, gvrs, gated)
	_ = w.Start()
	stopped := false
	observe(M{"ev": "reset"})
	conn := func(k, state string) *vconn {
		synctest.Wait()
		u.mu.Lock()
		defer u.mu.Unlock()
		if c := u.conns[k]; c != nil && c.state == state {
			return c
		}
		return nil
	}
	accept := func(k string) bool {
		c := conn(k, "pend")
		if c == nil {
			return false
		}
		var ids []string
		for id := range truth[k] {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		rnd.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		q := L{}
		for _, id := range ids {
			e := M{"typ": "ADDED", "id": id, "v": truth[k][id]}
			c.queue = append(c.queue, e)
			q = append(q, e)
		}
		c.decide <- vanswer{status: 200}
		observe(M{"ev": "accept", "s": k, "q": q})
		return true
	}
	deliver := func(k string) bool {
		c := conn(k, "open")
		if c == nil || len(c.queue) == 0 {
			return false
		}
		e := c.queue[0]
		c.queue = c.queue[1:]
		write(c, evJSON(e["typ"].(string), k, e["id"].(string), e["v"].(int))+"\n")
		observe(M{"ev": "deliver", "s": k})
		return true
	}
	for _, o := range ops {
		switch o.Op {
		case "put", "del":
			_, ok := truth[o.S][o.I]
			typ := "ADDED"
			if o.Op == "del" {
				if !ok {
					continue
				}
				typ = "DELETED"
			} else if ok {
				typ = "MODIFIED"
			}
			ver++
			if o.Op == "del" {
				delete(truth[o.S], o.I)
			} else {
				truth[o.S][o.I] = ver
			}
			if c := conn(o.S, "open"); c != nil {
				c.queue = append(c.queue, M{"typ": typ, "id": o.I, "v": ver})
			}
			observe(M{"ev": o.Op, "s": o.S, "id": o.I})
		case "accept":
			accept(o.S)
		case "deliver":
			deliver(o.S)
		case "drain":
			for deliver(o.S) {
			}
		case "errev":
			if c := conn(o.S, "open"); c != nil {
				write(c, `{"type":"ERROR","object":{"kind":"Status","apiVersion":"v1","metadata":{},"status":"Failure","message":"too old resource version","reason":"Expired","code":410}}`+"\n")
				observe(M{"ev": "errev", "s": o.S})
			}
		case "break":
			c := conn(o.S, "open")
			if c == nil {
				continue
			}
			switch o.Kind {
			case "cut":
				x := evJSON("ADDED", o.S, "a", 999999)
				write(c, x[:1+rnd.Intn(len(x)-2)])
				c.pw.CloseWithError(io.ErrUnexpectedEOF)
			case "reset":
				c.pw.CloseWithError(errors.New("read: connection reset by peer"))
			case "garbage":
				write(c, "<html>bad gateway</html>\n")
				synctest.Wait()
			case "odd":
				write(c, `{"type":"ADDED","object":{"kind":"Nonsense","apiVersion":"no.where/v7"}}`+"\n")
				synctest.Wait()
			default:
				c.pw.Close()
			}
			observe(M{"ev": "break", "s": o.S, "kind": o.Kind})
		case "refuse":
			c := conn(o.S, "pend")
			if c == nil {
				continue
			}
			a := vanswer{}
			switch o.Kind {
			case "403", "404", "500", "503", "401":
				fmt.Sscan(o.Kind, &a.status)
				a.body = fmt.Sprintf(`{"kind":"Status","apiVersion":"v1","status":"Failure","message":"no","code":%s}`, o.Kind)
			case "eof":
				a.err = io.EOF
			case "timeout":
				a.err = timeoutErr{}
			case "reset":
				a.err = errors.New("read tcp: connection reset by peer")
			default:
				a.err = errors.New("dial tcp: connect: connection refused")
			}
			c.decide <- a
			observe(M{"ev": "refuse", "s": o.S, "kind": o.Kind})
		case "advance":
			time.Sleep(time.Duration(o.D) * time.Second)
			observe(M{"ev": "advance", "d": o.D})
		case "stoprace": // the stop arrives together with an answer or an event of the api server
			if stopped {
				continue
			}
			stopped = true
			// answers to pending requests and one event of stream S are given just before
			// the stop; everything else is reported right after it
			over := make(chan struct{})
			busy := rnd.Intn(3) > 0 // is the watcher still busy storing when it is stopped?
			if busy {
				gated.mu.Lock()
				gated.gate = make(chan struct{})
				gated.mu.Unlock()
			}
			for k := range truth {
				k := k
				late := func(id string) string { return evJSON("ADDED", k, id, 888888) + "\n" }
				if kinds := rnd.Perm(3); rnd.Intn(2) == 0 {
					n := 0
					late = func(id string) string {
						n++
						return evJSON([]string{"ADDED", "MODIFIED", "DELETED"}[kinds[n%3]], k, id, 888888) + "\n"
					}
				}
				if c := conn(k, "pend"); c != nil {
					go func() {
						select {
						case c.decide <- vanswer{status: 200}:
						case <-time.After(time.Second):
							return
						}
						<-over
						_, _ = c.pw.Write([]byte(late("a")))
					}()
				} else if c := conn(k, "open"); c != nil {
					go func() {
						if len(c.queue) > 0 {
							e := c.queue[0]
							_, _ = c.pw.Write([]byte(evJSON(e["typ"].(string), k, e["id"].(string), e["v"].(int)) + "\n"))
						}
						<-over
						for _, id := range []string{"a", "b", "c", "a", "b"} {
							_, _ = c.pw.Write([]byte(late(id)))
						}
					}()
				}
			}
			if busy {
				synctest.Wait()
			} else {
				for n := rnd.Intn(40); n > 0; n-- {
					runtime.Gosched()
				}
			}
			_ = w.Stop()
			close(over)
			if busy {
				synctest.Wait()
				gated.mu.Lock()
				close(gated.gate)
				gated.gate = nil
				gated.mu.Unlock()
			}
			time.Sleep(2 * time.Second)
			observe(M{"ev": "stoprace", "s": o.S})
		case "stop":
			if !stopped {
				stopped = true
				_ = w.Stop()
				observe(M{"ev": "stop"})
			}
		}
	}
	// sometimes the api servers are away for six hours first
	if !stopped && rnd.Intn(16) == 0 {
		keys := []string{}
		for k := range truth {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if c := conn(k, "open"); c != nil {
				c.pw.CloseWithError(errors.New("read: connection reset by peer"))
				observe(M{"ev": "break", "s": k, "kind": "reset"})
			}
		}
		for end := time.Now().Add(6 * time.Hour); ; time.Sleep(5 * time.Second) {
			for _, k := range keys {
				if c := conn(k, "pend"); c != nil {
					c.decide <- vanswer{err: errors.New("dial tcp: connect: connection refused")}
				}
			}
			if time.Now().After(end) {
				break
			}
		}
		observe(M{"ev": "outage"})
	}
	// the faults stop: every stream is accepted and served for two hours
	for n := 0; n < 240; n++ {
		for k := range truth {
			c := conn(k, "pend")
			if c != nil {
				for id, v := range truth[k] {
					c.queue = append(c.queue, M{"typ": "ADDED", "id": id, "v": v})
				}
				c.decide <- vanswer{status: 200}
			}
			if c = conn(k, "open"); c != nil {
				for _, e := range c.queue {
					write(c, evJSON(e["typ"].(string), k, e["id"].(string), e["v"].(int))+"\n")
				}
				c.queue = nil
			}
		}
		time.Sleep(30 * time.Second)
	}
	observe(M{"ev": "settle"})
	if !stopped {
		_ = w.Stop()
		observe(M{"ev": "stop"})
	}
	time.Sleep(time.Hour)
	observe(M{"ev": "advance", "d": 3600})
	for _, c := range u.conns {
		c.pw.Close()
		c.pr.Close()
	}
}
