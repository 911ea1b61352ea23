package drv

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	stdlog "log"
	"net"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	v1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/server"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
)

// Forwarded watches: clients on in-memory connections, the real server and
// proxy, and virtual API servers, in a bubble of virtual time.

func init() { modes["wproxy"] = driveWProxy }

type wpOp struct {
	Op, S, R, Cluster, Form, How, Method string
	Code, D                              int
	Q                                    []string
}

// serverTemplate is the http.Server that Run makes, for its limits.
func serverTemplate() *http.Server {
	s := server.NewMuxServer("127.0.0.1:0", nil, nil)
	done := make(chan error, 1)
	go func() { done <- s.Run() }()
	var found *http.Server
	for i := 0; i < 500 && found == nil; i++ {
		time.Sleep(10 * time.Millisecond)
		v := reflect.ValueOf(s)
		if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
			break
		}
		for j := 0; j < v.Elem().NumField(); j++ {
			f := v.Elem().Field(j)
			if f.Type() == reflect.TypeOf(found) && !f.IsNil() {
				found = *(**http.Server)(unsafe.Pointer(f.UnsafeAddr()))
			}
		}
	}
	time.Sleep(50 * time.Millisecond)
	t := &http.Server{ReadTimeout: 30 * time.Minute, WriteTimeout: 30 * time.Minute}
	if found != nil {
		t = &http.Server{ReadTimeout: found.ReadTimeout, ReadHeaderTimeout: found.ReadHeaderTimeout, WriteTimeout: found.WriteTimeout,
			IdleTimeout: found.IdleTimeout, MaxHeaderBytes: found.MaxHeaderBytes, ConnState: found.ConnState}
	}
	_ = s.Stop()
	return t
}

// wpUp is one request at an API server.
type wpUp struct {
	mu     sync.Mutex
	who    string
	state  string // asked, open, closed
	decide chan *http.Response
	queue  []byte
	end    error
	joint  bool
	notify chan struct{}
	closed chan struct{}
	ctx    context.Context
}

func (u *wpUp) poke() {
	select {
	case u.notify <- struct{}{}:
	default:
	}
}

func (u *wpUp) get() string {
	u.mu.Lock()
	defer u.mu.Unlock()
	if u.state == "open" && u.ctx.Err() != nil {
		return "closed"
	}
	return u.state
}

func (u *wpUp) set(s string) {
	u.mu.Lock()
	u.state = s
	u.mu.Unlock()
}

func (u *wpUp) Read(p []byte) (int, error) {
	for {
		if err := u.ctx.Err(); err != nil {
			u.set("closed")
			return 0, err
		}
		u.mu.Lock()
		if len(p) > 0 && len(u.queue) > 0 {
			n := copy(p, u.queue)
			u.queue = u.queue[n:]
			if len(u.queue) == 0 && u.end != nil && u.joint {
				u.mu.Unlock()
				return n, u.end
			}
			u.mu.Unlock()
			return n, nil
		}
		end := u.end
		u.mu.Unlock()
		if end != nil {
			return 0, end
		}
		select {
		case <-u.notify:
		case <-u.closed:
			return 0, errors.New("read on closed body")
		case <-u.ctx.Done():
		}
	}
}

func (u *wpUp) Close() error {
	u.mu.Lock()
	defer u.mu.Unlock()
	if u.state != "closed" {
		u.state = "closed"
		close(u.closed)
	}
	return nil
}

type wpTransport struct {
	w       *wpWorld
	cluster string
}

func (t wpTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	who := req.URL.Query().Get("fieldSelector")
	u := &wpUp{who: who, state: "asked", decide: make(chan *http.Response), notify: make(chan struct{}, 1), closed: make(chan struct{}), ctx: req.Context()}
	if req.Body != nil {
		_, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	t.w.mu.Lock()
	t.w.seen = append(t.w.seen, who)
	t.w.ups[who] = u
	t.w.all = append(t.w.all, u)
	t.w.mu.Unlock()
	select {
	case <-req.Context().Done():
		u.set("closed")
		return nil, req.Context().Err()
	case resp := <-u.decide:
		if resp == nil {
			u.set("closed")
			return nil, errors.New("connection refused")
		}
		resp.Request = req
		resp.Proto, resp.ProtoMajor, resp.ProtoMinor = "HTTP/1.1", 1, 1
		if resp.Body == nil {
			u.set("open")
			resp.Body = u
			resp.ContentLength = -1
		} else {
			u.set("closed")
		}
		return resp, nil
	}
}

// wpClient is a client with its connection.
type wpClient struct {
	mu      sync.Mutex
	conn    net.Conn
	gate    chan struct{} // open when it reads
	stalled bool
	state   string // waiting, streaming, over, left
	status  int
	ctype   bool
	got     []byte
}

// Read lets data through only while the client reads.
func (c *wpClient) Read(p []byte) (int, error) {
	n, err := c.conn.Read(p)
	for {
		c.mu.Lock()
		st, g := c.stalled, c.gate
		c.mu.Unlock()
		if !st {
			return n, err
		}
		<-g
	}
}

type wpWorld struct {
	mu   sync.Mutex
	ups  map[string]*wpUp
	all  []*wpUp
	seen []string
}

type memListener struct {
	c    chan net.Conn
	done chan struct{}
}

func (l *memListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.c:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *memListener) Close() error   { return nil }
func (l *memListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)} }

func atomBytes(a string) []byte {
	switch {
	case a == "nl":
		return []byte("\n")
	case a[0] == 'L':
		return []byte("<" + a + strings.Repeat("é\\n ", 14000) + ">")
	}
	return []byte("<" + a + "é\r\t{\"\x00>")
}

// parse reads back what was sent as atoms; what is left over is "part" of the
// next one or alien.
func parse(b []byte, atoms []string) ([]string, string) {
	got := []string{}
	for _, a := range atoms {
		ab := atomBytes(a)
		if !bytes.HasPrefix(b, ab) {
			if len(b) == 0 {
				return got, ""
			}
			if bytes.HasPrefix(ab, b) {
				return got, "part"
			}
			return got, "alien: " + fmt.Sprintf("%.60q", b)
		}
		got = append(got, a)
		b = b[len(ab):]
	}
	if len(b) > 0 {
		return got, "alien: " + fmt.Sprintf("%.60q", b)
	}
	return got, ""
}

func driveWProxy(t *testing.T, in []json.RawMessage, out *Out) {
	tmpl := serverTemplate()
	for _, raw := range in {
		var ops []wpOp
		must(raw, &ops)
		synctest.Test(t, func(t *testing.T) { runWProxy(ops, tmpl, out) })
	}
}

func runWProxy(ops []wpOp, tmpl *http.Server, out *Out) {
	w := &wpWorld{ups: map[string]*wpUp{}}
	clients := map[string]kubernetes.Interface{}
	for _, c := range []string{"c1", "c2"} {
		cs, err := kubernetes.NewForConfig(&rest.Config{Host: "http://" + c, Transport: wpTransport{w, c}, QPS: 10000, Burst: 10000})
		check(err)
		clients[c] = cs
	}
	common.InitConfig(&common.Config{DefaultCluster: "c1", Proxies: []common.Proxy{{Version: "v1", Resource: "pods", ListKind: "PodList"}}})
	gvr := store.GroupVersionResource{Version: "v1", Resource: "pods"}
	ms := memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{gvr: {"name": "{.metadata.name}"}})
	_ = ms.OnResourceAdded(gvr, "c1", &v1.Pod{ObjectMeta: metav1.ObjectMeta{Name: "p", Namespace: "ns"}})
	srv := &http.Server{Handler: muxOf(clients, ms), ReadTimeout: tmpl.ReadTimeout, ReadHeaderTimeout: tmpl.ReadHeaderTimeout,
		WriteTimeout: tmpl.WriteTimeout, IdleTimeout: tmpl.IdleTimeout, MaxHeaderBytes: tmpl.MaxHeaderBytes, ConnState: tmpl.ConnState,
		ErrorLog: stdlog.New(io.Discard, "", 0)}
	l := &memListener{c: make(chan net.Conn), done: make(chan struct{})}
	go func() { _ = srv.Serve(l) }()

	streams := map[string]*wpClient{}
	names := map[string]string{} // stream -> who of its latest request
	atoms := map[string][]string{}
	reqs := map[string]string{}
	nask := 0
	var mu sync.Mutex // reqs

	dial := func() net.Conn {
		a, b := net.Pipe()
		l.c <- b
		return a
	}
	observe := func() (M, M) {
		obs, rq := M{}, M{}
		for _, s := range []string{"s1", "s2", "s3"} {
			o := M{"cl": "none", "status": 0, "got": []string{}, "rest": "", "body": "", "up": "none", "ctype": true}
			if c := streams[s]; c != nil {
				c.mu.Lock()
				got, rest := parse(c.got, atoms[s])
				o["cl"], o["status"], o["ctype"] = c.state, c.status, c.ctype
				if c.status != 0 && c.status != 200 {
					got, rest = []string{}, ""
					o["body"] = string(c.got)
					if len(c.got) > 100 {
						o["body"] = string(c.got[:100])
					}
				}
				c.mu.Unlock()
				o["got"], o["rest"] = got, rest
				w.mu.Lock()
				u := w.ups[names[s]]
				w.mu.Unlock()
				if u != nil {
					o["up"] = u.get()
				} else {
					o["up"] = "missing"
				}
			}
			obs[s] = o
		}
		mu.Lock()
		for _, r := range []string{"r1", "r2"} {
			rq[r] = "none"
			if x := reqs[r]; x != "" {
				rq[r] = x
			}
		}
		mu.Unlock()
		return obs, rq
	}

	ask := func(o wpOp) {
		nask++
		who := fmt.Sprintf("%s-%d", o.S, nask)
		path := "/api/v1/pods?watch=" + o.Form
		if o.Form == "path" {
			path = "/api/v1/watch/pods?x=y"
		}
		path += "&fieldSelector=" + who + "&resourceVersion=dsm-cluster-" + o.Cluster
		c := &wpClient{state: "waiting", ctype: true, gate: make(chan struct{})}
		close(c.gate)
		c.conn = dial()
		streams[o.S], names[o.S], atoms[o.S] = c, who, nil
		go func() {
			fmt.Fprintf(c.conn, "GET %s HTTP/1.1\r\nHost: ckube\r\n\r\n", path)
			resp, err := http.ReadResponse(bufio.NewReader(c), nil)
			end := func() {
				c.mu.Lock()
				if c.state != "left" {
					c.state = "over"
				}
				c.mu.Unlock()
				c.conn.Close()
			}
			if err != nil {
				end()
				return
			}
			c.mu.Lock()
			c.status = resp.StatusCode
			c.ctype = strings.HasPrefix(resp.Header.Get("Content-Type"), "application/json")
			if c.state == "waiting" {
				c.state = "streaming"
			}
			c.mu.Unlock()
			b := make([]byte, 70000)
			for {
				n, err := resp.Body.Read(b)
				c.mu.Lock()
				c.got = append(c.got, b[:n]...)
				c.mu.Unlock()
				if err != nil {
					end()
					return
				}
			}
		}()
	}

	out.Emit(M{"ev": "reset"})
	for _, o := range ops {
		e := M{"ev": o.Op}
		if o.S != "" {
			e["s"] = o.S
		}
		var u *wpUp
		if o.S != "" && o.Op != "ask" {
			w.mu.Lock()
			u = w.ups[names[o.S]]
			w.mu.Unlock()
			if u == nil {
				// the request never got there: what was observed last tells
				continue
			}
		}
		decide := func(r *http.Response) {
			select {
			case u.decide <- r:
			case <-u.ctx.Done():
			}
		}
		c := streams[o.S]
		switch o.Op {
		case "ask":
			ask(o)
		case "accept":
			decide(&http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{"Content-Type": {"application/json"}}})
		case "refuse":
			e["code"] = o.Code
			decide(&http.Response{StatusCode: o.Code, Status: fmt.Sprint(o.Code), Header: http.Header{"Content-Type": {"application/json"}},
				Body: io.NopCloser(strings.NewReader("refused"))})
		case "fail":
			decide(nil)
		case "send", "end":
			q := o.Q
			if q == nil {
				q = []string{}
			}
			e["q"] = q
			atoms[o.S] = append(atoms[o.S], q...)
			u.mu.Lock()
			for _, a := range q {
				u.queue = append(u.queue, atomBytes(a)...)
			}
			if o.Op == "end" {
				e["how"] = o.How
				u.end = io.EOF
				if o.How == "broken" {
					u.end = io.ErrUnexpectedEOF
				}
				u.joint = len(q) > 0
			}
			u.mu.Unlock()
			u.poke()
		case "stall":
			c.mu.Lock()
			c.stalled, c.gate = true, make(chan struct{})
			c.mu.Unlock()
		case "unstall", "leave":
			c.mu.Lock()
			if c.stalled {
				c.stalled = false
				close(c.gate)
			}
			if o.Op == "leave" {
				c.state = "left"
				c.conn.Close()
			}
			c.mu.Unlock()
		case "advance":
			e["d"] = o.D
			time.Sleep(time.Duration(o.D) * time.Second)
		case "req":
			e["r"], e["cluster"], e["method"] = o.R, o.Cluster, o.Method
			nask++
			who := fmt.Sprintf("%s-%d", o.R, nask)
			names[o.R] = who
			mu.Lock()
			reqs[o.R] = "pending"
			mu.Unlock()
			r, conn := o.R, dial()
			go func() {
				body := ""
				if o.Method == "POST" {
					body = `{"kind":"Pod"}`
				}
				fmt.Fprintf(conn, "%s /api/v1/namespaces/ns/pods?fieldSelector=%s&resourceVersion=dsm-cluster-%s HTTP/1.1\r\nHost: ckube\r\nContent-Length: %d\r\n\r\n%s", o.Method, who, o.Cluster, len(body), body)
				resp, err := http.ReadResponse(bufio.NewReader(conn), nil)
				res := "lost"
				if err == nil {
					b, err := io.ReadAll(resp.Body)
					res = fmt.Sprint(resp.StatusCode)
					if resp.StatusCode == 200 && (err != nil || string(b) != "answer to "+who) {
						res = fmt.Sprintf("wrong %.50q", b)
					}
				}
				mu.Lock()
				reqs[r] = res
				mu.Unlock()
				conn.Close()
			}()
		case "reply":
			e["r"] = o.R
			w.mu.Lock()
			u = w.ups[names[o.R]]
			w.mu.Unlock()
			if u == nil {
				continue
			}
			decide(&http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{"Content-Type": {"application/json"}},
				Body: io.NopCloser(strings.NewReader("answer to " + names[o.R]))})
		case "get":
			conn := dial()
			code, n := 0, 0
			go func() {
				fmt.Fprintf(conn, "GET /api/v1/pods HTTP/1.1\r\nHost: ckube\r\n\r\n")
				resp, err := http.ReadResponse(bufio.NewReader(conn), nil)
				if err == nil {
					var l struct{ Items []interface{} }
					_ = json.NewDecoder(resp.Body).Decode(&l)
					code, n = resp.StatusCode, len(l.Items)
				}
				conn.Close()
			}()
			synctest.Wait()
			e["code"], e["n"] = code, n
		}
		synctest.Wait()
		e["obs"], e["reqs"] = observe()
		out.Emit(e)
	}
	// everybody leaves
	for _, c := range streams {
		c.mu.Lock()
		if c.stalled {
			c.stalled = false
			close(c.gate)
		}
		c.conn.Close()
		c.mu.Unlock()
	}
	synctest.Wait()
	open := 0
	for _, u := range w.all {
		if strings.HasPrefix(u.who, "s") && u.get() != "closed" {
			open++
		}
	}
	out.Emit(M{"ev": "gone", "open": open})
	time.Sleep(2 * time.Minute) // other requests end
	close(l.done)
	_ = srv.Close()
	time.Sleep(time.Hour)
}
