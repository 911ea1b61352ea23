package drv

import (
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/client-go/kubernetes"

	"github.com/DaoCloud/ckube/page"
)

func init() { modes["gate"] = driveGate }

type gateReq struct {
	M     string              `json:"m"`
	Shape string              `json:"shape"`
	T     string              `json:"t"`
	NS    string              `json:"ns"`
	N     string              `json:"n"`
	Path  string              `json:"path"`
	Opts  map[string][]string `json:"opts"`
	Sel   struct {
		Kind string   `json:"kind"`
		Reqs []reqDef `json:"reqs"`
		Raw  string   `json:"raw"`
	} `json:"sel"`
	Mark struct {
		How string `json:"how"`
		C   string `json:"c"`
	} `json:"mark"`
	Auth  string `json:"auth"`
	Body  string `json:"body"`
	Plain string `json:"plain"`
	CT    string `json:"ct"`
}

type gateAnswer struct {
	St   int    `json:"st"`
	Body string `json:"body"`
	CT   string `json:"ct"`
	Loc  string `json:"loc"`
}

type gateStep struct {
	Op   string      `json:"op"`
	R    gateReq     `json:"r"`
	Hdrs [][2]string `json:"hdrs"`
	Up   gateAnswer  `json:"up"`
	Each []gateStep  `json:"each"`
}

// expand makes the long texts the input only describes: "@@big N" is N bytes, "@@opts N" delete options of that size.
func expand(s string) string {
	n := 0
	if _, err := fmt.Sscanf(s, "@@big %d", &n); err == nil {
		return strings.Repeat("0123456789abcdef\n", n/17+1)[:n]
	}
	if _, err := fmt.Sscanf(s, "@@opts %d", &n); err == nil {
		return `{"dryRun":["All"],"preconditions":{"uid":"` + strings.Repeat("u", n) + `"}}`
	}
	return s
}

// short names a long text by its length and digest.
func short(s string) string {
	if len(s) < 30000 {
		return s
	}
	return fmt.Sprintf("long:%d:%s", len(s), digest([]byte(s)))
}

func digest(b []byte) string { return fmt.Sprintf("%x", sha256.Sum256(b))[:16] }

// canonJSON drops insignificant differences of delete options.
func canonJSON(s string) string {
	m := map[string]interface{}{}
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if d.Decode(&m) != nil {
		return s
	}
	if l, ok := m["dryRun"].([]interface{}); ok && len(l) == 0 || m["dryRun"] == nil {
		delete(m, "dryRun")
	}
	return toJSON(m)
}

func (s *gateStep) target() string {
	vals := url.Values{}
	for k, v := range s.R.Opts {
		vals[k] = append([]string{}, v...)
	}
	ls := ""
	switch s.R.Sel.Kind {
	case "plain", "embed":
		ls = renderReqs(s.R.Sel.Reqs)
	case "bad", "badembed":
		ls = s.R.Sel.Raw
	}
	if s.R.Mark.How == "embed" || s.R.Sel.Kind == "embed" {
		p := page.Paginate{}
		if s.R.Mark.How == "embed" {
			if err := p.Clusters([]string{s.R.Mark.C}); err != nil {
				panic(err)
			}
		}
		o, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: ls}, p)
		if err != nil {
			panic(err)
		}
		ls = o.LabelSelector
	}
	if s.R.Sel.Kind != "none" {
		vals.Set("labelSelector", ls)
	}
	switch s.R.Mark.How {
	case "rv":
		o, err := page.QueryGetOptions(metav1.GetOptions{}, s.R.Mark.C)
		if err != nil {
			panic(err)
		}
		vals.Set("resourceVersion", o.ResourceVersion)
	case "fm":
		o, err := page.QueryCreateOptions(metav1.CreateOptions{}, s.R.Mark.C)
		if err != nil {
			panic(err)
		}
		vals.Set("fieldManager", o.FieldManager)
	case "param":
		vals.Set("cluster", s.R.Mark.C)
	}
	if len(vals) == 0 {
		return s.R.Path
	}
	return s.R.Path + "?" + vals.Encode()
}

func (s *gateStep) send(base string) (int, []byte, error) {
	req, err := http.NewRequest(s.R.M, base+s.target(), strings.NewReader(expand(s.R.Body)))
	if err != nil {
		return 0, nil, err
	}
	if s.R.Body == "" {
		req.Body = nil
		req.ContentLength = 0
	}
	if s.R.CT != "" {
		req.Header.Set("Content-Type", s.R.CT)
	}
	for _, h := range s.Hdrs {
		req.Header.Set(h[0], h[1])
	}
	cl := &http.Client{Timeout: patience, Transport: gateTransport, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	resp, err := cl.Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	var body io.Reader = resp.Body
	if resp.Header.Get("Content-Encoding") == "gzip" && s.accepts("gzip") {
		if body, err = gzip.NewReader(resp.Body); err != nil {
			return 0, nil, err
		}
	}
	b, err := io.ReadAll(body)
	return resp.StatusCode, b, err
}

// accepts: did the client say it can read that encoding?
func (s *gateStep) accepts(enc string) bool {
	for _, h := range s.Hdrs {
		if h[0] == "Accept-Encoding" && strings.Contains(h[1], enc) {
			return true
		}
	}
	return false
}

var gateTransport = &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 64}

func seenIn(b []byte, up gateAnswer) []string {
	seen := []string{}
	if bytes.Contains(b, []byte("SECRET-")) {
		seen = append(seen, "cache")
	}
	if len(up.Body) > 3 && bytes.Contains(b, []byte(up.Body)) {
		seen = append(seen, "up")
	}
	return seen
}

func itemsOf(shape string, st int, b []byte) L {
	items := L{}
	if st != 200 {
		return items
	}
	type one struct {
		metav1.ObjectMeta `json:"metadata"`
	}
	if shape == "get" {
		var o one
		if json.Unmarshal(b, &o) == nil {
			items = append(items, itemID(&o))
		}
	} else if shape == "list" {
		var l struct {
			Items []one `json:"items"`
		}
		if json.Unmarshal(b, &l) == nil {
			for i := range l.Items {
				items = append(items, itemID(&l.Items[i]))
			}
		}
	}
	return items
}

func parseSel(s string) L {
	out := L{}
	sel, err := labels.Parse(s)
	if err != nil {
		return out
	}
	rs, _ := sel.Requirements()
	for _, r := range rs {
		op := string(r.Operator())
		switch op {
		case "=", "==":
			op = "in"
		case "!=":
			op = "notin"
		}
		vs := r.Values().List()
		sort.Strings(vs)
		out = append(out, L{r.Key(), op, append([]string{}, vs...)})
	}
	return out
}

// describe shows what reached the upstreams.
func describe(ups map[string]*upstream, canonBody bool) L {
	hits := L{}
	for _, c := range sortedKeys(ups) {
		for _, h := range ups[c].take() {
			q, _ := url.ParseQuery(h.Query)
			raw := append([]string{}, q["labelSelector"]...)
			sel := L{}
			if len(raw) == 1 {
				sel = parseSel(raw[0])
			}
			q.Del("labelSelector")
			b := h.Body
			if canonBody {
				b = canonJSON(b)
			}
			hits = append(hits, M{"c": c, "m": h.Method, "p": h.Path, "q": map[string][]string(q), "rawsel": raw, "sel": sel, "b": short(b), "ct": h.CT})
		}
	}
	return hits
}

func sortedKeys(m map[string]*upstream) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// answerWith answers as an API server does, compressed to those who can read it.
func answerWith(w http.ResponseWriter, r *http.Request, a gateAnswer) {
	zip := a.St == 200 && len(a.Body) > 3 && strings.Contains(r.Header.Get("Accept-Encoding"), "gzip")
	if a.CT != "" {
		w.Header().Set("Content-Type", a.CT)
	}
	if a.Loc != "" {
		w.Header().Set("Location", a.Loc)
	}
	if a.St == 429 || a.St == 503 {
		w.Header().Set("Retry-After", "1")
	}
	if zip {
		w.Header().Set("Content-Encoding", "gzip")
		w.WriteHeader(a.St)
		z := gzip.NewWriter(w)
		_, _ = io.WriteString(z, a.Body)
		_ = z.Close()
		return
	}
	w.WriteHeader(a.St)
	_, _ = io.WriteString(w, a.Body)
}

func driveGate(t *testing.T, in []json.RawMessage, out *Out) {
	pool := map[string]*upstream{}
	for _, raw := range in {
		var sc struct {
			Cfg struct {
				Deflt  string                         `json:"deflt"`
				Token  string                         `json:"token"`
				Prefix map[string]string              `json:"prefix"`
				Conf   map[string]map[string][]string `json:"conf"`
			} `json:"cfg"`
			Objs  map[string][]json.RawMessage `json:"objs"`
			Steps []gateStep                   `json:"steps"`
		}
		must(raw, &sc)
		var rawSc struct {
			Cfg   json.RawMessage `json:"cfg"`
			Objs  json.RawMessage `json:"objs"`
			Steps []struct {
				R    M   `json:"r"`
				Each []M `json:"each"`
			} `json:"steps"`
		}
		must(raw, &rawSc)
		ups := map[string]*upstream{}
		clients := map[string]kubernetes.Interface{}
		for c, prefix := range sc.Cfg.Prefix {
			if pool[c] == nil {
				pool[c] = newUpstream(c)
			}
			ups[c] = pool[c]
			clients[c] = clientFor(pool[c].srv.URL + prefix)
		}
		w := newWorld(sc.Cfg.Deflt, sc.Cfg.Token, sc.Cfg.Conf, clients)
		for _, ty := range sortedTypes(sc.Objs) {
			for _, o := range sc.Objs[ty] {
				var d objDef
				must(o, &d)
				w.apply("put", ty, "", d)
			}
		}
		srv := httptest.NewServer(w.handler)
		out.Emit(M{"ev": "reset", "cfg": rawSc.Cfg, "objs": rawSc.Objs})
		for i := range sc.Steps {
			s := &sc.Steps[i]
			s.Up.Body = expand(s.Up.Body)
			if s.Op == "burst" {
				out.Emit(gateBurst(s, rawSc.Steps[i].Each, ups, srv.URL))
				continue
			}
			for _, u := range ups {
				u.mu.Lock()
				u.answer = func(w http.ResponseWriter, r *http.Request, b []byte) { answerWith(w, r, s.Up) }
				u.mu.Unlock()
			}
			st, b, err := s.send(srv.URL)
			e := M{"ev": "req", "r": fixPlain(rawSc.Steps[i].R), "st": st, "b": digest(b), "seen": seenIn(b, s.Up), "items": itemsOf(s.R.Shape, st, b),
				"up": M{"st": s.Up.St, "b": digest([]byte(s.Up.Body))}, "hits": describe(ups, s.R.Mark.How == "body")}
			if err != nil {
				e["err"] = err.Error()
			}
			out.Emit(e)
		}
		srv.CloseClientConnections()
		srv.Close()
	}
}

func fixPlain(r M) M {
	if b, _ := r["body"].(string); b != "" {
		r["body"] = short(expand(b))
	}
	if p, _ := r["plain"].(string); p != "" {
		r["plain"] = canonJSON(p)
	}
	return r
}

func sortedTypes(m map[string][]json.RawMessage) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func gateBurst(s *gateStep, raws []M, ups map[string]*upstream, base string) M {
	for _, u := range ups {
		u.mu.Lock()
		u.answer = func(w http.ResponseWriter, r *http.Request, b []byte) {
			i, err := strconv.Atoi(r.URL.Query().Get("rid"))
			if err != nil || i < 0 {
				w.WriteHeader(555)
				return
			}
			time.Sleep(time.Duration(i%5) * 3 * time.Millisecond)
			for _, x := range s.Each {
				if x.R.Opts["rid"][0] == strconv.Itoa(i) {
					x.Up.Body += fmt.Sprint(i)
					answerWith(w, r, x.Up)
				}
			}
		}
		u.mu.Unlock()
	}
	each := make(L, len(s.Each))
	var wg sync.WaitGroup
	for i := range s.Each {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			x := s.Each[i]
			st, b, _ := x.send(base)
			r := raws[i]["r"].(map[string]interface{})
			want := x.Up.Body + x.R.Opts["rid"][0]
			if x.Up.St == 204 {
				want = ""
			}
			each[i] = M{"r": fixPlain(r), "st": st, "b": digest(b), "up": M{"st": x.Up.St, "b": digest([]byte(want))}}
		}(i)
	}
	wg.Wait()
	return M{"ev": "burst", "each": each, "hits": describe(ups, false)}
}
