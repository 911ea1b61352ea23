package drv

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	stdlog "log"
	mrand "math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

// The real program with its two files, and three API servers it may be told to
// use. What it serves is observed by requests and by the watches it holds open.

func init() { modes["reload"] = driveReload }

type rlContent struct {
	Ok    bool
	Bad   string
	Token string
	Types []struct{ T, Ix string }
	Cur   string
	Form  string
	Ctx   []struct{ N, Up, Auth string }
}

type rlOp struct {
	F, How string
	C, Was json.RawMessage
	Cfg    json.RawMessage
	Kube   json.RawMessage
	Gap    int
}

type rlScenario struct {
	Init struct {
		Link      string
		Home      bool
		Cfg, Kube json.RawMessage
		Want      interface{}
		Probes    []struct{ T, Cl, Tok string }
	}
	Steps []struct {
		Ops  []rlOp
		Kind string
		Want interface{}
	}
}

var rlPaths = map[string]string{
	"pods":        "/api/v1/pods",
	"deployments": "/apis/apps/v1/deployments",
	"widgets":     "/apis/example.com/v1/widgets",
}

// rlUp is an API server with one object of every type.
type rlUp struct {
	name string
	srv  *httptest.Server
	mu   sync.Mutex
	open map[string]int // type|auth
}

func newRlUp(name string) *rlUp {
	u := &rlUp{name: name, open: map[string]int{}}
	u.srv = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		auth := strings.TrimPrefix(r.Header.Get("Authorization"), "Bearer ")
		typ := r.URL.Path
		for t, p := range rlPaths {
			if p == r.URL.Path {
				typ = t
			}
		}
		w.Header().Set("Content-Type", "application/json")
		if r.URL.Query().Get("watch") == "" {
			fmt.Fprintf(w, `{"from":"%s/%s"}`, name, auth)
			return
		}
		k := typ + "|" + auth
		u.mu.Lock()
		u.open[k]++
		u.mu.Unlock()
		kind := map[string]string{"pods": `"v1","kind":"Pod"`, "deployments": `"apps/v1","kind":"Deployment"`, "widgets": `"example.com/v1","kind":"Widget"`}[typ]
		fmt.Fprintf(w, `{"type":"ADDED","object":{"apiVersion":%s,"metadata":{"name":"%s-%s","namespace":"ns"}}}`+"\n", kind, name, typ)
		w.(http.Flusher).Flush()
		<-r.Context().Done()
		u.mu.Lock()
		if u.open[k]--; u.open[k] == 0 {
			delete(u.open, k)
		}
		u.mu.Unlock()
	}))
	// credentials are only sent over TLS
	u.srv.EnableHTTP2 = name != "A"
	u.srv.Config.ErrorLog = stdlog.New(io.Discard, "", 0)
	u.srv.StartTLS()
	return u
}

type rlRun struct {
	dir, cfg, kube string
	link           string
	ups            map[string]*rlUp
	url            string
	n              int
	sc             *rlScenario
	client         *http.Client
	between        func()
}

// content renders what is to be written; nil if the file is to be missing.
func (r *rlRun) content(f string, raw json.RawMessage) []byte {
	var c rlContent
	must(raw, &c)
	if f == "cfg" {
		if !c.Ok {
			good := `{"proxies":[{"group":"","version":"v1","resource":"pods","list_kind":"PodList","index":{"ix":"bad"}}],"token":"bad"}`
			return []byte(map[string]string{"empty": "", "cut": good[:len(good)-9], "array": "[" + good + "]", "types": `{"proxies": 5, "token": "bad"}`, "tail": good + "x"}[c.Bad])
		}
		gv := map[string][3]string{"pods": {"", "v1", "PodList"}, "deployments": {"apps", "v1", "DeploymentList"}, "widgets": {"example.com", "v1", "WidgetList"}}
		ps := L{}
		for _, t := range c.Types {
			ps = append(ps, M{"group": gv[t.T][0], "version": gv[t.T][1], "resource": t.T, "list_kind": gv[t.T][2],
				"index": M{"name": "{.metadata.name}", "ix": t.Ix}})
		}
		b, _ := json.MarshalIndent(M{"proxies": ps, "token": c.Token, "default_cluster": "ignored"}, "", " ")
		return append(b, '\n')
	}
	kc := func(ctx []struct{ N, Up, Auth string }, cur string) M {
		cs, us, xs := L{}, L{}, L{}
		for _, x := range ctx {
			cs = append(cs, M{"name": "c-" + x.N, "cluster": M{"server": r.ups[x.Up].srv.URL, "insecure-skip-tls-verify": true}})
			user := M{"token": x.Auth}
			if x.Auth == "s2" {
				// a file beside the one that names it
				user = M{"tokenFile": "token-s2"}
			}
			us = append(us, M{"name": "u-" + x.N, "user": user})
			xs = append(xs, M{"name": x.N, "context": M{"cluster": "c-" + x.N, "user": "u-" + x.N}})
		}
		m := M{"apiVersion": "v1", "kind": "Config", "preferences": M{}, "clusters": cs, "users": us, "contexts": xs}
		if cur != "" {
			m["current-context"] = cur
		}
		return m
	}
	if !c.Ok {
		m := kc([]struct{ N, Up, Auth string }{{"k1", "A", "bad"}, {"k2", "B", "bad"}}, "k2")
		switch c.Bad {
		case "empty":
			return []byte{}
		case "nocontexts":
			m["contexts"] = L{}
		case "otherkind":
			m["kind"] = "Other"
		case "types":
			m["clusters"] = "c-k1"
		case "badca", "halfbad":
			// of the first or the second context
			c := m["clusters"].(L)[map[string]int{"badca": 0, "halfbad": 1}[c.Bad]].(M)["cluster"].(M)
			delete(c, "insecure-skip-tls-verify")
			c["certificate-authority"] = filepath.Join(r.dir, "no-such-ca")
		}
		b, _ := json.Marshal(m)
		if c.Bad == "cut" {
			b = b[:len(b)-7]
		}
		return b
	}
	m := kc(c.Ctx, c.Cur)
	if c.Form == "json" {
		b, _ := json.Marshal(m)
		return b
	}
	return []byte(yamlOf(m, ""))
}

func yamlOf(v interface{}, in string) string {
	var b strings.Builder
	switch v := v.(type) {
	case M:
		ks := []string{}
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			switch x := v[k].(type) {
			case bool:
				fmt.Fprintf(&b, "%s%s: %v\n", in, k, x)
			case string:
				fmt.Fprintf(&b, "%s%s: %q\n", in, k, x)
			case M:
				if len(x) == 0 {
					fmt.Fprintf(&b, "%s%s: {}\n", in, k)
				} else {
					fmt.Fprintf(&b, "%s%s:\n%s", in, k, yamlOf(x, in+"  "))
				}
			case L:
				if len(x) == 0 {
					fmt.Fprintf(&b, "%s%s: []\n", in, k)
				} else {
					fmt.Fprintf(&b, "%s%s:\n%s", in, k, yamlOf(x, in))
				}
			}
		}
	case L:
		for _, x := range v {
			s := yamlOf(x, in+"  ")
			fmt.Fprintf(&b, "%s- %s", in, strings.TrimPrefix(s, in+"  "))
		}
	}
	return b.String()
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

func (r *rlRun) fresh(name string) string {
	r.n++
	return filepath.Join(r.dir, fmt.Sprintf("%s-%d", name, r.n))
}

func (r *rlRun) pathOf(f string) string {
	if f == "cfg" {
		return r.cfg
	}
	return r.kube
}

// put creates the file f where there is none.
func (r *rlRun) put(f string, b []byte) {
	p := r.pathOf(f)
	if r.link == "file" {
		t := r.fresh("target")
		check(os.WriteFile(t, b, 0o644))
		check(os.Symlink(t, p))
		return
	}
	check(os.WriteFile(p, b, 0o644))
}

// looksLike gives the new file at t the time of the old one that is called p, and its size if that does no harm.
func (r *rlRun) looksLike(t, p string) {
	info, err := os.Stat(p)
	if err != nil || r.n%2 == 1 {
		return
	}
	if b, err := os.ReadFile(t); err == nil && len(b) > 0 && b[len(b)-1] == '\n' && int64(len(b)) < info.Size() {
		check(os.WriteFile(t, append(b, bytes.Repeat([]byte("\n"), int(info.Size())-len(b))...), 0o644))
	}
	check(os.Chtimes(t, info.ModTime(), info.ModTime()))
}

func (r *rlRun) swing(cfg, kube []byte, kept bool) {
	d := r.fresh("v")
	check(os.Mkdir(d, 0o755))
	for n, b := range map[string][]byte{"cfg": cfg, "kube": kube} {
		if b != nil {
			check(os.WriteFile(filepath.Join(d, n), b, 0o644))
			r.looksLike(filepath.Join(d, n), filepath.Join(r.dir, "..data", n))
		}
	}
	data := filepath.Join(r.dir, "..data")
	old, _ := os.Readlink(data)
	tmp := r.fresh("tmp")
	check(os.Symlink(d, tmp))
	check(os.Rename(tmp, data))
	if old != "" && !kept {
		check(os.RemoveAll(old))
	}
}

func (r *rlRun) op(o rlOp) {
	time.Sleep(time.Duration(o.Gap) * time.Millisecond)
	if strings.HasPrefix(o.How, "swing") {
		r.swing(r.content("cfg", o.Cfg), r.content("kube", o.Kube), o.How == "swingkept")
		return
	}
	p := r.pathOf(o.F)
	target := ""
	if r.link == "file" {
		target, _ = os.Readlink(p)
	}
	switch o.How {
	case "create":
		r.put(o.F, r.content(o.F, o.C))
	case "inplace":
		check(os.WriteFile(p, r.content(o.F, o.C), 0o644))
	case "churn":
		// written over and over, in place
		was, now := r.content(o.F, o.Was), r.content(o.F, o.C)
		for i := 0; i < 120; i++ {
			b := was
			if i%2 == 1 {
				b = now
			}
			check(os.WriteFile(p, b, 0o644))
			time.Sleep(time.Duration(mrand.Intn(6000)) * time.Microsecond)
			if i%30 == 29 {
				r.between()
			}
		}
	case "chmod":
		check(os.Chmod(p, 0o600))
	case "away":
		check(os.Rename(p, r.fresh("away")))
	case "over", "overkept":
		tmp := r.fresh("tmp")
		if r.link == "file" {
			t := r.fresh("target")
			check(os.WriteFile(t, r.content(o.F, o.C), 0o644))
			r.looksLike(t, p)
			check(os.Symlink(t, tmp))
		} else {
			check(os.WriteFile(tmp, r.content(o.F, o.C), 0o644))
			r.looksLike(tmp, p)
			if o.How == "overkept" {
				check(os.Link(p, r.fresh("kept")))
			}
		}
		check(os.Rename(tmp, p))
		if target != "" && o.How == "over" {
			check(os.Remove(target))
		}
	case "remove", "removekept":
		if r.link != "file" && o.How == "removekept" {
			check(os.Link(p, r.fresh("kept")))
		}
		check(os.Remove(p))
		if target != "" && o.How == "remove" {
			check(os.Remove(target))
		}
	default:
		panic("unknown op " + o.How)
	}
}

func (r *rlRun) probe(t, cl, tok string) M {
	u := r.url + rlPaths[t]
	if cl != "" {
		u += "?resourceVersion=dsm-cluster-" + cl
	}
	req, _ := http.NewRequest("GET", u, nil)
	if tok != "" {
		req.Header.Set("Authorization", "Bearer "+tok)
	}
	resp, err := r.client.Do(req)
	if err != nil {
		return M{"code": 0.0, "via": err.Error(), "items": L{}}
	}
	defer resp.Body.Close()
	b, _ := io.ReadAll(resp.Body)
	m := M{}
	_ = json.Unmarshal(b, &m)
	a := M{"code": float64(resp.StatusCode), "via": "none", "items": L{}}
	if resp.StatusCode == 401 {
		a["via"] = "auth"
	}
	if from, ok := m["from"].(string); ok {
		a["via"], a["items"] = "fwd", L{from}
	} else if items, ok := m["items"].([]interface{}); ok {
		ss := []string{}
		for _, it := range items {
			meta := it.(M)["metadata"].(M)
			an, _ := meta["annotations"].(M)
			ix := M{}
			s, _ := an["ckube.daocloud.io/indexes"].(string)
			_ = json.Unmarshal([]byte(s), &ix)
			ss = append(ss, fmt.Sprintf("%v/%v/%v", an["ckube.doacloud.io/cluster"], meta["name"], ix["ix"]))
		}
		sort.Strings(ss)
		l := L{}
		for _, s := range ss {
			l = append(l, s)
		}
		a["via"], a["items"] = "cache", l
	}
	return a
}

// observe asks everything and looks at the open watches.
func (r *rlRun) observe() M {
	ans := L{}
	for _, p := range r.sc.Init.Probes {
		ans = append(ans, r.probe(p.T, p.Cl, p.Tok))
	}
	open := L{}
	for _, u := range r.ups {
		u.mu.Lock()
		for k, n := range u.open {
			ta := strings.SplitN(k, "|", 2)
			open = append(open, M{"up": u.name, "t": ta[0], "auth": ta[1], "n": float64(n)})
		}
		u.mu.Unlock()
	}
	return M{"ans": ans, "open": sorted(open), "count": r.counts()}
}

var (
	rlGauge = regexp.MustCompile(`^ckube_resources_total\{(.*)\} (\S+)$`)
	rlLabel = regexp.MustCompile(`(\w+)="((?:[^"\\]|\\.)*)"`)
)

// counts is what /metrics says is cached.
func (r *rlRun) counts() L {
	l := L{}
	resp, err := r.client.Get(r.url + "/metrics")
	if err != nil {
		return append(l, M{"cl": err.Error(), "t": "", "n": 0.0})
	}
	defer resp.Body.Close()
	sc := bufio.NewScanner(resp.Body)
	for sc.Scan() {
		m := rlGauge.FindStringSubmatch(sc.Text())
		if m == nil {
			continue
		}
		x := map[string]string{}
		for _, p := range rlLabel.FindAllStringSubmatch(m[1], -1) {
			x[p[1]] = p[2]
		}
		t := x["resource"]
		if x["namespace"] != "ns" || rlPaths[t] == "" || !strings.Contains(rlPaths[t], x["group"]+"/"+x["version"]+"/") {
			t = fmt.Sprint(x)
		}
		n, err := strconv.ParseFloat(m[2], 64)
		if err != nil {
			return append(l, M{"cl": err.Error(), "t": "", "n": 0.0})
		}
		if n != 0 {
			l = append(l, M{"cl": x["cluster"], "t": t, "n": n})
		}
	}
	return sorted(l)
}

func sorted(l L) L {
	sort.Slice(l, func(i, j int) bool {
		a, _ := json.Marshal(l[i])
		b, _ := json.Marshal(l[j])
		return bytes.Compare(a, b) < 0
	})
	return l
}

// normal sorts what the specification prints as sets.
func normal(v interface{}) interface{} {
	m := v.(M)
	for _, a := range m["ans"].([]interface{}) {
		sorted(a.(M)["items"].([]interface{}))
	}
	sorted(m["open"].([]interface{}))
	sorted(m["count"].([]interface{}))
	return m
}

func driveReload(t *testing.T, in []json.RawMessage, out *Out) {
	bin := os.Getenv("VERIF_CKUBE")
	par := envInt("VERIF_PAR", 24)
	var mu sync.Mutex
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for i := range in {
		i := i
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			evs := reloadOne(bin, i, in[i])
			<-sem
			mu.Lock()
			defer mu.Unlock()
			for _, e := range evs {
				out.Emit(e)
			}
		}()
	}
	wg.Wait()
}

func reloadOne(bin string, i int, raw json.RawMessage) (evs []M) {
	sc := &rlScenario{}
	must(raw, sc)
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "reload")
	check(err)
	defer os.RemoveAll(dir)
	r := &rlRun{dir: dir, sc: sc, link: sc.Init.Link, ups: map[string]*rlUp{}, client: &http.Client{Timeout: 10 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 4}}}
	for _, n := range []string{"A", "B", "C"} {
		r.ups[n] = newRlUp(n)
	}
	defer func() {
		for _, u := range r.ups {
			u.srv.CloseClientConnections()
			u.srv.Close()
		}
		r.client.CloseIdleConnections()
	}()
	home := filepath.Join(dir, "home")
	check(os.MkdirAll(filepath.Join(home, ".kube"), 0o755))
	r.cfg = filepath.Join(dir, "config.json")
	check(os.Mkdir(filepath.Join(dir, "kc"), 0o755))
	r.kube = filepath.Join(dir, "kc", "kube.yaml")
	if sc.Init.Home {
		r.kube = filepath.Join(home, ".kube", "config")
	}
	check(os.WriteFile(filepath.Join(filepath.Dir(r.kube), "token-s2"), []byte("s2"), 0o644))
	if r.link == "dir" {
		r.swing(r.content("cfg", sc.Init.Cfg), r.content("kube", sc.Init.Kube), false)
		check(os.Symlink(filepath.Join(dir, "..data", "cfg"), r.cfg))
		check(os.Symlink(filepath.Join(dir, "..data", "kube"), r.kube))
	} else {
		r.put("cfg", r.content("cfg", sc.Init.Cfg))
		r.put("kube", r.content("kube", sc.Init.Kube))
	}
	var cmd *exec.Cmd
	var log bytes.Buffer
	exited := make(chan error, 1)
	for try := 0; ; try++ {
		// an address nobody else uses
		addr := fmt.Sprintf("127.7.%d.%d:%d", 1+i/200, 1+i%200, 10000+(os.Getpid()*5+try)%50000)
		if c, err := net.DialTimeout("tcp", addr, time.Second); err == nil && try < 50 {
			c.Close()
			continue
		}
		r.url = "http://" + addr
		args := []string{"-a", addr, "-c", r.cfg}
		if !sc.Init.Home {
			args = append(args, "-k", r.kube)
		}
		if try%2 == 0 && strings.HasPrefix(r.cfg, dir) {
			// relative, not clean
			args[3] = ".//" + filepath.Base(r.cfg)
		}
		cmd = exec.Command(bin, args...)
		cmd.Dir = dir
		cmd.Env = []string{"HOME=" + home, "PATH=/usr/bin:/bin", "GOMAXPROCS=2"}
		log.Reset()
		cmd.Stdout, cmd.Stderr = &log, &log
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		check(cmd.Start())
		go func(c *exec.Cmd) { exited <- c.Wait() }(cmd)
		up := false
		for t0 := time.Now(); time.Since(t0) < 20*time.Second && !up; {
			c, err := net.DialTimeout("tcp", addr, time.Second)
			if err == nil {
				c.Close()
				up = true
				break
			}
			select {
			case <-exited:
				cmd = nil
			case <-time.After(20 * time.Millisecond):
			}
			if cmd == nil {
				break
			}
		}
		if up {
			break
		}
		if cmd != nil {
			_ = cmd.Process.Kill()
			<-exited
		}
		if try >= 4 {
			// files it can load, and yet it does not come up
			evs = append(evs, M{"ev": "reset", "cfg": sc.Init.Cfg, "kube": sc.Init.Kube, "link": r.link, "home": sc.Init.Home})
			evs = append(evs, M{"ev": "exit", "err": "does not start", "log": log.String()})
			return
		}
	}
	over := false
	defer func() {
		if !over {
			_ = cmd.Process.Kill()
			<-exited
		}
	}()
	died := func() bool {
		if over {
			return true
		}
		select {
		case err := <-exited:
			over = true
			s := log.String()
			if len(s) > 3000 {
				s = s[len(s)-3000:]
			}
			evs = append(evs, M{"ev": "exit", "err": fmt.Sprint(err), "log": s})
			return true
		default:
			return false
		}
	}
	// settle observes until what is wanted is seen, or for long enough.
	settle := func(kind string, want interface{}) bool {
		want = normal(want)
		t0 := time.Now()
		var last M
		seen := 0
		for {
			o := r.observe()
			if died() {
				return false
			}
			el := time.Since(t0)
			same := reflect.DeepEqual(interface{}(o), want)
			done := el > 25*time.Second
			switch kind {
			case "load":
				// seen twice
				if same {
					seen++
				} else {
					seen = 0
				}
				done = done || seen > 1
			case "keep":
				done = el > 3500*time.Millisecond
			case "any":
				done = el > 5*time.Second
			}
			if done {
				evs = append(evs, M{"ev": "settled", "obs": o, "kind": kind, "ms": el.Milliseconds()})
				return true
			}
			if !reflect.DeepEqual(o, last) {
				evs = append(evs, M{"ev": "seen", "obs": o, "ms": el.Milliseconds()})
				last = o
			}
			time.Sleep(100 * time.Millisecond)
		}
	}
	evs = append(evs, M{"ev": "reset", "cfg": sc.Init.Cfg, "kube": sc.Init.Kube, "link": r.link, "home": sc.Init.Home})
	if !settle("load", sc.Init.Want) {
		return
	}
	r.between = func() {
		if o := r.observe(); !died() {
			evs = append(evs, M{"ev": "seen", "obs": o, "ms": 0})
		}
	}
	for _, st := range sc.Steps {
		for _, o := range st.Ops {
			e := M{"ev": "op", "how": o.How, "gap": o.Gap}
			if o.Cfg != nil {
				e["cfg"], e["kube"] = o.Cfg, o.Kube
			} else {
				e["f"], e["c"] = o.F, o.C
			}
			evs = append(evs, e)
			r.op(o)
		}
		if !settle(st.Kind, st.Want) {
			return
		}
	}
	return
}
