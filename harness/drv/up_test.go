package drv

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"sync"

	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"
)

// upstream is a stand-in API server on the loopback interface. It records what
// reaches it and answers as told.
type upstream struct {
	name   string
	srv    *httptest.Server
	mu     sync.Mutex
	got    []upReq
	answer func(w http.ResponseWriter, r *http.Request, body []byte)
}

type upReq struct {
	Method, Path, Query, CT, Body, Auth string
}

func newUpstream(name string) *upstream {
	u := &upstream{name: name}
	u.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		u.mu.Lock()
		u.got = append(u.got, upReq{r.Method, r.URL.EscapedPath(), r.URL.RawQuery, r.Header.Get("Content-Type"), string(b), r.Header.Get("Authorization")})
		a := u.answer
		u.mu.Unlock()
		if a != nil {
			a(w, r, b)
			return
		}
		w.Header().Set("Content-Type", "application/json")
		fmt.Fprintf(w, `{"kind":"Status","apiVersion":"v1","status":"Success","from":%q}`, name)
	}))
	return u
}

func (u *upstream) client() kubernetes.Interface {
	return clientFor(u.srv.URL)
}

func clientFor(host string) kubernetes.Interface {
	c, err := kubernetes.NewForConfig(&rest.Config{Host: host, QPS: 10000, Burst: 10000})
	if err != nil {
		panic(err)
	}
	return c
}

func (u *upstream) take() []upReq {
	u.mu.Lock()
	defer u.mu.Unlock()
	r := u.got
	u.got = nil
	return r
}

// deadAddr is an address nothing listens on.
func deadAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	a := l.Addr().String()
	l.Close()
	return a
}

var _ = bytes.NewReader
