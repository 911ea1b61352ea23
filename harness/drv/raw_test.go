package drv

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"k8s.io/client-go/kubernetes"
)

func init() { modes["raw"] = driveRaw }

const patience = 60 * time.Second

type rawStep struct {
	listStep
	Kind string   `json:"kind"` // query, frame, down or abort
	B64  []string `json:"b64"`  // requests, sent at the same time
	Meth string   `json:"meth"`
}

// rawSend writes the bytes of a request to the server and reads the answer's status.
// 0: the connection was closed without an answer, -1: nothing happened.
func rawSend(addr string, b []byte, abort, half bool) int {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		return 0
	}
	defer c.Close()
	_ = c.SetDeadline(time.Now().Add(patience))
	go func() {
		_, _ = c.Write(b)
		if abort {
			c.Close()
			return
		}
		if half { // or the server would wait for the rest of a broken message
			_ = c.(*net.TCPConn).CloseWrite()
		}
	}()
	if abort {
		_, _ = io.Copy(io.Discard, c)
		return 0
	}
	m := strings.SplitN(string(b), " ", 2)[0]
	resp, err := http.ReadResponse(bufio.NewReader(c), &http.Request{Method: m})
	if err != nil {
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			return -1
		}
		return 0
	}
	_, err = io.Copy(io.Discard, resp.Body)
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		return -1
	}
	return resp.StatusCode
}

func driveRaw(t *testing.T, in []json.RawMessage, out *Out) {
	ups := map[string]*upstream{}
	clients := map[string]kubernetes.Interface{}
	for _, raw := range in {
		var sc struct {
			listScenario
			Ups   []string  `json:"ups"`
			Steps []rawStep `json:"steps"`
		}
		must(raw, &sc)
		for _, n := range sc.Ups {
			if ups[n] == nil {
				ups[n] = newUpstream(n)
				clients[n] = ups[n].client()
			}
		}
		clients["dead"] = clientFor("http://" + deadAddr())
		w := newWorld(sc.Deflt, "", sc.Types, clients)
		srv := httptest.NewServer(w.handler)
		addr := srv.Listener.Addr().String()
		kinds := M{}
		for ty := range sc.Types {
			kinds[ty] = typeTable[ty].kind + "List"
		}
		out.Emit(M{"ev": "reset", "cfg": M{"deflt": sc.Deflt, "conf": sc.Types, "kinds": kinds}})
		for i, s := range sc.Steps {
			done := make(chan []M, 1)
			go func(s rawStep) {
				switch s.Op {
				case "put", "mod", "del":
					var d objDef
					must(s.O, &d)
					w.apply(s.Op, s.T, "", d)
					ev := "put"
					if s.Op == "del" {
						ev = "del"
					}
					done <- []M{{"ev": ev, "t": s.T, "o": s.O}}
				case "clear":
					w.apply("clear", s.T, s.C, objDef{})
					done <- []M{{"ev": "clear", "t": s.T, "c": s.C}}
				case "get":
					done <- []M{w.get(s.listStep)}
				case "raw":
					evs := make([]M, len(s.B64))
					var wg sync.WaitGroup
					for j := range s.B64 {
						wg.Add(1)
						go func(j int) {
							defer wg.Done()
							b, _ := base64.StdEncoding.DecodeString(s.B64[j])
							head := b
							if len(head) > 2000 {
								head = head[:2000]
							}
							st := rawSend(addr, b, s.Kind == "abort", s.Kind == "frame")
							evs[j] = M{"ev": "raw", "kind": s.Kind, "st": st, "head": strings.ToValidUTF8(string(head), "?")}
						}(j)
					}
					wg.Wait()
					done <- evs
				default:
					done <- []M{w.request(s.listStep)}
				}
			}(s)
			select {
			case evs := <-done:
				for _, e := range evs {
					out.Emit(e)
				}
			case <-time.After(2 * patience):
				out.Emit(M{"ev": "hang", "step": i, "op": s.Op})
				out.w.Flush()
				t.Fatal("hang")
			}
		}
		srv.CloseClientConnections()
		srv.Close()
	}
	for _, u := range ups {
		u.srv.CloseClientConnections()
	}
}
