package drv

import (
	"encoding/json"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
)

func init() { modes["plugin"] = drivePlugin }

type pluginTok struct {
	K    string   `json:"k"`
	Name string   `json:"name"`
	Form string   `json:"form"`
	Val  string   `json:"val"`
	Cs   []string `json:"cs"`
	Reqs []reqDef `json:"reqs"`
}

func (p pluginTok) words() []string {
	if p.K == "word" {
		return []string{p.Val}
	}
	switch p.Form {
	case "sep":
		return []string{p.Name, p.Val}
	case "eq":
		return []string{p.Name + "=" + p.Val}
	}
	return []string{p.Name + p.Val}
}

const kubectlStandIn = `#!/bin/sh
cat > "$STANDIN/stdin"
echo x >> "$STANDIN/runs"
for a in "$@"; do printf '%s\0' "$a"; done > "$STANDIN/args"
printf out-marker
printf err-marker >&2
exit $KEXIT
`

// drivePlugin runs the real wrapper with a stand-in kubectl that records its arguments.
func drivePlugin(t *testing.T, in []json.RawMessage, out *Out) {
	bin := os.Getenv("VERIF_PLUGIN")
	dir := os.Getenv("VERIF_SCRATCH")
	binDir := filepath.Join(dir, "bin")
	if err := os.MkdirAll(binDir, 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(binDir, "kubectl"), []byte(kubectlStandIn), 0o755); err != nil {
		panic(err)
	}
	for si, raw := range in {
		var sc struct {
			Cfg struct {
				Deflt string                         `json:"deflt"`
				Conf  map[string]map[string][]string `json:"conf"`
			} `json:"cfg"`
			Objs  []objDef `json:"objs"`
			Lines []struct {
				Toks []pluginTok `json:"toks"`
				Rest []string    `json:"rest"`
			} `json:"lines"`
		}
		must(raw, &sc)
		w := newWorld(sc.Cfg.Deflt, "", sc.Cfg.Conf, nil)
		for _, o := range sc.Objs {
			w.apply("put", "pods", "", o)
		}
		out.Emit(M{"ev": "reset", "cfg": sc.Cfg, "objs": sc.Objs})
		evs := make([]M, len(sc.Lines))
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		for i := range sc.Lines {
			i := i
			wg.Add(1)
			sem <- true
			go func() {
				defer func() { <-sem; wg.Done() }()
				evs[i] = runPlugin(bin, binDir, filepath.Join(dir, strconv.Itoa(si)+"-"+strconv.Itoa(i)), i, sc.Lines[i].Toks, sc.Lines[i].Rest, w.handler)
			}()
		}
		wg.Wait()
		for _, e := range evs {
			out.Emit(e)
		}
	}
}

func runPlugin(bin, binDir, dir string, i int, toks []pluginTok, rest []string, h http.Handler) M {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	args := []string{}
	for j := range toks {
		args = append(args, toks[j].words()...)
		if toks[j].Cs == nil {
			toks[j].Cs = []string{}
		}
		if toks[j].Reqs == nil {
			toks[j].Reqs = []reqDef{}
		}
		for k := range toks[j].Reqs {
			if toks[j].Reqs[k].Vals == nil {
				toks[j].Reqs[k].Vals = []string{}
			}
		}
	}
	args = append(args, rest...)
	kexit := []int{0, 0, 1, 3, 0, 130, 137, 2, 255, 128, 127, 143}[i%12]
	c := exec.Command(bin, args...)
	c.Env = []string{"PATH=" + binDir + ":/usr/bin:/bin", "STANDIN=" + dir, "KEXIT=" + strconv.Itoa(kexit), "HOME=" + dir}
	c.Dir = dir
	c.Stdin = strings.NewReader("in-marker")
	var so, se strings.Builder
	c.Stdout, c.Stderr = &so, &se
	exit := 0
	if err := c.Run(); err != nil {
		exit = -1
		if ee, ok := err.(*exec.ExitError); ok {
			exit = ee.ExitCode()
		}
	}
	read := func(f string) string {
		b, _ := os.ReadFile(filepath.Join(dir, f))
		return string(b)
	}
	runs := strings.Count(read("runs"), "\n")
	got := []string{}
	if a := read("args"); a != "" {
		got = strings.Split(strings.TrimSuffix(a, "\x00"), "\x00")
	}
	sels := L{}
	for _, word := range got {
		ids := L{}
		for _, p := range []string{"--selector=", "-l=", "-l"} {
			if strings.HasPrefix(word, p) {
				word = word[len(p):]
				break
			}
		}
		if strings.Contains(word, "ckube.daocloud.io") {
			st, _, b := call(h, "GET", "/api/v1/pods?labelSelector="+url.QueryEscape(word), "", "")
			ids = itemsOf("list", st, b)
		}
		sels = append(sels, ids)
	}
	return M{"ev": "line", "toks": toks, "rest": rest, "runs": runs, "exit": exit, "kexit": kexit, "got": got, "sels": sels,
		"io": read("stdin") == "in-marker" && strings.HasSuffix(so.String(), "out-marker") && strings.Contains(se.String(), "err-marker")}
}
