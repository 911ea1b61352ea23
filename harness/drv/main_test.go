// Package drv is the driver of the conformance checks in /verif: it runs
// scenarios against the real ckube code and records what can be observed, as
// one JSON event per line. It contains no judgement: the recorded events are
// judged by the TLA+ specifications in /verif/spec.
package drv

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"strconv"
	"testing"

	"github.com/sirupsen/logrus"

	"github.com/DaoCloud/ckube/log"
)

type M = map[string]interface{}
type L = []interface{}

var modes = map[string]func(t *testing.T, in []json.RawMessage, out *Out){}

// Out writes events.
type Out struct{ w *bufio.Writer }

func (o *Out) Emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	o.w.Write(b)
	o.w.WriteByte('\n')
	o.w.Flush() // what happened before a crash must be on record
}

func seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

func envInt(k string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return d
}

func readScenarios(path string) []json.RawMessage {
	if path == "" {
		return nil
	}
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	r := bufio.NewReaderSize(f, 1<<20)
	var res []json.RawMessage
	for {
		line, err := r.ReadBytes('\n')
		if len(line) > 1 {
			res = append(res, json.RawMessage(append([]byte{}, line...)))
		}
		if err == io.EOF {
			return res
		}
		if err != nil {
			panic(err)
		}
	}
}

func must(b []byte, v interface{}) {
	if err := json.Unmarshal(b, v); err != nil {
		panic(fmt.Sprintf("%v in %s", err, b))
	}
}

func TestDrive(t *testing.T) {
	mode := os.Getenv("VERIF_MODE")
	if mode == "" {
		t.Skip("no mode")
	}
	fn, ok := modes[mode]
	if !ok {
		t.Fatalf("unknown mode %q", mode)
	}
	logrus.SetLevel(logrus.PanicLevel)
	log.AccessLog.SetOutput(io.Discard)
	f, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	out := &Out{w: bufio.NewWriterSize(f, 1<<20)}
	fn(t, readScenarios(os.Getenv("VERIF_IN")), out)
	out.w.Flush()
	if err := f.Close(); err != nil {
		t.Fatal(err)
	}
}
