# Planted bugs: id -> property, edits to original lines, demonstration (an in-package test TestZZDemo).
SEEDS = {}
def seed(id, prop, pkg, needs, breaks, edits, test, **k):
    SEEDS[id] = dict(prop=prop, pkg=pkg, needs=needs, breaks=breaks, edits=edits, test=test, **k)

seed("c04-partial-body", "C04", "listener",
 "an HTTP write request whose body fails after some data was read",
 "the data of a request body which breaks off is added to the batch but the batch limits are not checked, so a full batch stays unsent",
 [("listener/listener.go", """	bytesRead, err := l.readHTTPBody(r)
	if bytesRead > 0 {""", """	bytesRead, err := l.readHTTPBody(r)
	if bytesRead > 0 && err == nil {""")],
 '''
package listener

import (
	"errors"
	"io"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/batch"
	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/stats"
)

type failing struct{ r io.Reader }

func (f failing) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset")
	}
	return n, err
}

func TestZZDemo(t *testing.T) {
	c := &config.Config{NATSSubject: []string{"s"}, BatchMaxCount: 1, BatchMaxSize: datasize.MB,
		BatchMaxAge: config.NewDuration(time.Hour)}
	l := &Listener{c: c, batch: batch.New(1 << 20),
		stats: stats.New(statReceived, statSent, statReadErrors, statFailedNATSPublish)}
	req := httptest.NewRequest("POST", "/write", failing{strings.NewReader("cpu x=1\\n")})
	l.handleHTTPWrite(httptest.NewRecorder(), req)
	if l.batch.Writes() >= c.BatchMaxCount {
		t.Fatal("batch which reached its count limit was kept")
	}
}
''')

seed("c04-uncounted-append", "C04", "batch",
 "a single addition larger than the biggest UDP packet, followed by no or little further traffic",
 "large additions are kept in the batch without counting as a write, so the batch has no age and is never sent for it",
 [("batch/batch.go", """	b.countWrite()
	b.appendImpl(more)""", """	if len(more) <= maxReadSize {
		b.countWrite()
	}
	b.appendImpl(more)""")],
 '''
package batch

import "testing"

func TestZZDemo(t *testing.T) {
	b := New(1000)
	b.Append(make([]byte, 70000))
	if b.Size() > 0 && b.Writes() == 0 {
		t.Fatal("the batch holds data but counts no write, so it never gets old")
	}
}
''')

seed("c01-control-char", "C01", "listener",
 "a packet without a final newline whose last byte is a control character such as a carriage return",
 "the newline is not added after such a packet, so the next packet's first line is joined to it",
 [("batch/batch.go", """b.buf[n-1] != '\\n'""", """b.buf[n-1] >= ' '""")],
 '''
package listener

import (
	"testing"

	"github.com/jumptrading/influx-spout/v2/batch"
)

func TestZZDemo(t *testing.T) {
	b := batch.New(1000)
	b.Append([]byte("cpu x=1\\r"))
	b.EnsureNewline()
	b.Append([]byte("mem x=2\\n"))
	if string(b.Bytes()) != "cpu x=1\\r\\nmem x=2\\n" {
		t.Fatalf("lines ran together: %q", b.Bytes())
	}
}
''')

seed("c05-wait-unlocked", "C05", "listener",
 "the age watcher looking at the batch while a write request updates it",
 "the batch age is read without holding the lock which guards the batch",
 [("listener/listener.go", """		l.mu.Lock()
		waitTime := l.c.BatchMaxAge.Duration - l.batch.Age()
		l.mu.Unlock()
""", """		waitTime := l.c.BatchMaxAge.Duration - l.batch.Age()
""")],
 '''
package listener

import (
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/batch"
	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/stats"
)

func TestZZDemo(t *testing.T) {
	c := &config.Config{NATSSubject: []string{"s"}, BatchMaxCount: 10000, BatchMaxSize: datasize.MB,
		BatchMaxAge: config.NewDuration(time.Millisecond)}
	l := &Listener{c: c, batch: batch.New(1 << 20), stop: make(chan struct{}),
		stats: stats.New(statReceived, statSent, statReadErrors, statFailedNATSPublish)}
	l.wg.Add(1)
	go l.oldBatchSender()
	for i := 0; i < 400; i++ {
		req := httptest.NewRequest("POST", "/write", strings.NewReader("cpu x=1\\n"))
		l.handleHTTPWrite(httptest.NewRecorder(), req)
		time.Sleep(100 * time.Microsecond)
	}
	close(l.stop)
	l.wg.Wait()
}
''', flags="-race")

seed("c03-give-up", "C03", "listener",
 "a batch larger than a NATS message of which the first piece can't be published",
 "after a failed publish the rest of the batch is thrown away without being published",
 [("listener/listener.go", """			l.stats.Inc(statFailedNATSPublish)
			l.handleNatsError(err)
		}
	}
	l.batch.Reset()""", """			l.stats.Inc(statFailedNATSPublish)
			l.handleNatsError(err)
			break
		}
	}
	l.batch.Reset()""")],
 '''
package listener

import (
	"bytes"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/batch"
	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/stats"
	"github.com/nats-io/nats-server/v2/server"
	"github.com/nats-io/nats-server/v2/test"
	"github.com/nats-io/nats.go"
)

func TestZZDemo(t *testing.T) {
	opts := test.DefaultTestOptions
	opts.Port = -1
	opts.MaxPayload = 1000
	s := server.New(&opts)
	go s.Start()
	defer s.Shutdown()
	if !s.ReadyForConnections(20 * time.Second) {
		t.Fatal("no NATS")
	}
	nc, err := nats.Connect(s.ClientURL())
	if err != nil {
		t.Fatal(err)
	}
	defer nc.Close()
	sub, err := nc.SubscribeSync("s")
	if err != nil {
		t.Fatal(err)
	}
	c := &config.Config{NATSSubject: []string{"s"}, BatchMaxCount: 1, BatchMaxSize: datasize.MB,
		BatchMaxAge: config.NewDuration(time.Hour)}
	l := &Listener{c: c, nc: nc, batch: batch.New(1 << 20),
		stats: stats.New(statReceived, statSent, statReadErrors, statFailedNATSPublish)}
	// the first piece is too large for this server, the second isn't
	l.batch.Append(append(bytes.Repeat([]byte("x"), int(config.MaxNATSMsgSize)-1), '\\n'))
	l.batch.Append([]byte("cpu x=1\\n"))
	l.maybeSendBatch()
	nc.Flush()
	m, err := sub.NextMsg(5 * time.Second)
	if err != nil || string(m.Data) != "cpu x=1\\n" {
		t.Fatalf("second piece not published: %v", err)
	}
}
''')

seed("c08-colon", "C08", "convert",
 "a number with a colon in it, such as 12:",
 "a malformed number is converted to a value instead of being refused",
 [("convert/convert.go", "if '0' <= c && c <= '9' {", "if '0' <= c && c < ';' {")],
 '''
package convert

import "testing"

func TestZZDemo(t *testing.T) {
	for _, s := range []string{"12:", ":", "1:0", "-7:"} {
		if n, err := ToInt([]byte(s)); err == nil {
			t.Fatalf("%q was converted to %d", s, n)
		}
	}
}
''')

seed("c27-large-set", "C27", "prometheus",
 "a set of metrics that serialises to more than a megabyte",
 "a scrape leaves out the metrics that come last",
 [("prometheus/metricset.go", "		out.Write(set.metrics[key].ToBytes())\n",
   "		if out.Len() > 1<<20 {\n			break\n		}\n		out.Write(set.metrics[key].ToBytes())\n")],
 '''
package prometheus

import (
	"bytes"
	"fmt"
	"testing"
)

func TestZZDemo(t *testing.T) {
	set := NewMetricSet()
	const n = 100000
	for i := 0; i < n; i++ {
		set.Update(&Metric{Name: []byte(fmt.Sprintf("a_rather_long_metric_name_%d", i)), Value: 1})
	}
	if got := bytes.Count(set.ToBytes(), []byte("\\n")); got != n {
		t.Fatalf("%d of %d metrics", got, n)
	}
}
''')

seed("c22-stale-lower-bound", "C22", "downsampler",
 "a line older than the oldest window that arrives after the windows have moved on",
 "the line is added to a window it does not belong to instead of being refused",
 [("downsampler/assigner.go", "	a.tmin = a.buckets[prev].EndTime().Add(-a.period)\n	return out\n",
   "	if len(out) > 0 {\n		a.tmin = a.buckets[prev].EndTime().Add(-a.period)\n	}\n	return out\n")],
 '''
package downsampler

import (
	"fmt"
	"testing"
	"time"
)

type zzClock struct{ now time.Time }

func (c *zzClock) Now() time.Time { return c.now }

func TestZZDemo(t *testing.T) {
	clk := &zzClock{time.Date(2020, 1, 1, 12, 0, 30, 0, time.UTC)}
	a := newAssigner(time.Minute, func(e time.Time) bucket { return newAvgBucket(e) }, clk)
	start := clk.now
	// two windows go by without data
	for i := 0; i < 4; i++ {
		clk.now = clk.now.Add(time.Minute)
		a.Bytes()
	}
	line := []byte(fmt.Sprintf("cpu x=1 %d", start.UnixNano()))
	if errs := a.Update(line); len(errs) == 0 {
		t.Fatal("a line from long before the oldest window was accepted")
	}
}
''')
