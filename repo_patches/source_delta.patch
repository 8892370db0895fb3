From 6a4b5d9f3bef4ad385edfa76d8dc2949139a096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 01/24] fix: never return a chunk larger than the requested
 chunk size

A newline just past the maximum chunk size was included in the chunk.
---
 batchsplitter/batch_splitter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batchsplitter/batch_splitter.go b/batchsplitter/batch_splitter.go
index 33e49e9..3134654 100644
--- a/batchsplitter/batch_splitter.go
+++ b/batchsplitter/batch_splitter.go
@@ -55,7 +55,7 @@ func (s *BatchSplitter) Next() bool {
 	}
 
 	// Look backwards from the maximum size for a newline.
-	for i := s.chunkSize; i >= 0; i-- {
+	for i := s.chunkSize - 1; i >= 0; i-- {
 		if s.buf[i] == '\n' {
 			i++
 			s.out = s.buf[:i]
-- 
2.43.0


From 79f2c10bfd04e4b0d2c7946de01c296883b26374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 02/24] fix: always leave room for a whole read in a batch

Doubling a small, full buffer once could leave less than maxReadSize free.
---
 batch/batch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batch/batch.go b/batch/batch.go
index 9be7ef4..ad81f3d 100644
--- a/batch/batch.go
+++ b/batch/batch.go
@@ -141,7 +141,7 @@ func (b *Batch) ReadOnceFrom(r io.Reader) (int, error) {
 }
 
 func (b *Batch) growIfLow() {
-	if b.Remaining() < maxReadSize {
+	for b.Remaining() < maxReadSize {
 		b.grow()
 	}
 }
-- 
2.43.0


From 0f57b50df215a9bd7b234d3d70c2800bbf705659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 03/24] fix: keep lines of separate HTTP bodies apart

A body which doesn't end with a newline ran into whatever was added to the
batch next.
---
 listener/listener.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/listener/listener.go b/listener/listener.go
index 215eb3e..653e0d4 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -282,6 +282,8 @@ func (l *Listener) readHTTPBody(r *http.Request) (int64, error) {
 func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
 	l.mu.Lock()
 	defer l.mu.Unlock()
+	// An earlier body may not have ended with a newline.
+	l.batch.EnsureNewline()
 	return l.batch.ReadFrom(r.Body)
 }
 
@@ -304,6 +306,8 @@ func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string)
 
 		newLine := applyTimestampPrecision(line, precision)
 		l.mu.Lock()
+		// An earlier body may not have ended with a newline.
+		l.batch.EnsureNewline()
 		l.batch.Append(newLine)
 		l.mu.Unlock()
 	}
-- 
2.43.0


From ddb1081e0e35d57c9a935977ed523f43e06080ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 04/24] fix: detect overflow for long digit strings in ToInt

The accumulator wrapped so that some out of range inputs were accepted with
a wrong value.
---
 convert/convert.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convert/convert.go b/convert/convert.go
index b12830c..a6813c8 100644
--- a/convert/convert.go
+++ b/convert/convert.go
@@ -45,6 +45,9 @@ func ToInt(s []byte) (int64, error) {
 		} else {
 			return 0, errors.New("invalid char")
 		}
+		if n > (math.MaxUint64-uint64(c))/10 {
+			return 0, errors.New("overflow")
+		}
 		n = n*10 + uint64(c)
 	}
 
-- 
2.43.0


From 91ac741b94055188f3c62146a82b169161b34561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 05/24] fix: don't overwrite a line that is still needed when
 sorting tags

The parsed measurement and tags refer to the memory of the original line, so
reordering tags in place changed the tags that rules were matched against.
---
 filter/rules.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/filter/rules.go b/filter/rules.go
index ddbc8ae..93b288e 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -230,14 +230,8 @@ func (pl *parsedLine) SortTags() {
 		return
 	}
 
-	if len(newHdr)+len(pl.Remainder)+1 == len(pl.Escaped) {
-		// Length hasn't changed so reuse memory used by original,
-		// overwriting the measurement name and tags part.
-		copy(pl.Escaped, newHdr)
-		return
-	}
-
-	// Length as changed (original escaped differently?)
+	// The memory used by the original line can't be reused because the
+	// measurement name and tags used for rule matching refer to it.
 	newHdr = append(newHdr, ' ')
 	newHdr = append(newHdr, pl.Remainder...)
 	pl.Escaped = newHdr
-- 
2.43.0


From 0dd94038de6900529abe6b8b9f1b71e4b3e89967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 06/24] fix: keep the newline at the end of lines without
 fields when sorting tags

---
 filter/rules.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filter/rules.go b/filter/rules.go
index 93b288e..b90a02c 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -15,6 +15,7 @@
 package filter
 
 import (
+	"bytes"
 	"fmt"
 	"hash/fnv"
 	"regexp"
@@ -215,6 +216,12 @@ func (pl *parsedLine) SortTags() {
 		return
 	}
 
+	if len(pl.Remainder) == 0 && bytes.HasSuffix(pl.Escaped, []byte("\n")) {
+		// There are no fields so the newline is part of the last tag
+		// and moving that would split the line.
+		return
+	}
+
 	sort.Sort(pl.Tags)
 
 	// Replace Escaped with sorted tags version.
-- 
2.43.0


From da3f7c60b268f23593d59fbf7731f1f9b272ac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 07/24] fix: only match basic rules against the exact
 measurement name

Different names can have the same 32 bit hash.
---
 filter/rules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/rules.go b/filter/rules.go
index b90a02c..23f5d5b 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -42,7 +42,7 @@ func CreateBasicRule(measurement string, subject string) Rule {
 
 	return Rule{
 		match: func(line *parsedLine) bool {
-			return hh == line.HashedMeasurement()
+			return hh == line.HashedMeasurement() && string(line.Measurement) == measurement
 		},
 		subject: subject,
 	}
-- 
2.43.0


From 308d904588243414ff4aab796bd74139cd7af982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 08/24] fix: don't panic on truncated metric lines

Any message on the monitor subject could crash the monitor.
---
 prometheus/parse.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prometheus/parse.go b/prometheus/parse.go
index f37555e..5a183d7 100644
--- a/prometheus/parse.go
+++ b/prometheus/parse.go
@@ -71,6 +71,9 @@ func ParseMetric(s []byte) (*Metric, error) {
 	}
 
 	i++
+	if i > len(s) {
+		return nil, errors.New("no value")
+	}
 	j := bytes.IndexByte(s[i:], ' ')
 	if j == -1 {
 		j = len(s[i:]) // No timestamp
@@ -92,7 +95,7 @@ func ParseMetric(s []byte) (*Metric, error) {
 }
 
 func parseLabels(s []byte) (Labels, int, error) {
-	if s[0] == '}' {
+	if len(s) > 0 && s[0] == '}' {
 		return nil, 1, nil
 	}
 
@@ -117,6 +120,9 @@ func parseLabels(s []byte) (Labels, int, error) {
 
 		out = append(out, label)
 
+		if i >= len(s) {
+			return nil, i, errors.New("missing label separator")
+		}
 		switch s[i] {
 		case '}':
 			return out, i + 1, nil
-- 
2.43.0


From 6c7c5e0fa20ed2b0f08df9e035b07bf1c15fb775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 09/24] fix: don't overwrite parsed metrics when rendering them

The metric name is usually part of a larger buffer which was written to.
---
 prometheus/metric.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prometheus/metric.go b/prometheus/metric.go
index ccc9ecc..52132c7 100644
--- a/prometheus/metric.go
+++ b/prometheus/metric.go
@@ -34,7 +34,8 @@ func (m *Metric) String() string {
 
 // ToBytes renders the metric to wire format.
 func (m *Metric) ToBytes() []byte {
-	out := bytes.NewBuffer(m.Name)
+	out := new(bytes.Buffer)
+	out.Write(m.Name)
 	if len(m.Labels) > 0 {
 		out.Write(m.Labels.ToBytes())
 	}
-- 
2.43.0


From 6896fbe5cabb5609de1301925740ceec7543dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 10/24] fix: make Labels.With leave the original labels alone

Labels derived from the same parent could share memory and overwrite each
other.
---
 prometheus/labels.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prometheus/labels.go b/prometheus/labels.go
index 94ee161..ac84a77 100644
--- a/prometheus/labels.go
+++ b/prometheus/labels.go
@@ -62,7 +62,9 @@ func (labels Labels) sort() {
 
 // With returns a new Labels with the additional labels added.
 func (labels Labels) With(name, value string) Labels {
-	return append(labels, Label{
+	out := make(Labels, len(labels), len(labels)+1)
+	copy(out, labels)
+	return append(out, Label{
 		Name:  []byte(name),
 		Value: []byte(value),
 	})
-- 
2.43.0


From e83594edfdc2cb0bce8ca3bd01da56b95bb52ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 11/24] fix: count every write request made to InfluxDB

Only one was counted when a batch had to be split up.
---
 writer/writer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/writer/writer.go b/writer/writer.go
index 5bfc905..cf00fb9 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -181,8 +181,6 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 		}
 
 		if w.shouldSend(batch) {
-			w.stats.Inc(statWriteRequests)
-
 			// It is possible for the batch to end up being slightly
 			// larger than the configured maximum batch size because
 			// inbound messages will almost never align exactly with
@@ -190,6 +188,7 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 			splitter := batchsplitter.New(batch.Bytes(), w.c.BatchMaxSize)
 			for splitter.Next() {
 				chunk := splitter.Chunk()
+				w.stats.Inc(statWriteRequests)
 				if err := dbClient.Write(chunk); err != nil {
 					w.stats.Inc(statFailedWrites)
 					log.Printf("Error: %v", err)
-- 
2.43.0


From 75cb0c0497d131bae2b25c1f7cea74bd5a5dc75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 12/24] fix: validate the tags of writer rules

Tags rules could never be used with a writer because a match was demanded,
and incomplete tag pairs would have crashed it.
---
 config/config.go | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/config/config.go b/config/config.go
index 31cffe4..8022714 100644
--- a/config/config.go
+++ b/config/config.go
@@ -161,23 +161,31 @@ func (c *Config) validateFilter() error {
 		if rule.Subject == "" {
 			return errors.New(`rule missing "subject"`)
 		}
-		if rule.Rtype != "tags" && rule.Match == "" {
-			return errors.New(`rule missing "match"`)
+		if err := rule.validateMatch(); err != nil {
+			return err
 		}
-		if rule.Rtype != "tags" && len(rule.Tags) > 0 {
-			return fmt.Errorf(`%s rule cannot use "tags"`, rule.Rtype)
+	}
+	return nil
+}
+
+// validateMatch checks the parts of a rule which define what it matches.
+func (rule *Rule) validateMatch() error {
+	if rule.Rtype != "tags" && rule.Match == "" {
+		return errors.New(`rule missing "match"`)
+	}
+	if rule.Rtype != "tags" && len(rule.Tags) > 0 {
+		return fmt.Errorf(`%s rule cannot use "tags"`, rule.Rtype)
+	}
+	if rule.Rtype == "tags" {
+		if rule.Match != "" {
+			return errors.New(`tags rule cannot use "match"`)
 		}
-		if rule.Rtype == "tags" {
-			if rule.Match != "" {
-				return errors.New(`tags rule cannot use "match"`)
-			}
-			if len(rule.Tags) == 0 {
-				return errors.New(`tags rule missing "tags"`)
-			}
-			for _, tag := range rule.Tags {
-				if len(tag) != 2 {
-					return errors.New("each tags item must contain 2 values")
-				}
+		if len(rule.Tags) == 0 {
+			return errors.New(`tags rule missing "tags"`)
+		}
+		for _, tag := range rule.Tags {
+			if len(tag) != 2 {
+				return errors.New("each tags item must contain 2 values")
 			}
 		}
 	}
@@ -215,8 +223,8 @@ func (c *Config) validateWriter() error {
 		if rule.Rtype == "" {
 			return errors.New(`rule missing "type"`)
 		}
-		if rule.Match == "" {
-			return errors.New(`rule missing "match"`)
+		if err := rule.validateMatch(); err != nil {
+			return err
 		}
 		if rule.Subject != "" {
 			return fmt.Errorf("writer rules shouldn't have subject (%q)", rule.Subject)
-- 
2.43.0


From d3ce03368bb4fc7fea6aee03a0eb66fa18ce67c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 13/24] fix: report invalid regular expressions in rules as
 configuration errors

They caused a panic when the rules were created.
---
 config/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/config/config.go b/config/config.go
index 8022714..eecb2cf 100644
--- a/config/config.go
+++ b/config/config.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"regexp"
 	"time"
 
 	"github.com/BurntSushi/toml"
@@ -176,6 +177,11 @@ func (rule *Rule) validateMatch() error {
 	if rule.Rtype != "tags" && len(rule.Tags) > 0 {
 		return fmt.Errorf(`%s rule cannot use "tags"`, rule.Rtype)
 	}
+	if rule.Rtype == "regex" || rule.Rtype == "negregex" {
+		if _, err := regexp.Compile(rule.Match); err != nil {
+			return fmt.Errorf("invalid rule match: %v", err)
+		}
+	}
 	if rule.Rtype == "tags" {
 		if rule.Match != "" {
 			return errors.New(`tags rule cannot use "match"`)
-- 
2.43.0


From c358c8845aae1ff68c5e2014afa066438cf68c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 14/24] fix: escape the database name in the InfluxDB write URL

A name with characters such as & or # selected another database.
---
 writer/influxclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/writer/influxclient.go b/writer/influxclient.go
index 800a44b..ebf8f8c 100644
--- a/writer/influxclient.go
+++ b/writer/influxclient.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"net/http"
+	"net/url"
 	"time"
 
 	"github.com/jumptrading/influx-spout/v2/config"
@@ -26,7 +27,7 @@ import (
 
 func newInfluxClient(c *config.Config) *influxClient {
 	return &influxClient{
-		url:      fmt.Sprintf("%s://%s:%d/write?db=%s", c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, c.DBName),
+		url:      fmt.Sprintf("%s://%s:%d/write?db=%s", c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, url.QueryEscape(c.DBName)),
 		username: c.InfluxDBUser,
 		password: c.InfluxDBPass,
 		debug:    c.Debug,
-- 
2.43.0


From 773fd54fcad3423e2ffdad1abfe92b45c6f16ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 15/24] fix: close the probes listener if a listener can't
 connect to NATS

---
 listener/listener.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/listener/listener.go b/listener/listener.go
index 653e0d4..1074890 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -141,6 +141,7 @@ func newListener(c *config.Config) (*Listener, error) {
 
 	nc, err := nats.Connect(l.c.NATSAddress, nats.MaxReconnects(-1), nats.Name(l.c.Name))
 	if err != nil {
+		l.probes.Close()
 		return nil, err
 	}
 	l.nc = nc
-- 
2.43.0


From 4abc14cefc9c7ac93ba55178074a9d1e4070aca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 16/24] fix: close the UDP socket if its receive buffer can't
 be set

---
 listener/listener.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/listener/listener.go b/listener/listener.go
index 1074890..cff169e 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -164,6 +164,7 @@ func (l *Listener) setupUDP(configBufSize int) (*net.UDPConn, error) {
 		log.Printf("rounding up receive buffer to nearest page size (now %d bytes)", bufSize)
 	}
 	if err := sc.SetReadBuffer(bufSize); err != nil {
+		sc.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 62a6537d618668c4d43ff010f085e46e17129594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 17/24] fix: print tapped lines as they are

Lines were used as format strings so any % was mangled.
---
 cmd/influx-spout-tap/influx-spout-tap.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/influx-spout-tap/influx-spout-tap.go b/cmd/influx-spout-tap/influx-spout-tap.go
index 9dbe8b9..b87b798 100644
--- a/cmd/influx-spout-tap/influx-spout-tap.go
+++ b/cmd/influx-spout-tap/influx-spout-tap.go
@@ -19,7 +19,6 @@ package main
 import (
 	"bytes"
 	"flag"
-	"fmt"
 	"log"
 	"os"
 	"regexp"
@@ -57,10 +56,10 @@ func process(msg *nats.Msg, r *regexp.Regexp) {
 	for _, line := range bytes.SplitAfter(msg.Data, []byte("\n")) {
 		if r != nil {
 			if r.Match(line) {
-				fmt.Printf(string(line))
+				os.Stdout.Write(line)
 			}
 		} else {
-			fmt.Printf(string(line))
+			os.Stdout.Write(line)
 		}
 	}
 }
-- 
2.43.0


From 3e0700f81c5db446fbb9983a0d743e411f851e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:49 +0000
Subject: [PATCH 18/24] fix: report when the tap can't connect to NATS

It crashed using a connection that doesn't exist.
---
 cmd/influx-spout-tap/influx-spout-tap.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/influx-spout-tap/influx-spout-tap.go b/cmd/influx-spout-tap/influx-spout-tap.go
index b87b798..b8b99f2 100644
--- a/cmd/influx-spout-tap/influx-spout-tap.go
+++ b/cmd/influx-spout-tap/influx-spout-tap.go
@@ -37,7 +37,10 @@ func main() {
 	if err != nil {
 		log.Printf("Hostname lookup failed")
 	}
-	natsConnection, _ := nats.Connect(*url, nats.Name("influx-spout-tap "+hostname))
+	natsConnection, err := nats.Connect(*url, nats.Name("influx-spout-tap "+hostname))
+	if err != nil {
+		log.Fatalf("NATS: failed to connect: %v", err)
+	}
 	log.Println("Connected to " + *url)
 	log.Printf("Subscribing to subject %s\n", *subject)
 
-- 
2.43.0


From 3953d18661e850cbcad0f2124d121e46da11f177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:03 +0000
Subject: [PATCH 19/24] fix: only report ready once the HTTP port is bound

---
 listener/listener.go | 7 +++++--
 monitor/monitor.go   | 8 ++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index cff169e..231922a 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -355,8 +355,11 @@ func (l *Listener) listenHTTP(server *http.Server) {
 	defer l.wg.Done()
 
 	go func() {
-		l.probes.SetReady(true)
-		err := server.ListenAndServe()
+		ln, err := net.Listen("tcp", server.Addr)
+		if err == nil {
+			l.probes.SetReady(true)
+			err = server.Serve(ln)
+		}
 		if err == nil || err == http.ErrServerClosed {
 			return
 		}
diff --git a/monitor/monitor.go b/monitor/monitor.go
index 3a3bdc8..e108936 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -18,6 +18,7 @@ package monitor
 import (
 	"fmt"
 	"log"
+	"net"
 	"net/http"
 	"sync"
 
@@ -126,8 +127,11 @@ func (m *Monitor) serveHTTP() {
 	}
 
 	go func() {
-		m.probes.SetReady(true)
-		err := server.ListenAndServe()
+		ln, err := net.Listen("tcp", server.Addr)
+		if err == nil {
+			m.probes.SetReady(true)
+			err = server.Serve(ln)
+		}
 		if err == nil || err == http.ErrServerClosed {
 			return
 		}
-- 
2.43.0


From f2cd555c1461ff66131f06273bb21f0b1435ce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:03 +0000
Subject: [PATCH 20/24] fix: reject configurations without any workers

---
 config/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/config/config.go b/config/config.go
index eecb2cf..f364c08 100644
--- a/config/config.go
+++ b/config/config.go
@@ -155,6 +155,9 @@ func (c *Config) validateFilter() error {
 	if len(c.NATSSubject) != 1 {
 		return errors.New("filter should only use one NATS subject")
 	}
+	if c.Workers < 1 {
+		return errors.New("filter needs at least one worker")
+	}
 	for _, rule := range c.Rule {
 		if rule.Rtype == "" {
 			return errors.New(`rule missing "type"`)
@@ -212,6 +215,9 @@ func (c *Config) validateWriter() error {
 	if len(c.NATSSubject) < 1 {
 		return errors.New("writer needs at least one NATS subject")
 	}
+	if c.Workers < 1 {
+		return errors.New("writer needs at least one worker")
+	}
 	if c.InfluxDBPort < 1 || c.InfluxDBPort > 65535 {
 		return errors.New("influxdb_port out of range")
 	}
-- 
2.43.0


From 6d48b4bda0548ce8e18751dabff6572591a8bd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:07 +0000
Subject: [PATCH 21/24] fix: handle chunk sizes which don't fit an int

---
 batchsplitter/batch_splitter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/batchsplitter/batch_splitter.go b/batchsplitter/batch_splitter.go
index 3134654..b59b86c 100644
--- a/batchsplitter/batch_splitter.go
+++ b/batchsplitter/batch_splitter.go
@@ -16,6 +16,8 @@ package batchsplitter
 
 import "github.com/c2h5oh/datasize"
 
+const maxInt = int(^uint(0) >> 1)
+
 // New returns a BatchSplitter which will efficiently
 // split BUF into chunks no larger than CHUNKSIZE with splits occuring
 // on newline boundaries.
@@ -26,6 +28,9 @@ import "github.com/c2h5oh/datasize"
 // returned. In the unlikely case of a line existing that is larger
 // than chunkSize, it will be broken up.
 func New(buf []byte, chunkSize datasize.ByteSize) *BatchSplitter {
+	if chunkSize > datasize.ByteSize(maxInt) {
+		chunkSize = datasize.ByteSize(maxInt)
+	}
 	return &BatchSplitter{
 		buf:       buf,
 		chunkSize: int(chunkSize),
-- 
2.43.0


From ccde740ac506cbcd14bcc6ca83d7e0acab0dd9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:24 +0000
Subject: [PATCH 22/24] fix: don't hold the monitor's lock while writing a
 response

---
 monitor/monitor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index e108936..ed0581a 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -116,9 +116,13 @@ func (m *Monitor) serveHTTP() {
 		r.Body.Close()
 		w.Header().Set("Content-Type", "text/plain")
 
-		defer m.mu.Unlock()
+		// Don't hold the lock while writing the response as a slow
+		// client would stop metrics from being received.
 		m.mu.Lock()
-		w.Write(m.metrics.ToBytes())
+		out := m.metrics.ToBytes()
+		m.mu.Unlock()
+
+		w.Write(out)
 	})
 
 	server := &http.Server{
-- 
2.43.0


From a84c484755828956fc69bb7cea933686d9a1fb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:24 +0000
Subject: [PATCH 23/24] fix: don't hold the HTTP listener's lock while reading
 a body

---
 listener/listener.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index 231922a..f492e89 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -282,11 +282,18 @@ func (l *Listener) readHTTPBody(r *http.Request) (int64, error) {
 }
 
 func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
-	l.mu.Lock()
-	defer l.mu.Unlock()
-	// An earlier body may not have ended with a newline.
-	l.batch.EnsureNewline()
-	return l.batch.ReadFrom(r.Body)
+	// Read the body before taking the lock as a slow client would
+	// otherwise stop other requests and the sending of batches.
+	body := batch.New(0)
+	bytesRead, err := body.ReadFrom(r.Body)
+	if bytesRead > 0 {
+		l.mu.Lock()
+		defer l.mu.Unlock()
+		// An earlier body may not have ended with a newline.
+		l.batch.EnsureNewline()
+		l.batch.Append(body.Bytes())
+	}
+	return bytesRead, err
 }
 
 func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string) (int, error) {
-- 
2.43.0


From ab4e524b36cbe9834aabe572e74dec8746beb1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:36 +0000
Subject: [PATCH 24/24] fix: reject intervals and timeouts which aren't
 positive

---
 config/config.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/config/config.go b/config/config.go
index f364c08..470c913 100644
--- a/config/config.go
+++ b/config/config.go
@@ -118,6 +118,10 @@ func (c *Config) Validate() error {
 		return errors.New("pprof_port out of range")
 	}
 
+	if c.StatsInterval.Duration <= 0 {
+		return errors.New("stats_interval must be positive")
+	}
+
 	if c.Mode != "downsampler" && c.DownsamplePeriod.Duration != time.Duration(0) {
 		return errors.New("downsample_period is only for downsampler mode")
 	}
@@ -148,6 +152,9 @@ func (c *Config) validateListener() error {
 	if c.BatchMaxSize > MaxNATSMsgSize {
 		return fmt.Errorf("listener batch must be %s or smaller", MaxNATSMsgSize)
 	}
+	if c.Mode == "listener_http" && c.BatchMaxAge.Duration <= 0 {
+		return errors.New("batch_max_age must be positive")
+	}
 	return nil
 }
 
@@ -205,6 +212,9 @@ func (c *Config) validateDownsampler() error {
 	if c.DownsamplePeriod.Duration == time.Duration(0) {
 		return errors.New("downsample_period must be set")
 	}
+	if c.DownsamplePeriod.Duration < 0 {
+		return errors.New("downsample_period must be positive")
+	}
 	if c.DownsampleSuffix == "" {
 		return errors.New("downsample_suffix must be set")
 	}
@@ -224,6 +234,12 @@ func (c *Config) validateWriter() error {
 	if c.InfluxDBProtocol != "http" && c.InfluxDBProtocol != "https" {
 		return errors.New("influxdb_protocol can only be http or https")
 	}
+	if c.WriteTimeout.Duration <= 0 {
+		return errors.New("write_timeout must be positive")
+	}
+	if c.WriterRetryInterval.Duration <= 0 {
+		return errors.New("writer_retry_interval must be positive")
+	}
 	if c.InfluxDBUser != "" && c.InfluxDBPass == "" {
 		return errors.New("$INFLUXDB_USER without $INFLUXDB_PASS")
 	}
-- 
2.43.0

