M = [
 ("race-age-unlocked","C05",[("listener/listener.go","		l.mu.Lock()\n		waitTime := l.c.BatchMaxAge.Duration - l.batch.Age()\n		l.mu.Unlock()\n","		waitTime := l.c.BatchMaxAge.Duration - l.batch.Age()\n")]),
 ("race-handler-unlocked","C05",[("listener/listener.go","		l.mu.Lock()\n		l.maybeSendBatch()\n		l.mu.Unlock()\n","		l.maybeSendBatch()\n")]),
 ("race-read-unlocked","C05",[("listener/listener.go","	l.mu.Lock()\n	defer l.mu.Unlock()\n	// An earlier","	// An earlier")]),
 ("race-append-unlocked","C05",[("listener/listener.go","		l.mu.Lock()\n		// An earlier body may not have ended with a newline.\n		l.batch.EnsureNewline()\n","		// An earlier body may not have ended with a newline.\n		l.batch.EnsureNewline()\n		l.mu.Lock()\n")]),
 ("race-monitor-unlocked","C05",[("monitor/monitor.go","	m.mu.Lock()\n","	if m.c.Debug {\n		log.Print(len(m.metrics.ToBytes()))\n	}\n	m.mu.Lock()\n")]),
 ("race-stat-plain","C05",[("stats/anonstats.go","return atomic.AddUint64(&s.counts[i], 1)","s.counts[i]++\n	return s.counts[i]")]),
 ("race-stats-read-plain","C05",[("stats/anonstats.go","atomic.LoadUint64(&s.counts[i])","s.counts[i]")]),
 ("race-hasher","C05",[("filter/rules.go","	hh := fnv.New32()\n	hh.Write(measurement)","	hh := sharedHash\n	hh.Reset()\n	hh.Write(measurement)"),("filter/rules.go","func hashMeasurement","var sharedHash = fnv.New32()\n\nfunc hashMeasurement")]),
 ("race-rule-cache","C05",[("filter/rules.go","	for i, rule := range rs.rules {\n		if rule.match(line) {\n			return i","	for i, rule := range rs.rules {\n		if rule.match(line) {\n			rs.last = i\n			return i"),("filter/rules.go","	rules []Rule\n","	rules []Rule\n	last  int\n")]),
 ("race-subjects-cache","C05",[("filter/rules.go","	out := make([]string, len(rs.rules))\n","	if rs.subj == nil {\n		rs.subj = make([]string, len(rs.rules))\n	}\n	out := rs.subj\n"),("filter/rules.go","	rules []Rule\n","	rules []Rule\n	subj  []string\n")]),
 ("race-monitor-metrics","C05",[("monitor/monitor.go","	defer m.mu.Unlock()\n	m.mu.Lock()\n	m.metrics.UpdateFromSet","	m.metrics.UpdateFromSet")]),
 ("race-monitor-http","C05",[("monitor/monitor.go","		defer m.mu.Unlock()\n		m.mu.Lock()\n		w.Write(m.metrics.ToBytes())","		m.mu.Lock()\n		mt := m.metrics\n		m.mu.Unlock()\n		w.Write(mt.ToBytes())")]),
 ("race-filter-shared-worker-batch","C05",[("filter/worker.go","	batches := make([]*bytes.Buffer, rules.Count())\n	for","	batches := sharedBatches\n	for len(batches) < rules.Count() {\n		batches = append(batches, nil)\n	}\n	sharedBatches = batches\n	for"),("filter/worker.go","func newWorker(","var sharedBatches []*bytes.Buffer\n\nfunc newWorker(")]),
 ("race-writer-retry-chunk","C05",[("writer/writer.go","						retryChunk := make([]byte, len(chunk))\n						copy(retryChunk, chunk)\n						retryCh <- retryChunk","						retryCh <- chunk")]),
 ("quiet-retry-append","",[("writer/writer.go","						retryChunk := make([]byte, len(chunk))\n						copy(retryChunk, chunk)\n						retryCh <- retryChunk","						retryCh <- append([]byte(nil), chunk...)")]),
 ("quiet-lock-style","",[("listener/listener.go","		l.mu.Lock()\n		l.maybeSendBatch()\n		l.mu.Unlock()\n","		func() {\n			l.mu.Lock()\n			defer l.mu.Unlock()\n			l.maybeSendBatch()\n		}()\n")]),
 ("quiet-age-helper","",[("listener/listener.go","		l.mu.Lock()\n		waitTime := l.c.BatchMaxAge.Duration - l.batch.Age()\n		l.mu.Unlock()\n","		waitTime := l.untilOld()\n"),("listener/listener.go","func (l *Listener) handleHTTPWrite","func (l *Listener) untilOld() time.Duration {\n	l.mu.Lock()\n	defer l.mu.Unlock()\n	return l.c.BatchMaxAge.Duration - l.batch.Age()\n}\n\nfunc (l *Listener) handleHTTPWrite")]),

 ("lines-udp-nonl","C01",[("listener/listener.go","			l.batch.EnsureNewline()\n		}\n\n		l.maybe","		}\n\n		l.maybe")]),
 ("lines-nanos-nonl","C01",[("listener/listener.go","	l.batch.EnsureNewline()\n	return","	return")]),
 ("lines-prec-order","C01",[("listener/listener.go","		l.batch.EnsureNewline()\n		l.batch.Append(newLine)","		l.batch.Append(newLine)\n		l.batch.EnsureNewline()"),("listener/listener.go","	l.batch.EnsureNewline()\n	return","	return")]),
 ("lines-nl-beyond","C01",[("batch/batch.go","n > 0 && b.buf[n-1]","n > 1 && b.buf[n-1]")]),
 ("lines-nl-wrongidx","C01",[("batch/batch.go","n > 0 && b.buf[n-1]","n > 1 && b.buf[n-2]")]),
 ("lines-nl-cr","C01",[("batch/batch.go","b.appendImpl([]byte{'\\n'})","b.appendImpl([]byte{'\\r'})")]),
 ("lines-udp-debug","C01",[("listener/listener.go","			l.stats.Inc(statReceived)\n			l.batch.EnsureNewline()","			l.stats.Inc(statReceived)\n			if err == nil {\n				l.batch.EnsureNewline()\n			}")]),
 ("quiet-lines-suffix","",[("batch/batch.go","	n := len(b.buf)\n	if n > 0 && b.buf[n-1] != '\\n' {","	if len(b.buf) > 0 && b.buf[len(b.buf)-1] != '\\n' {")]),
 ("lim-count-gt","C04",[("listener/listener.go","l.batch.Writes() >= l.c","l.batch.Writes() > l.c")]),
 ("lim-age-gone","C04",[("listener/listener.go","	if l.batch.Age() >= l.c.BatchMaxAge.Duration {\n		return true\n	}\n\n	// If","	// If")]),
 ("lim-size","C04",[("listener/listener.go","<= maxUDPDatagramSize","<= -maxUDPDatagramSize")]),
 ("lim-udp-onlyread","C04",[("listener/listener.go","			l.batch.EnsureNewline()\n		}\n\n		l.maybeSendBatch()","			l.batch.EnsureNewline()\n			l.maybeSendBatch()\n		}")]),
 ("lim-http-err","C04",[("listener/listener.go","	if bytesRead > 0 {\n		if l.c.Debug {\n			log.Printf(\"HTTP","	if bytesRead > 0 && err == nil {\n		if l.c.Debug {\n			log.Printf(\"HTTP")]),
 ("lim-watch-nosend","C04",[("listener/listener.go","if l.batch.Age() >= l.c.BatchMaxAge.Duration {\n				l","if l.batch.Age() > 2*l.c.BatchMaxAge.Duration {\n				l")]),
 ("lim-watch-wait","C04",[("listener/listener.go","l.c.BatchMaxAge.Duration - l.batch.Age()","l.c.BatchMaxAge.Duration + l.batch.Age()")]),
 ("lim-created-each","C04",[("batch/batch.go","	if b.writes == 0 {\n		b.created = clock.Now()\n	}","	b.created = clock.Now()")]),
 ("lim-uncounted","C04",[("batch/batch.go","	b.countWrite()\n	b.appendImpl(more)","	b.appendImpl(more)")]),
 ("lim-deadline","C04",[("listener/listener.go","time.Now().Add(time.Second)","time.Now().Add(10 * time.Minute)")]),
 ("lim-nodeadline","C04",[("listener/listener.go","		sc.SetReadDeadline(time.Now().Add(time.Second))\n","")]),
 ("lim-writer-tick","C04",[("writer/writer.go","case <-time.After(time.Second):","case <-time.After(time.Hour):")]),
 ("lim-writer-or","C04",[("writer/writer.go","	return batch.Writes() >= w.c.BatchMaxCount ||","	return batch.Writes() > w.c.BatchMaxCount ||")]),
 ("quiet-lim-deadline","",[("listener/listener.go","time.Now().Add(time.Second)","time.Now().Add(500 * time.Millisecond)")]),

 ("life-probe-left","C34",[("listener/listener.go","	if err != nil {\n		l.probes.Close()\n		return nil, err\n	}\n	l.nc","	if err != nil {\n		return nil, err\n	}\n	l.nc")]),
 ("life-ds-stop-order","C34",[("downsampler/downsampler.go","	defer func() {\n		if err != nil {\n			ds.Stop()\n		}\n	}()\n\n	ds.nc, err = nats.Connect(c.NATSAddress, nats.MaxReconnects(-1), nats.Name(c.Name))\n	if err != nil {\n		return nil, fmt.Errorf(\"NATS Error: can't connect: %v\", err)\n	}\n","	ds.nc, err = nats.Connect(c.NATSAddress, nats.MaxReconnects(-1), nats.Name(c.Name))\n	if err != nil {\n		return nil, fmt.Errorf(\"NATS Error: can't connect: %v\", err)\n	}\n	defer func() {\n		if err != nil {\n			ds.Stop()\n		}\n	}()\n")]),
 ("life-writer-nowait","C35",[("writer/writer.go","	close(w.stop)\n	w.wg.Wait()\n	if w.nc","	close(w.stop)\n	if w.nc")]),
 ("life-sc-left","C34",[("listener/listener.go","		sc.Close()\n		return nil, err","		return nil, err")]),
 ("life-retry-leak","C35",[("writer/writer.go","		defer rw.Stop()\n","")]),
 ("life-retry-cond","C35",[("writer/writer.go","		defer rw.Stop()\n","		if w.c.Debug {\n			defer rw.Stop()\n		}\n")]),
 ("life-report-block","C35",[("writer/retryworker.go","	select {\n	case w.writeErrors <- err:\n	default:\n	}","	w.writeErrors <- err")]),
 ("life-conn-left","C35",[("filter/filter.go","	if f.nc != nil {\n		f.nc.Close()\n	}\n","")]),
 ("life-worker-conn-left","C35",[("filter/worker.go","		w.nc.Close()\n		wg.Done()","		wg.Done()")]),
 ("life-add-one","C35",[("listener/listener.go","	listener.wg.Add(2)\n	go listener.startStatistician()\n	go listener.listenHTTP","	listener.wg.Add(1)\n	go listener.startStatistician()\n	go listener.listenHTTP")]),
 ("life-ds-nostop","C35",[("downsampler/downsampler.go","		case <-time.After(assigner.UntilNext()):\n		case <-ds.stop:\n			return\n","		case <-time.After(assigner.UntilNext()):\n		case <-ds.stop:\n")]),
 ("life-server-left","C35",[("monitor/monitor.go","	<-m.stop\n	server.Close()","	<-m.stop")]),
 ("life-ready-early","C36",[("filter/filter.go","	f.probes.SetReady(true)\n	return f, nil","	return f, nil"),("filter/filter.go","	// A fixed queue name","	f.probes.SetReady(true)\n	// A fixed queue name")]),
 ("life-ready-loop","C36",[("writer/writer.go","		subs = append(subs, sub)\n","		subs = append(subs, sub)\n		w.probes.SetReady(true)\n")]),
 ("life-ready-http","C36",[("listener/listener.go","		if err == nil {\n			l.probes.SetReady(true)\n","		l.probes.SetReady(true)\n		if err == nil {\n")]),
 ("life-ready-stays","C36",[("downsampler/downsampler.go","	ds.probes.SetReady(false)\n","	defer ds.probes.SetReady(false)\n")]),
 ("life-limit-gone","C37",[("filter/filter.go","	if err := f.sub.SetPendingLimits(-1, int(conf.NATSMaxPendingSize.Bytes())); err != nil {\n		return nil, fmt.Errorf(\"NATS: failed to set pending limits: %v\", err)\n	}\n","")]),
 ("life-limit-swap","C37",[("writer/writer.go","sub.SetPendingLimits(-1, int(c.NATSMaxPendingSize.Bytes()))","sub.SetPendingLimits(int(c.NATSMaxPendingSize.Bytes()), -1)")]),
 ("life-limit-last","C37",[("downsampler/downsampler.go","		if err := subscription.SetPendingLimits(-1, maxPendingSize); err != nil {\n			return nil, fmt.Errorf(\"NATS: failed to set pending limits: %v\", err)\n		}\n		ds.subscriptions = append(ds.subscriptions, subscription)\n	}\n","		ds.subscriptions = append(ds.subscriptions, subscription)\n	}\n	if n := len(ds.subscriptions); n > 0 {\n		if err := ds.subscriptions[n-1].SetPendingLimits(-1, maxPendingSize); err != nil {\n			return nil, fmt.Errorf(\"NATS: failed to set pending limits: %v\", err)\n		}\n	}\n")]),
 ("life-limit-ignored","C37",[("filter/filter.go","	if err := f.sub.SetPendingLimits(-1, int(conf.NATSMaxPendingSize.Bytes())); err != nil {\n		return nil, fmt.Errorf(\"NATS: failed to set pending limits: %v\", err)\n	}\n","	f.sub.SetPendingLimits(-1, int(conf.NATSMaxPendingSize))\n")]),
 ("life-reconnect-10","C38",[("monitor/monitor.go","nats.MaxReconnects(-1)","nats.MaxReconnects(10)")]),
 ("life-reconnect-gone","C38",[("filter/filter.go","nats.MaxReconnects(-1), ","")]),
 ("life-reconnect-0","C38",[("writer/writer.go","nats.MaxReconnects(-1)","nats.MaxReconnects(int(c.WriterRetryBatches))")]),
 ("quiet-life-opts","",[("writer/writer.go","	w.nc, err = nats.Connect(c.NATSAddress, nats.MaxReconnects(-1), nats.Name(c.Name))","	opts := []nats.Option{nats.Name(c.Name), nats.MaxReconnects(-1)}\n	w.nc, err = nats.Connect(c.NATSAddress, opts...)")]),
 ("quiet-life-limit","",[("writer/writer.go","		if err := sub.SetPendingLimits(-1, int(c.NATSMaxPendingSize.Bytes())); err != nil {\n			return nil, fmt.Errorf(\"NATS: failed to set pending limits: %v\", err)\n		}\n","		if err := limit(sub, c); err != nil {\n			return nil, err\n		}\n"),("writer/writer.go","func (w *Writer) worker","func limit(sub *nats.Subscription, c *config.Config) error {\n	err := sub.SetPendingLimits(-1, int(c.NATSMaxPendingSize))\n	if err != nil {\n		return fmt.Errorf(\"NATS: failed to set pending limits: %v\", err)\n	}\n	return nil\n}\n\nfunc (w *Writer) worker")]),
 ("quiet-life-add","",[("listener/listener.go","	listener.wg.Add(2)\n	go listener.startStatistician()\n	go listener.listenHTTP","	listener.wg.Add(1)\n	go listener.startStatistician()\n	listener.wg.Add(1)\n	go listener.listenHTTP")]),
 ("quiet-life-release","",[("listener/listener.go","	if err != nil {\n		l.probes.Close()\n		return nil, err\n	}\n	l.nc","	if err != nil {\n		defer l.probes.Close()\n		return nil, fmt.Errorf(\"connect: %v\", err)\n	}\n	l.nc")]),
 ("quiet-life-report","",[("writer/retryworker.go","	select {\n	case w.writeErrors <- err:\n	default:\n	}","	if len(w.writeErrors) < cap(w.writeErrors) {\n		select {\n		case w.writeErrors <- err:\n		default:\n		}\n	}")]),
 ('wr-nocopy', 'C16', [('writer/writer.go', '\t\t\t\t\t\tretryChunk := make([]byte, len(chunk))\n\t\t\t\t\t\tcopy(retryChunk, chunk)\n\t\t\t\t\t\tretryCh <- retryChunk', '\t\t\t\t\t\tretryCh <- chunk')]),
 ('wr-shortcopy', 'C16', [('writer/writer.go', 'copy(retryChunk, chunk)', 'copy(retryChunk, chunk[1:])')]),
 ('wr-copysize', 'C16', [('writer/writer.go', 'copy(retryChunk, chunk)', 'copy(retryChunk, chunk[:len(chunk)/2])')]),
 ('wr-skip-perm', 'C16', [('writer/writer.go', 'if retryCh != nil {', 'if retryCh != nil && len(chunk) < 1<<20 {')]),
 ('wr-trysend', 'C16', [('writer/writer.go', '\t\t\t\t\t\tretryCh <- retryChunk', '\t\t\t\t\t\tselect {\n\t\t\t\t\t\tcase retryCh <- retryChunk:\n\t\t\t\t\t\tdefault:\n\t\t\t\t\t\t}')]),
 ('wr-break', 'C03', [('writer/writer.go', '\t\t\t\t\t\tretryCh <- retryChunk\n', '\t\t\t\t\t\tretryCh <- retryChunk\n\t\t\t\t\t\tbreak\n')]),
 ('wr-twice', 'C16', [('writer/writer.go', '\t\t\t\t\t\tretryCh <- retryChunk\n', '\t\t\t\t\t\tretryCh <- retryChunk\n\t\t\t\t\t\tif splitter.Next() {\n\t\t\t\t\t\t\tretryCh <- retryChunk\n\t\t\t\t\t\t}\n')]),
 ('wr-queue-success', 'C16', [('writer/writer.go', '\t\t\t\tif err := dbClient.Write(chunk); err != nil {\n\t\t\t\t\tw.stats.Inc(statFailedWrites)', '\t\t\t\terr := dbClient.Write(chunk)\n\t\t\t\tif err != nil || w.c.Debug {\n\t\t\t\t\tw.stats.Inc(statFailedWrites)')]),
 ('wr-reset-first', 'C03', [('writer/writer.go', '\t\t\tsplitter := batchsplitter.New(batch.Bytes(), w.c.BatchMaxSize)\n', '\t\t\tsplitter := batchsplitter.New(batch.Bytes(), w.c.BatchMaxSize)\n\t\t\tsplitter.Next()\n')]),
 ('quiet-wr-appendcopy', '', [('writer/writer.go', '\t\t\t\t\t\tretryChunk := make([]byte, len(chunk))\n\t\t\t\t\t\tcopy(retryChunk, chunk)\n\t\t\t\t\t\tretryCh <- retryChunk', '\t\t\t\t\t\tretryCh <- append([]byte{}, chunk...)')]),
 ('quiet-wr-sendfn', '', [('writer/writer.go', '\t\t\t\tif err := dbClient.Write(chunk); err != nil {\n\t\t\t\t\tw.stats.Inc(statFailedWrites)\n\t\t\t\t\tlog.Printf("Error: %v", err)\n\t\t\t\t\tif retryCh != nil {', '\t\t\t\tif err := w.writeChunk(dbClient, chunk); err != nil {\n\t\t\t\t\tif retryCh != nil {'), ('writer/writer.go', 'func (w *Writer) getBatchWriteFunc', 'func (w *Writer) writeChunk(dbClient *influxClient, chunk []byte) error {\n\terr := dbClient.Write(chunk)\n\tif err == nil {\n\t\treturn nil\n\t}\n\tw.stats.Inc(statFailedWrites)\n\tlog.Printf("Error: %v", err)\n\treturn err\n}\n\nfunc (w *Writer) getBatchWriteFunc')]),
 ('rq-gt', 'C17', [('writer/retryworker.go', 'q.batches.Len() >= q.maxBatches', 'q.batches.Len() > q.maxBatches')]),
 ('rq-nodrop', 'C17', [('writer/retryworker.go', '\tif q.batches.Len() >= q.maxBatches {\n\t\tq.removeOldest()\n\t}\n', '')]),
 ('rq-ttl-cycle', 'C17', [('writer/retryworker.go', '\tq.batches.MoveToBack(el)', '\tb := q.batches.Remove(el).(retryBatch)\n\tq.Add(b.buf)')]),
 ('rq-ttl', 'C17', [('writer/retryworker.go', 'time.Now().Add(q.maxTTL)', 'time.Now().Add(2 * q.maxTTL)')]),
 ('rq-ttl-swap', 'C17', [('writer/retryworker.go', 'now.After(batch.ttl)', 'now.Before(batch.ttl)')]),
 ('rq-nottl', 'C17', [('writer/retryworker.go', 'if now.After(batch.ttl) {', 'if q.batches.Len() > 1 && now.After(batch.ttl) {')]),
 ('rq-nocycle', 'C17', [('writer/retryworker.go', 'w.queue.CycleFront()', 'w.queue.Len()')]),
 ('rq-clear', 'C17', [('writer/retryworker.go', '\t\t\tq.batches.Remove(el)\n\t\t} else {', '\t\t\tq.batches.Init()\n\t\t} else {')]),
 ('rq-pace', 'C17', [('writer/retryworker.go', '\t\t\tnextSend = nil\n\n\t\t\tbuf', '\t\t\tbuf')]),
 ('rq-pace2', 'C17', [('writer/retryworker.go', 'time.After(w.retryInterval)', 'time.After(0)')]),
 ('rq-timer-restart', 'C17', [('writer/retryworker.go', '\t\t\tw.queue.Add(buf)\n', '\t\t\tw.queue.Add(buf)\n\t\t\tw.queue.Front()\n\t\t\tnextSend = time.After(0)\n')]),
 ('rq-back', 'C17', [('writer/retryworker.go', '\t\tel := q.batches.Front()\n\t\tif el == nil {\n\t\t\treturn nil\n\t\t}', '\t\tel := q.batches.Back()\n\t\tif el == nil {\n\t\t\treturn nil\n\t\t}')]),
 ('rq-dropback', 'C17', [('writer/retryworker.go', 'func (q *retryQueue) DropFront() {\n\tel := q.batches.Front()', 'func (q *retryQueue) DropFront() {\n\tel := q.batches.Back()')]),
 ('quiet-rq-while', '', [('writer/retryworker.go', '\tif q.batches.Len() >= q.maxBatches {\n\t\tq.removeOldest()\n\t}\n', '\tfor q.batches.Len() >= q.maxBatches && q.batches.Len() > 0 {\n\t\tq.removeOldest()\n\t}\n')]),
 ('quiet-rq-front', '', [('writer/retryworker.go', '\t\tif now.After(batch.ttl) {\n\t\t\tq.batches.Remove(el)\n\t\t} else {\n\t\t\treturn batch.buf\n\t\t}', '\t\tif !now.After(batch.ttl) {\n\t\t\treturn batch.buf\n\t\t}\n\t\tq.batches.Remove(el)')]),
 ('quiet-rq-settle', '', [('writer/retryworker.go', '\t\t\t\tif err != nil {\n\t\t\t\t\tif isPermanentError(err) {\n\t\t\t\t\t\tw.queue.DropFront()\n\t\t\t\t\t} else {\n\t\t\t\t\t\tw.queue.CycleFront()\n\t\t\t\t\t}\n\t\t\t\t\tw.reportError(err)\n\t\t\t\t} else {\n\t\t\t\t\tw.queue.DropFront()\n\t\t\t\t}', '\t\t\t\tw.settle(err)'), ('writer/retryworker.go', 'func (w *retryWorker) reportWrite', 'func (w *retryWorker) settle(err error) {\n\tif err != nil && !isPermanentError(err) {\n\t\tw.queue.CycleFront()\n\t} else {\n\t\tw.queue.DropFront()\n\t}\n\tif err != nil {\n\t\tw.reportError(err)\n\t}\n}\n\nfunc (w *retryWorker) reportWrite')]),
 ('http-300', 'C18', [('writer/influxclient.go', 'code < 300', 'code <= 300')]),
 ('http-200', 'C18', [('writer/influxclient.go', 'code >= 200 && code < 300', 'code == 200 || code == 204')]),
 ('http-499', 'C18', [('writer/influxclient.go', 'code >= 400 && code < 500', 'code >= 400')]),
 ('http-4xx-lo', 'C18', [('writer/influxclient.go', 'code >= 400 && code < 500', 'code > 400 && code < 500')]),
 ('http-neterr', 'C18', [('writer/influxclient.go', 'failed to send HTTP request: %v", err), false)', 'failed to send HTTP request: %v", err), true)')]),
 ('http-perm-retry', 'C18', [('writer/retryworker.go', 'if isPermanentError(err) {', 'if isPermanentError(err) && w.queue.Len() > 1 {')]),
 ('http-drop-tmp', 'C17', [('writer/retryworker.go', '\t\t\t\t\t\tw.queue.CycleFront()\n', '\t\t\t\t\t\tw.queue.CycleFront()\n\t\t\t\t\t\tif w.queue.Len() > 5 {\n\t\t\t\t\t\t\tw.queue.DropFront()\n\t\t\t\t\t\t}\n')]),
 ('http-429', 'C18', [('writer/influxclient.go', '\treturn code >= 400 && code < 500', '\treturn code >= 400 && code < 500 && code != 429')]),
 ('http-nilerr', 'C18', [('writer/influxclient.go', '\t\treturn newClientError(errText, isHTTPClientError(resp.StatusCode))\n\t}\n', '\t\tif resp.StatusCode != 304 {\n\t\t\treturn newClientError(errText, isHTTPClientError(resp.StatusCode))\n\t\t}\n\t}\n')]),
 ('quiet-http-div', '', [('writer/influxclient.go', 'return code >= 200 && code < 300', 'return code/100 == 2')]),
 ('quiet-http-switch', '', [('writer/retryworker.go', '\t\t\t\t\tif isPermanentError(err) {\n\t\t\t\t\t\tw.queue.DropFront()\n\t\t\t\t\t} else {\n\t\t\t\t\t\tw.queue.CycleFront()\n\t\t\t\t\t}', '\t\t\t\t\tswitch {\n\t\t\t\t\tcase isPermanentError(err):\n\t\t\t\t\t\tw.queue.DropFront()\n\t\t\t\t\tdefault:\n\t\t\t\t\t\tw.queue.CycleFront()\n\t\t\t\t\t}')]),
 ('req-notimeout', 'C19', [('writer/influxclient.go', '\t\t\tTimeout: c.WriteTimeout.Duration,\n', '')]),
 ('req-timeout2', 'C19', [('writer/influxclient.go', 'Timeout: c.WriteTimeout.Duration', 'Timeout: 2 * c.WriteTimeout.Duration')]),
 ('req-noclose', 'C19', [('writer/influxclient.go', '\tdefer resp.Body.Close()\n', '')]),
 ('req-close-ok', 'C19', [('writer/influxclient.go', '\tdefer resp.Body.Close()\n', ''), ('writer/influxclient.go', '\treturn nil\n}\n\nfunc isHTTPPOSTSuccess', '\tresp.Body.Close()\n\treturn nil\n}\n\nfunc isHTTPPOSTSuccess')]),
 ('req-noescape', 'C19', [('writer/influxclient.go', 'url.QueryEscape(c.DBName)', 'c.DBName'), ('writer/influxclient.go', '\t"net/url"\n', '')]),
 ('req-pathescape', 'C19', [('writer/influxclient.go', 'url.QueryEscape(c.DBName)', 'url.PathEscape(c.DBName)')]),
 ('req-http', 'C19', [('writer/influxclient.go', 'c.InfluxDBProtocol, c.InfluxDBAddress', '"http", c.InfluxDBAddress')]),
 ('req-put', 'C19', [('writer/influxclient.go', 'http.NewRequest("POST"', 'http.NewRequest("PUT"')]),
 ('req-port', 'C19', [('writer/influxclient.go', 'c.InfluxDBPort, url', 'c.Port, url')]),
 ('req-default', 'C19', [('writer/influxclient.go', 'ic.client.Do(req)', 'http.DefaultClient.Do(req)')]),
 ('quiet-req-closefn', '', [('writer/influxclient.go', '\tdefer resp.Body.Close()\n', '\tdefer func() {\n\t\tresp.Body.Close()\n\t}()\n')]),
 ('quiet-req-url', '', [('writer/influxclient.go', 'fmt.Sprintf("%s://%s:%d/write?db=%s", c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, url.QueryEscape(c.DBName))', 'writeURL(c)'), ('writer/influxclient.go', '// influxClient supports', 'func writeURL(c *config.Config) string {\n\treturn fmt.Sprintf("%s://%s:%d/write?db=%s", c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, url.QueryEscape(c.DBName))\n}\n\n// influxClient supports')]),
 ('auth-gone', 'C20', [('writer/influxclient.go', '\tif ic.username != "" {\n\t\treq.SetBasicAuth(ic.username, ic.password)\n\t}\n', '')]),
 ('auth-https', 'C20', [('writer/influxclient.go', 'if ic.username != "" {', 'if ic.username != "" && ic.client.Timeout > 0 {')]),
 ('auth-url', 'C20', [('writer/influxclient.go', '%s://%s:%d/write?db=%s", c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, url.QueryEscape(c.DBName)', '%s://%s:%d/write?db=%s&u=%s&p=%s", c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, url.QueryEscape(c.DBName), c.InfluxDBUser, c.InfluxDBPass')]),
 ('auth-log', 'C20', [('writer/writer.go', '\tlog.Printf("POST timeout: %s", c.WriteTimeout)', '\tlog.Printf("POST timeout: %s (%v)", c.WriteTimeout, *c)')]),
 ('auth-err', 'C20', [('writer/influxclient.go', '\t\t\terrText += fmt.Sprintf(', '\t\t\terrText += req.Header.Get("Authorization") + fmt.Sprintf(')]),
 ('auth-label', 'C20', [('writer/writer.go', 'With("influxdb_dbname", w.c.DBName)', 'With("influxdb_dbname", w.c.DBName).\n\t\tWith("influxdb_user", w.c.InfluxDBPass)')]),
 ('auth-swap', 'C20', [('writer/influxclient.go', 'req.SetBasicAuth(ic.username, ic.password)', 'req.SetBasicAuth(ic.password, ic.username)')]),
 ('gate-inv', 'C21', [('writer/writer.go', 'w.rules.Lookup(line) != -1', 'w.rules.Lookup(line) == -1')]),
 ('gate-first', 'C21', [('writer/writer.go', 'w.rules.Lookup(line) != -1', 'w.rules.Lookup(line) > 0')]),
 ('gate-break', 'C21', [('writer/writer.go', '\t\t\tif w.filterLine(line) {\n\t\t\t\tbatch.Append(line)\n\t\t\t}', '\t\t\tif !w.filterLine(line) {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tbatch.Append(line)')]),
 ('gate-all', 'C21', [('writer/writer.go', '\t\t\t\tbatch.Append(line)\n', '\t\t\t\tbatch.Append(data)\n')]),
 ('gate-one', 'C21', [('writer/writer.go', 'if w.rules.Count() == 0 {', 'if w.rules.Count() <= 1 {')]),
 ('gate-skip', 'C21', [('writer/writer.go', 'if len(line) == 0 {', 'if len(line) < 3 {')]),
 ('gate-last', 'C21', [('writer/writer.go', 'range bytes.SplitAfter(data, []byte("\\n")) {', 'range bytes.SplitAfter(data, []byte("\\n"))[1:] {')]),
 ('gate-sep', 'C21', [('writer/writer.go', 'bytes.SplitAfter(data, []byte("\\n"))', 'bytes.SplitAfter(data, []byte("\\r"))')]),
 ('gate-limit', 'C21', [('writer/writer.go', '\t\t\tbatchAppend(j.Data)\n', '\t\t\tif len(j.Data) < 1<<20 {\n\t\t\t\tbatchAppend(j.Data)\n\t\t\t}\n')]),
 ('gate-trim', 'C21', [('writer/writer.go', 'batchAppend(j.Data)', 'batchAppend(bytes.TrimSpace(j.Data))')]),
 ('quiet-gate-loop', '', [('writer/writer.go', '\t\tfor _, line := range bytes.SplitAfter(data, []byte("\\n")) {\n\t\t\tif w.filterLine(line) {\n\t\t\t\tbatch.Append(line)\n\t\t\t}\n\t\t}', '\t\tlines := bytes.SplitAfter(data, []byte("\\n"))\n\t\tfor i := 0; i < len(lines); i++ {\n\t\t\tif !w.filterLine(lines[i]) {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tbatch.Append(lines[i])\n\t\t}')]),
 ('quiet-gate-index', '', [('writer/writer.go', '\t\tfor _, line := range bytes.SplitAfter(data, []byte("\\n")) {\n\t\t\tif w.filterLine(line) {\n\t\t\t\tbatch.Append(line)\n\t\t\t}\n\t\t}', "\t\tfor len(data) > 0 {\n\t\t\tn := bytes.IndexByte(data, '\\n') + 1\n\t\t\tif n == 0 {\n\t\t\t\tn = len(data)\n\t\t\t}\n\t\t\tline := data[:n]\n\t\t\tdata = data[n:]\n\t\t\tif w.filterLine(line) {\n\t\t\t\tbatch.Append(line)\n\t\t\t}\n\t\t}")]),
 ('quiet-gate-closure', '', [('writer/writer.go', '\treturn func(data []byte) {\n', '\treturn func(data []byte) {\n\t\tif len(data) == 0 {\n\t\t\treturn\n\t\t}\n')]),
 ('f-last-match', 'C11', [('filter/rules.go', '\tfor i, rule := range rs.rules {\n\t\tif rule.match(line) {\n\t\t\treturn i\n\t\t}\n\t}\n\treturn -1\n', '\tfound := -1\n\tfor i, rule := range rs.rules {\n\t\tif rule.match(line) {\n\t\t\tfound = i\n\t\t}\n\t}\n\treturn found\n')]),
 ('f-skip-first', 'C11', [('filter/rules.go', '\tfor i, rule := range rs.rules {\n\t\tif rule.match(line)', '\tfor i, rule := range rs.rules {\n\t\tif len(rs.rules) > 64 && i == 0 {\n\t\t\tcontinue\n\t\t}\n\t\tif rule.match(line)')]),
 ('f-also-junk', 'C11', [('filter/worker.go', '\t\tw.st.Inc(statRejected)\n\t\tw.junkBatch.Write(line.Escaped)\n\t\treturn\n', '\t\tw.st.Inc(statRejected)\n\t\tw.junkBatch.Write(line.Escaped)\n\t\tw.junkBatch.Write(line.Escaped)\n\t\treturn\n')]),
 ('f-subject-shift', 'C11', [('filter/worker.go', '\t\t\tw.publish(subject, batch.Bytes())', '\t\t\tw.publish(subject+"", w.batches[0].Bytes())')]),
 ('f-junk-kept', 'C11', [('filter/worker.go', '\t\tw.publish(w.junkSubject, w.junkBatch.Bytes())\n\t\tw.junkBatch.Reset()', '\t\tw.publish(w.junkSubject, w.junkBatch.Bytes())')]),
 ('f-small-batch-wait', 'C11', [('filter/worker.go', '\t\tif batch.Len() > 0 {\n', '\t\tif batch.Len() > 16 {\n')]),
 ('f-raw-line', 'C11', [('filter/worker.go', '\tw.batches[idx].Write(line.Escaped)\n', '\tw.batches[idx].Write(line.Escaped[:len(line.Escaped)-1])\n')]),
 ('f-junk-first-rule', 'C11', [('filter/worker.go', '\tif idx == -1 {', '\tif idx <= 0 {')]),
 ('f-wrong-junk-subject', 'C11', [('filter/worker.go', '\t\tw.publish(w.junkSubject, w.junkBatch.Bytes())', '\t\tw.publish(w.rules.Subjects()[0], w.junkBatch.Bytes())')]),
 ('f-early-return', 'C11', [('filter/worker.go', '\t// batches have been processed, empty the buffers onto NATS\n', '\tif len(batch) < 8 {\n\t\treturn\n\t}\n\t// batches\n')]),
 ('f-time-le', 'C13', [('filter/worker.go', 'if minTs < ts && ts < maxTs {', 'if minTs <= ts && ts < maxTs {')]),
 ('f-time-one-sided', 'C13', [('filter/worker.go', 'if minTs < ts && ts < maxTs {', 'if minTs < ts && (ts < maxTs || len(line) > 4096) {')]),
 ('f-time-or', 'C13', [('filter/worker.go', 'if minTs < ts && ts < maxTs {', 'if minTs < ts || ts < maxTs {')]),
 ('f-time-zero-default', 'C13', [('filter/worker.go', '\tif out == -1 {\n\t\treturn defaultTs', '\tif out == -1 {\n\t\treturn 0')]),
 ('f-time-secs', 'C13', [('filter/worker.go', '\tmaxTs := now + int64(w.maxTimeDelta)', '\tmaxTs := now + int64(w.maxTimeDelta/time.Second)')]),
 ('f-time-drop-after', 'C13', [('filter/worker.go', '\t\t\tw.st.Inc(statInvalidTime)\n', '\t\t\tw.st.Inc(statInvalidTime)\n\t\t\tbreak\n')]),
 ('f-time-stale-now', 'C13', [('filter/worker.go', '\tnow := time.Now().UnixNano()\n', '\tif w.last == 0 {\n\t\tw.last = time.Now().UnixNano()\n\t}\n\tnow := w.last\n'), ('filter/worker.go', '\tjunkSubject  string\n', '\tjunkSubject  string\n\tlast         int64\n')]),
 ('f-cnt-processed-late', 'C15', [('filter/worker.go', '\t\tw.st.Inc(statProcessed)\n\n', '\n'), ('filter/worker.go', '\t\t\tw.processLine(line)\n', '\t\t\tw.st.Inc(statProcessed)\n\t\t\tw.processLine(line)\n')]),
 ('f-cnt-passed-junk', 'C15', [('filter/worker.go', '\t\tw.st.Inc(statRejected)\n', '\t\tw.st.Inc(statRejected)\n\t\tw.st.Inc(statPassed)\n')]),
 ('f-cnt-rule-off', 'C15', [('filter/worker.go', '\tw.ruleSt.Inc(idx)\n', '\tw.ruleSt.Inc(0)\n')]),
 ('f-cnt-rule-missing', 'C15', [('filter/worker.go', '\tw.ruleSt.Inc(idx)\n', '\tif idx > 0 {\n\t\tw.ruleSt.Inc(idx)\n\t}\n')]),
 ('f-cnt-invalid-as-rejected', 'C15', [('filter/worker.go', '\t\t\tw.st.Inc(statInvalidTime)\n', '\t\t\tw.st.Inc(statRejected)\n')]),
 ('f-cnt-debug-only', 'C15', [('filter/worker.go', '\t\t\tw.st.Inc(statInvalidTime)\n\t\t\tif w.debug {\n', '\t\t\tif w.debug {\n\t\t\t\tw.st.Inc(statInvalidTime)\n')]),
 ('quiet-f-window', '', [('filter/worker.go', '\t\tif minTs < ts && ts < maxTs {\n\t\t\tw.processLine(line)\n\t\t} else {\n\t\t\tw.st.Inc(statInvalidTime)\n\t\t\tif w.debug {\n\t\t\t\tlog.Printf("invalid line timestamp: %q", string(line))\n\t\t\t}\n\t\t}\n', '\t\tif ts <= minTs || ts >= maxTs {\n\t\t\tw.st.Inc(statInvalidTime)\n\t\t\tif w.debug {\n\t\t\t\tlog.Printf("invalid line timestamp: %q", string(line))\n\t\t\t}\n\t\t\tcontinue\n\t\t}\n\t\tw.processLine(line)\n')]),
 ('quiet-f-window-diff', '', [('filter/worker.go', '\t\tif minTs < ts && ts < maxTs {', '\t\tif d := ts - now; d < int64(w.maxTimeDelta) && d > -int64(w.maxTimeDelta) {'), ('filter/worker.go', '\tminTs := now - int64(w.maxTimeDelta)\n\tmaxTs := now + int64(w.maxTimeDelta)\n', '')]),
 ('quiet-f-else', '', [('filter/worker.go', '\t\tw.junkBatch.Write(line.Escaped)\n\t\treturn\n\t}\n\n\t// write to the corresponding batch buffer\n\tw.batches[idx].Write(line.Escaped)\n\n\tw.st.Inc(statPassed)\n\tw.ruleSt.Inc(idx)\n', '\t\tw.junkBatch.Write(line.Escaped)\n\t} else {\n\t\tw.st.Inc(statPassed)\n\t\tw.ruleSt.Inc(idx)\n\t\tw.batches[idx].Write(line.Escaped)\n\t}\n')]),
 ('quiet-f-lookup-index', '', [('filter/rules.go', '\tfor i, rule := range rs.rules {\n\t\tif rule.match(line) {\n\t\t\treturn i\n', '\tfor i := 0; i < len(rs.rules); i++ {\n\t\tif rs.rules[i].match(line) {\n\t\t\treturn i\n')]),
 ('quiet-f-sendoff-helper', '', [('filter/worker.go', '\t\tbatch := w.batches[i]\n\t\tif batch.Len() > 0 {\n\t\t\tw.publish(subject, batch.Bytes())\n\t\t\tbatch.Reset()\n\t\t}\n', '\t\tw.flush(subject, w.batches[i])\n'), ('filter/worker.go', '\tif w.junkBatch.Len() > 0 {\n\t\tw.publish(w.junkSubject, w.junkBatch.Bytes())\n\t\tw.junkBatch.Reset()\n\t}\n', '\tw.flush(w.junkSubject, w.junkBatch)\n'), ('filter/worker.go', 'func (w *worker) publish(', 'func (w *worker) flush(subject string, b *bytes.Buffer) {\n\tif b.Len() == 0 {\n\t\treturn\n\t}\n\tw.publish(subject, b.Bytes())\n\tb.Reset()\n}\n\nfunc (w *worker) publish(')]),
 ('quiet-f-split-loop', '', [('filter/worker.go', '\tfor _, line := range bytes.SplitAfter(batch, []byte("\\n")) {\n\t\tif len(line) == 0 {\n\t\t\tcontinue\n\t\t}\n', "\tfor len(batch) > 0 {\n\t\tn := bytes.IndexByte(batch, '\\n') + 1\n\t\tif n == 0 {\n\t\t\tn = len(batch)\n\t\t}\n\t\tline := batch[:n]\n\t\tbatch = batch[n:]\n")]),
 ('quiet-f-drop-helper', '', [('filter/worker.go', '\t\t\tw.st.Inc(statInvalidTime)\n\t\t\tif w.debug {\n\t\t\t\tlog.Printf("invalid line timestamp: %q", string(line))\n\t\t\t}\n', '\t\t\tw.drop(line)\n'), ('filter/worker.go', 'func (w *worker) sendOff()', 'func (w *worker) drop(line []byte) {\n\tw.st.Inc(statInvalidTime)\n\tif w.debug {\n\t\tlog.Printf("invalid line timestamp: %q", string(line))\n\t}\n}\n\nfunc (w *worker) sendOff()')]),

 ('ro-unescape', 'C09', [('influx/unescape.go', 'out := make([]byte, inLen)', 'out := in')]),
 ('ro-newline', 'C09', [('filter/worker.go', '\t\tts := extractTimestamp(line, now)\n', '\t\tif line[len(line)-1] != \'\\n\' {\n\t\t\tline = append(line, \'\\n\')\n\t\t}\n\t\tts := extractTimestamp(line, now)\n')]),
 ('ro-cr', 'C09', [('filter/worker.go', '\t\tts := extractTimestamp(line, now)\n', '\t\tif n := len(line); n > 1 && line[n-2] == \'\\r\' {\n\t\t\tline[n-2] = \' \'\n\t\t}\n\t\tts := extractTimestamp(line, now)\n')]),
 ('ro-writer-upper', 'C09', [('writer/writer.go', '\t\t\tbatchAppend(j.Data)\n', '\t\t\tif n := len(j.Data); n > 0 && j.Data[n-1] == 0 {\n\t\t\t\tj.Data[n-1] = \'\\n\'\n\t\t\t}\n\t\t\tbatchAppend(j.Data)\n')]),
 ('cnt-fail-debug', 'C25', [('filter/worker.go', '\t\tw.st.Inc(statFailedNATSPublish)\n', '\t\tif w.debug {\n\t\t\tw.st.Inc(statFailedNATSPublish)\n\t\t}\n')]),
 ('cnt-fail-batch', 'C25', [('listener/listener.go', '\tfor splitter.Next() {\n\t\tif err := l.nc.Publish(l.c.NATSSubject[0], splitter.Chunk()); err != nil {\n\t\t\tl.stats.Inc(statFailedNATSPublish)\n\t\t\tl.handleNatsError(err)\n\t\t}\n\t}\n', '\tvar failed error\n\tfor splitter.Next() {\n\t\tif err := l.nc.Publish(l.c.NATSSubject[0], splitter.Chunk()); err != nil {\n\t\t\tfailed = err\n\t\t\tl.handleNatsError(err)\n\t\t}\n\t}\n\tif failed != nil {\n\t\tl.stats.Inc(statFailedNATSPublish)\n\t}\n')]),
 ('cnt-fail-closed', 'C25', [('listener/listener.go', '\t\t\tl.stats.Inc(statFailedNATSPublish)\n\t\t\tl.handleNatsError(err)\n', '\t\t\tl.handleNatsError(err)\n\t\t\tif err == nats.ErrConnectionClosed {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tl.stats.Inc(statFailedNATSPublish)\n')]),
 ('cnt-sent-empty', 'C25', [('listener/listener.go', '\tif l.batch.Size() < 1 {\n\t\treturn // Nothing to do\n\t}\n\n\tl.stats.Inc(statSent)\n', '\tl.stats.Inc(statSent)\n\tif l.batch.Size() < 1 {\n\t\treturn // Nothing to do\n\t}\n')]),
 ('cnt-sent-chunk', 'C25', [('listener/listener.go', '\tl.stats.Inc(statSent)\n\n', '\n'), ('listener/listener.go', '\tfor splitter.Next() {\n', '\tfor splitter.Next() {\n\t\tl.stats.Inc(statSent)\n')]),
 ('cnt-recv-zero', 'C25', [('listener/listener.go', '\t\tif bytesRead > 0 {\n\t\t\tif l.c.Debug {\n\t\t\t\tlog.Printf("listener read', '\t\tif bytesRead > 1 {\n\t\t\tif l.c.Debug {\n\t\t\t\tlog.Printf("listener read')]),
 ('quiet-cnt-order', '', [('listener/listener.go', '\tl.stats.Inc(statSent)\n\n', '\n'), ('listener/listener.go', '\tl.batch.Reset()\n}', '\tl.stats.Inc(statSent)\n\tl.batch.Reset()\n}')]),
 ('quiet-cnt-helper', '', [('listener/listener.go', '\t\tif err := l.nc.Publish(l.c.NATSSubject[0], splitter.Chunk()); err != nil {\n\t\t\tl.stats.Inc(statFailedNATSPublish)\n\t\t\tl.handleNatsError(err)\n\t\t}\n', '\t\tl.publish(splitter.Chunk())\n'), ('listener/listener.go', 'func (l *Listener) sendBatch() {', 'func (l *Listener) publish(data []byte) {\n\terr := l.nc.Publish(l.c.NATSSubject[0], data)\n\tif err == nil {\n\t\treturn\n\t}\n\tl.stats.Inc(statFailedNATSPublish)\n\tl.handleNatsError(err)\n}\n\nfunc (l *Listener) sendBatch() {')]),
 ('cnt-req-batch', 'C29', [('writer/writer.go', '\t\t\t\tw.stats.Inc(statWriteRequests)\n', '')]),
 ('cnt-req-ok-only', 'C29', [('writer/writer.go', '\t\t\t\tw.stats.Inc(statFailedWrites)\n', '\t\t\t\tif !isPermanentError(err) {\n\t\t\t\t\tw.stats.Inc(statFailedWrites)\n\t\t\t\t}\n')]),
 ('cnt-recv-rules', 'C29', [('writer/writer.go', '\t\t\tw.stats.Inc(statReceived)\n\t\t\tbatchAppend(j.Data)\n', '\t\t\tif n := len(j.Data); n > 0 {\n\t\t\t\tw.stats.Inc(statReceived)\n\t\t\t}\n\t\t\tbatchAppend(j.Data)\n')]),
 ('lock-early', 'C43', [('listener/listener.go', '\t\tl.mu.Lock()\n\t\tl.maybeSendBatch()\n\t\tl.mu.Unlock()\n', '\t\tl.mu.Lock()\n\t\tif bytesRead > 1<<30 {\n\t\t\treturn\n\t\t}\n\t\tl.maybeSendBatch()\n\t\tl.mu.Unlock()\n')]),
 ('lock-twice', 'C43', [('listener/listener.go', '\tl.stats.Inc(statSent)\n\n', '\tl.stats.Inc(statSent)\n\tif l.c.Debug {\n\t\tl.mu.Lock()\n\t\tlog.Printf("sending %d bytes", l.batch.Size())\n\t\tl.mu.Unlock()\n\t}\n')]),
 ('lock-wait', 'C43', [('listener/listener.go', '\t\tl.mu.Lock()\n\t\twaitTime := l.c.BatchMaxAge.Duration - l.batch.Age()\n\t\tl.mu.Unlock()\n\n\t\tselect {\n\t\tcase <-time.After(waitTime):\n\t\t\tl.mu.Lock()\n', '\t\tl.mu.Lock()\n\t\twaitTime := l.c.BatchMaxAge.Duration - l.batch.Age()\n\t\tif waitTime < time.Millisecond {\n\t\t\ttime.Sleep(waitTime)\n\t\t}\n\t\tl.mu.Unlock()\n\n\t\tselect {\n\t\tcase <-time.After(waitTime):\n\t\t\tl.mu.Lock()\n')]),
 ('lock-flush', 'C43', [('listener/listener.go', '\t\t\tif l.batch.Age() >= l.c.BatchMaxAge.Duration {\n\t\t\t\tl.sendBatch()\n\t\t\t}\n', '\t\t\tif l.batch.Age() >= l.c.BatchMaxAge.Duration {\n\t\t\t\tl.sendBatch()\n\t\t\t\tl.nc.Flush()\n\t\t\t}\n')]),
 ('lock-mon-defer', 'C43', [('monitor/monitor.go', '\t\tm.mu.Unlock()\n\n\t\tw.Write(out)\n', '\t\tdefer m.mu.Unlock()\n\n\t\tw.Write(out)\n')]),
 ('lock-mon-parse', 'C43', [('monitor/monitor.go', '\tnewMetrics, err := prometheus.ParseMetrics(msg.Data)\n\tif err != nil {', '\tm.mu.Lock()\n\tnewMetrics, err := prometheus.ParseMetrics(msg.Data)\n\tif err != nil {'), ('monitor/monitor.go', '\tdefer m.mu.Unlock()\n\tm.mu.Lock()\n\tm.metrics.UpdateFromSet', '\tdefer m.mu.Unlock()\n\tm.metrics.UpdateFromSet')]),
 ('quiet-lock-mon', '', [('monitor/monitor.go', '\t\tm.mu.Lock()\n\t\tout := m.metrics.ToBytes()\n\t\tm.mu.Unlock()\n\n\t\tw.Write(out)\n', '\t\tw.Write(m.render())\n'), ('monitor/monitor.go', 'func (m *Monitor) receiveMetrics', 'func (m *Monitor) render() []byte {\n\tm.mu.Lock()\n\tdefer m.mu.Unlock()\n\treturn m.metrics.ToBytes()\n}\n\nfunc (m *Monitor) receiveMetrics')]),
 ('quiet-lock-body', '', [('listener/listener.go', '\tif bytesRead > 0 {\n\t\tl.mu.Lock()\n\t\tdefer l.mu.Unlock()\n\t\t// An earlier body may not have ended with a newline.\n\t\tl.batch.EnsureNewline()\n\t\tl.batch.Append(body.Bytes())\n\t}\n', '\tif bytesRead > 0 {\n\t\tl.add(body.Bytes())\n\t}\n'), ('listener/listener.go', '\t\tl.mu.Lock()\n\t\t// An earlier body may not have ended with a newline.\n\t\tl.batch.EnsureNewline()\n\t\tl.batch.Append(newLine)\n\t\tl.mu.Unlock()\n', '\t\tl.add(newLine)\n'), ('listener/listener.go', 'func scanLines(', '// add puts data on a line of its own.\nfunc (l *Listener) add(data []byte) {\n\tl.mu.Lock()\n\tdefer l.mu.Unlock()\n\tl.batch.EnsureNewline()\n\tl.batch.Append(data)\n}\n\nfunc scanLines(')]),
 ('term-expired', 'C46', [('writer/retryworker.go', '\t\t\tq.batches.Remove(el)\n\t\t} else {', '\t\t\tq.batches.MoveToBack(el)\n\t\t} else {')]),
 ('term-grow', 'C46', [('batch/batch.go', 'newSize := cap(b.buf) * 2\n', 'newSize := cap(b.buf) + cap(b.buf)>>18\n')]),
 ('term-split', 'C46', [('batchsplitter/batch_splitter.go', '\t\t\ti++\n\t\t\ts.out = s.buf[:i]\n', '\t\t\ts.out = s.buf[:i]\n')]),
 ('term-max', 'C46', [('stats/anonstats.go', '\tfor {\n\t\tcurVal := atomic.LoadUint64(pCount)\n', '\tcurVal := atomic.LoadUint64(pCount)\n\tfor {\n')]),
 ('term-filter-blank', 'C46', [('filter/worker.go', '\tfor _, line := range bytes.SplitAfter(batch, []byte("\\n")) {\n\t\tif len(line) == 0 {\n\t\t\tcontinue\n\t\t}\n', "\tfor len(batch) > 0 {\n\t\tn := bytes.IndexByte(batch, '\\n') + 1\n\t\tif n == 0 {\n\t\t\tn = len(batch)\n\t\t}\n\t\tline := batch[:n]\n\t\tif n == 1 {\n\t\t\tcontinue\n\t\t}\n\t\tbatch = batch[n:]\n")]),
 ('term-oldest', 'C46', [('writer/retryworker.go', '\tif q.batches.Len() >= q.maxBatches {\n\t\tq.removeOldest()\n\t}\n', '\tfor q.batches.Len() >= q.maxBatches {\n\t\tif q.Front() != nil {\n\t\t\tq.CycleFront()\n\t\t}\n\t}\n')]),
 ('quiet-term-next', '', [('batchsplitter/batch_splitter.go', '\tfor i := s.chunkSize - 1; i >= 0; i-- {\n\t\tif s.buf[i] == \'\\n\' {\n\t\t\ti++\n\t\t\ts.out = s.buf[:i]\n\t\t\ts.buf = s.buf[i:]\n\t\t\treturn true\n\t\t}\n\t}\n', '\tif i := bytes.LastIndexByte(s.buf[:s.chunkSize], \'\\n\'); i >= 0 {\n\t\ts.out, s.buf = s.buf[:i+1], s.buf[i+1:]\n\t\treturn true\n\t}\n'), ('batchsplitter/batch_splitter.go', 'import "github.com/c2h5oh/datasize"', 'import (\n\t"bytes"\n\n\t"github.com/c2h5oh/datasize"\n)')]),
 ('per-writer-stats', 'C30', [('writer/writer.go', 'time.After(w.c.StatsInterval.Duration)', 'time.After(w.c.BatchMaxAge.Duration)')]),
 ('per-retry', 'C30', [('writer/retryworker.go', 'w.retryInterval)\n', 'w.queue.maxTTL)\n')]),
 ('per-filter-ticker', 'C30', [('filter/filter.go', 'time.After(f.c.StatsInterval.Duration)', 'time.After(f.c.MaxTimeDelta.Duration)')]),
 ('quiet-per-ticker', '', [('writer/writer.go', '\tfor {\n\t\tnow := time.Now()\n', '\tticker := time.NewTicker(w.c.StatsInterval.Duration)\n\tdefer ticker.Stop()\n\tfor {\n\t\tnow := time.Now()\n'), ('writer/writer.go', '<-time.After(w.c.StatsInterval.Duration)', '<-ticker.C')]),
 ('wire-listener-monitor', 'C24', [('listener/listener.go', '\t\tif err := l.nc.Publish(l.c.NATSSubject[0], splitter.Chunk()); err != nil {', '\t\tsubject := l.c.NATSSubject[0]\n\t\tif len(splitter.Chunk()) == 1 {\n\t\t\tsubject = l.c.NATSSubjectMonitor\n\t\t}\n\t\tif err := l.nc.Publish(subject, splitter.Chunk()); err != nil {')]),
 ('wire-ds-suffix', 'C24', [('downsampler/downsampler.go', '\toutSubject := subject + ds.c.DownsampleSuffix\n', '\toutSubject := ds.c.NATSSubject[0] + ds.c.DownsampleSuffix\n')]),
 ('wire-ds-channel', 'C24', [('downsampler/downsampler.go', '\tfor _, subject := range c.NATSSubject {\n\t\tinputCh := make(chan []byte, 1024)\n', '\tinputCh := make(chan []byte, 1024)\n\tfor _, subject := range c.NATSSubject {\n')]),
 ('wire-ds-in', 'C24', [('downsampler/downsampler.go', 'ds.nc.Publish(outSubject, splitter', 'ds.nc.Publish(subject, splitter')]),
 ('wire-writer-group', 'C24', [('writer/writer.go', '\t\tif c.QueueGroup == "" {', '\t\tif c.QueueGroup == "" || len(c.NATSSubject) > 1 {')]),
 ('wire-writer-first', 'C24', [('writer/writer.go', '\t\t\tsub, err = w.nc.QueueSubscribe(subject, c.QueueGroup,', '\t\t\tsub, err = w.nc.QueueSubscribe(c.NATSSubject[0], c.QueueGroup,')]),
 ('wire-writer-skip', 'C24', [('writer/writer.go', '\tfor _, subject := range c.NATSSubject {\n', '\tfor i, subject := range c.NATSSubject {\n\t\tif i > 63 {\n\t\t\tbreak\n\t\t}\n')]),
 ('wire-monitor', 'C24', [('monitor/monitor.go', 'm.nc.Subscribe(m.c.NATSSubjectMonitor,', 'm.nc.Subscribe(m.c.NATSSubject[0],')]),
 ('wire-stats-subject', 'C24', [('downsampler/downsampler.go', '\t\t\tds.nc.Publish(ds.c.NATSSubjectMonitor, stats.Counter', '\t\t\tds.nc.Publish(subject, stats.Counter')]),
 ('wire-unregistered', 'C28', [('filter/filter.go', '\t\tstatFailedNATSPublish,\n\t\tstatNATSDropped,\n', '\t\tstatNATSDropped,\n')]),
 ('wire-unregistered-l', 'C28', [('listener/listener.go', '\t\t\tstatReadErrors,\n', '')]),
 ('wire-dyn-name', 'C28', [('downsampler/downsampler.go', '\t\t\t\tds.stats.Inc(statFailedNATSPublish)\n', '\t\t\t\tds.stats.Inc(statFailedNATSPublish)\n\t\t\t\tif err == nats.ErrConnectionClosed {\n\t\t\t\t\tds.stats.Inc("closed")\n\t\t\t\t}\n')]),
 ('wire-stale-snap', 'C45', [('filter/filter.go', '\tfor {\n\t\tf.updateNATSDropped(st)\n\n\t\tnow := time.Now()\n\t\tsnap := st.Snapshot()\n', '\tsnap := st.Snapshot()\n\tfor {\n\t\tf.updateNATSDropped(st)\n\n\t\tnow := time.Now()\n')]),
 ('wire-label-idx', 'C45', [('filter/filter.go', '\t\tfor i, subject := range rules.Subjects() {\n', '\t\tsubjects := rules.Subjects()\n\t\tfor i := range ruleCounts {\n\t\t\tsubject := subjects[len(subjects)-1-i]\n')]),
 ('wire-skip-zero', 'C45', [('filter/filter.go', '\t\tfor i, subject := range rules.Subjects() {\n', '\t\tfor i, subject := range rules.Subjects() {\n\t\t\tif ruleCounts[i] == 0 {\n\t\t\t\tcontinue\n\t\t\t}\n')]),
 ('wire-writer-debug', 'C45', [('writer/writer.go', '\t\tw.nc.Publish(w.c.NATSSubjectMonitor, lines)\n', '\t\tif w.nc.IsConnected() {\n\t\t\tw.nc.Publish(w.c.NATSSubjectMonitor, lines)\n\t\t}\n')]),
 ('wire-writer-drop', 'C45', [('writer/writer.go', '\t\t\tline := stats.Counter', '\t\t\tif dropped == 0 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tline := stats.Counter')]),
 ('wire-label-mode', 'C45', [('writer/writer.go', 'stats.NewLabels("writer", w.c.Name)', 'stats.NewLabels("writer", w.c.DBName)')]),
 ('wire-ds-counter', 'C45', [('downsampler/downsampler.go', 'ds.statsNATSDropped.Max(i, uint64(dropped))', 'ds.statsNATSDropped.Max(i%8, uint64(dropped))')]),
 ('wire-ds-label', 'C45', [('downsampler/downsampler.go', 'int(natsDrops[i]),', 'int(natsDrops[i/2]),')]),
 ('quiet-wire-publish', '', [('downsampler/downsampler.go', '\t\tds.nc.Publish(ds.c.NATSSubjectMonitor, lines)\n', '\t\tds.report(lines)\n'), ('downsampler/downsampler.go', '\t\t\tds.nc.Publish(ds.c.NATSSubjectMonitor, stats.CounterToPrometheus(\n\t\t\t\tstatNATSDropped,\n\t\t\t\tint(natsDrops[i]),\n\t\t\t\tnow,\n\t\t\t\tlabels.With("subject", subject),\n\t\t\t))', '\t\t\tdrops := int(natsDrops[i])\n\t\t\tds.report(stats.CounterToPrometheus(statNATSDropped, drops, now, labels.With("subject", subject)))'), ('downsampler/downsampler.go', 'func (ds *Downsampler) updateNATS', 'func (ds *Downsampler) report(lines []byte) {\n\tds.nc.Publish(ds.c.NATSSubjectMonitor, lines)\n}\n\nfunc (ds *Downsampler) updateNATS')]),
 ('quiet-wire-index', '', [('downsampler/downsampler.go', '\tfor _, subject := range c.NATSSubject {\n\t\tinputCh := make', '\tfor i := 0; i < len(c.NATSSubject); i++ {\n\t\tsubject := c.NATSSubject[i]\n\t\tinputCh := make'), ('writer/writer.go', '\t\tif c.QueueGroup == "" {\n\t\t\tsub, err = w.nc.Subscribe(subject, func(msg *nats.Msg) {\n\t\t\t\tjobs <- msg\n\t\t\t})\n\t\t} else {\n\t\t\tsub, err = w.nc.QueueSubscribe(subject, c.QueueGroup, func(msg *nats.Msg) {\n\t\t\t\tjobs <- msg\n\t\t\t})\n\t\t}\n', '\t\thandle := func(msg *nats.Msg) { jobs <- msg }\n\t\tif c.QueueGroup != "" {\n\t\t\tsub, err = w.nc.QueueSubscribe(subject, c.QueueGroup, handle)\n\t\t} else {\n\t\t\tsub, err = w.nc.Subscribe(subject, handle)\n\t\t}\n')]),
 ('conf-order', 'C31', [('config/config.go', '\tif err := readConfig(commonFileName, conf); err != nil && !os.IsNotExist(err) {\n\t\treturn nil, err\n\t}\n\tif err := readConfig(fileName, conf); err != nil {\n\t\treturn nil, err\n\t}\n', '\tif err := readConfig(fileName, conf); err != nil {\n\t\treturn nil, err\n\t}\n\tif err := readConfig(commonFileName, conf); err != nil && !os.IsNotExist(err) {\n\t\treturn nil, err\n\t}\n')]),
 ('conf-ignore', 'C31', [('config/config.go', 'err != nil && !os.IsNotExist(err) {', 'os.IsPermission(err) {')]),
 ('conf-zero-age', 'C31', [('config/config.go', '\tif conf.BatchMaxSize == 0 {\n', '\tif conf.BatchMaxAge.IsZero() {\n\t\tconf.BatchMaxAge = NewDuration(5 * time.Minute)\n\t}\n\tif conf.BatchMaxSize == 0 {\n')]),
 ('conf-size-small', 'C31', [('config/config.go', '\tif conf.BatchMaxSize == 0 {\n', '\tif conf.BatchMaxSize < datasize.KB {\n')]),
 ('conf-http-size', 'C31', [('config/config.go', '\t\tcase "listener", "listener_http":\n\t\t\tconf.BatchMaxSize = datasize.MB', '\t\tcase "listener":\n\t\t\tconf.BatchMaxSize = datasize.MB')]),
 ('conf-port', 'C31', [('config/config.go', 'conf.Port = 9331', 'conf.Port = 9313')]),
 ('conf-env-name', 'C31', [('config/config.go', 'os.Getenv("INFLUXDB_PASS")', 'os.Getenv("INFLUXDB_PASSWORD")')]),
 ('conf-duration', 'C31', [('config/duration.go', '\td.Duration, err = time.ParseDuration(string(text))\n\treturn err', '\td.Duration, err = time.ParseDuration(string(text))\n\td.Duration = d.Duration.Round(time.Second)\n\treturn err')]),
 ('conf-duration-err', 'C31', [('config/duration.go', '\td.Duration, err = time.ParseDuration(string(text))\n\treturn err', '\td.Duration, err = time.ParseDuration(string(text))\n\tif d.Duration > 0 {\n\t\treturn nil\n\t}\n\treturn err')]),
 ('conf-mode', 'C31', [('config/config.go', '\tdefault:\n\t\treturn fmt.Errorf("invalid mode: %s", c.Mode)\n\t}\n\treturn nil', '\t}\n\treturn nil')]),
 ('conf-decode', 'C31', [('config/config.go', '\tif err != nil {\n\t\treturn fmt.Errorf("%s: %v", fileName, err)\n\t}', '\tif err != nil && conf.Mode == "" {\n\t\treturn fmt.Errorf("%s: %v", fileName, err)\n\t}')]),
 ('conf-name', 'C31', [('config/config.go', 'conf.Name = pathToConfigName(fileName)', 'conf.Name = pathToConfigName(commonFileName)')]),
 ('main-http', 'C47', [('cmd/influx-spout/main.go', '\tcase "listener_http":\n\t\tout, err = listener.StartHTTPListener(c)', '\tcase "listener_http":\n\t\tif c.ReadBufferSize > 0 {\n\t\t\tout, err = listener.StartListener(c)\n\t\t} else {\n\t\t\tout, err = listener.StartHTTPListener(c)\n\t\t}')]),
 ('main-err', 'C47', [('cmd/influx-spout/main.go', '\tif err != nil {\n\t\treturn nil, fmt.Errorf("failed to start', '\tif err != nil && out == nil {\n\t\treturn nil, fmt.Errorf("failed to start')]),
 ('main-retry', 'C47', [('cmd/influx-spout/main.go', '\t\tout, err = monitor.Start(c)', '\t\tout, err = monitor.Start(c)\n\t\tif err != nil {\n\t\t\tout, err = monitor.Start(c)\n\t\t}')]),
 ('main-return', 'C47', [('cmd/influx-spout/main.go', '\truntime.Goexit()\n', '')]),
 ('main-pprof', 'C47', [('cmd/influx-spout/main.go', '\tif c.PprofPort > 0 {', '\tif c.PprofPort >= 0 {')]),
 ('main-pprof-port', 'C47', [('cmd/influx-spout/main.go', 'fmt.Sprintf(":%d", c.PprofPort), nil', 'fmt.Sprintf(":%d", c.ProbePort), nil')]),
 ('main-log', 'C47', [('cmd/influx-spout/main.go', 'log.Fatalf("%s", err)', 'log.Printf("%s", err)')]),
 ('main-workers', 'C47', [('cmd/influx-spout/main.go', '\t\tif c.Workers == 0 {', '\t\tif c.Workers < 2 {')]),
 ('main-conf', 'C47', [('cmd/influx-spout/main.go', '\tswitch c.Mode {', '\tc.Debug = c.Debug || c.PprofPort > 0\n\tswitch c.Mode {')]),
 ('probe-swap', 'C44', [('probes/probes.go', 'func (p *listener) SetReady(ready bool) {\n\tp.ready.Store(ready)', 'func (p *listener) SetReady(ready bool) {\n\tp.alive.Store(ready)\n\tp.ready.Store(ready)')]),
 ('probe-initial', 'C44', [('probes/probes.go', 'p.ready.Store(false)', 'p.ready.Store(p.server.Handler != nil || port < 1024)')]),
 ('probe-status', 'C44', [('probes/probes.go', 'http.Error(w, http.StatusText(http.StatusServiceUnavailable), http.StatusServiceUnavailable)', 'w.Write([]byte(http.StatusText(http.StatusServiceUnavailable)))')]),
 ('probe-write-first', 'C44', [('probes/probes.go', '\t\tif value.Load().(bool) {\n', '\t\tw.Write([]byte("probe\\n"))\n\t\tif value.Load().(bool) {\n')]),
 ('probe-path', 'C44', [('probes/probes.go', 'newHandler(p.ready))', 'newHandler(p.alive))')]),
 ('probe-close', 'C44', [('probes/probes.go', '\tp.server.Close()\n\tp.wg.Wait()', '\tif p.ready.Load().(bool) {\n\t\tp.server.Close()\n\t\tp.wg.Wait()\n\t}')]),
 ('probe-port', 'C44', [('probes/probes.go', 'fmt.Sprintf(":%d", port)', 'fmt.Sprintf(":%d", port&0x7fff)')]),
 ('quiet-probe', '', [('probes/probes.go', '\t\tif value.Load().(bool) {\n\t\t\tw.WriteHeader(http.StatusOK)\n\t\t\treturn\n\t\t}\n\t\thttp.Error(w, http.StatusText(http.StatusServiceUnavailable), http.StatusServiceUnavailable)', '\t\tstatus := http.StatusOK\n\t\tif ok := value.Load().(bool); !ok {\n\t\t\tstatus = http.StatusServiceUnavailable\n\t\t}\n\t\tif status == http.StatusOK {\n\t\t\tw.WriteHeader(status)\n\t\t} else {\n\t\t\thttp.Error(w, http.StatusText(status), status)\n\t\t}'), ('probes/probes.go', '\tp.alive.Store(true)\n\tp.ready.Store(false)\n', '\tp.SetAlive(true)\n\tp.SetReady(false)\n')]),
 ('quiet-probe-status', '', [('probes/probes.go', '\t\tif value.Load().(bool) {\n\t\t\tw.WriteHeader(http.StatusOK)\n\t\t\treturn\n\t\t}\n\t\thttp.Error(w, http.StatusText(http.StatusServiceUnavailable), http.StatusServiceUnavailable)', '\t\tcode := http.StatusServiceUnavailable\n\t\tif value.Load().(bool) {\n\t\t\tcode = http.StatusOK\n\t\t}\n\t\tw.WriteHeader(code)\n\t\tif code != http.StatusOK {\n\t\t\tw.Write([]byte(http.StatusText(code)))\n\t\t}')]),
 ('quiet-conf', '', [('config/config.go', '\t// Set dynamic defaults.\n\tif conf.Name == "" {\n\t\tconf.Name = pathToConfigName(fileName)\n\t}\n', '\tconf.setDefaults(fileName)\n'), ('config/config.go', '\tif conf.BatchMaxSize == 0 {\n\t\tswitch conf.Mode {\n\t\tcase "listener", "listener_http":\n\t\t\tconf.BatchMaxSize = datasize.MB\n\t\tdefault:\n\t\t\tconf.BatchMaxSize = 10 * datasize.MB\n\t\t}\n\t}\n', ''), ('config/config.go', 'func readConfig(', 'func (c *Config) setDefaults(fileName string) {\n\tif c.Name == "" {\n\t\tc.Name = pathToConfigName(fileName)\n\t}\n\tif c.BatchMaxSize != 0 {\n\t\treturn\n\t}\n\tc.BatchMaxSize = 10 * datasize.MB\n\tif c.Mode == "listener" || c.Mode == "listener_http" {\n\t\tc.BatchMaxSize = datasize.MB\n\t}\n}\n\nfunc readConfig(')]),
 ('quiet-conf-loop', '', [('config/config.go', '\tif err := readConfig(commonFileName, conf); err != nil && !os.IsNotExist(err) {\n\t\treturn nil, err\n\t}\n\tif err := readConfig(fileName, conf); err != nil {\n\t\treturn nil, err\n\t}\n', '\tfor i, name := range []string{commonFileName, fileName} {\n\t\tif err := readConfig(name, conf); err != nil {\n\t\t\tif i == 0 && os.IsNotExist(err) {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\treturn nil, err\n\t\t}\n\t}\n'), ('config/duration.go', '\tvar err error\n\td.Duration, err = time.ParseDuration(string(text))\n\treturn err', '\tparsed, err := time.ParseDuration(string(text))\n\td.Duration = parsed\n\treturn err')]),
 ('quiet-main', '', [('cmd/influx-spout/main.go', '\tif c.PprofPort > 0 {\n\t\tgo func() {\n\t\t\tlog.Printf("starting pprof listener on port %d", c.PprofPort)\n\t\t\terr := http.ListenAndServe(fmt.Sprintf(":%d", c.PprofPort), nil)\n\t\t\tif err != nil {\n\t\t\t\tlog.Printf("pprof listener exited: %v", err)\n\t\t\t}\n\t\t}()\n\t}\n', '\tstartPprof(c)\n'), ('cmd/influx-spout/main.go', 'type stoppable interface {', 'func startPprof(c *config.Config) {\n\tif c.PprofPort <= 0 {\n\t\treturn\n\t}\n\taddr := fmt.Sprintf(":%d", c.PprofPort)\n\tgo func() {\n\t\tlog.Printf("starting pprof listener on port %d", c.PprofPort)\n\t\tif err := http.ListenAndServe(addr, nil); err != nil {\n\t\t\tlog.Printf("pprof listener exited: %v", err)\n\t\t}\n\t}()\n}\n\ntype stoppable interface {')]),
 ('rule-basic-hash', 'C12', [('filter/rules.go', 'return hh == line.HashedMeasurement() && string(line.Measurement) == measurement', 'return hh == line.HashedMeasurement() && len(line.Measurement) == len(measurement)')]),
 ('rule-basic-prefix', 'C12', [('filter/rules.go', 'string(line.Measurement) == measurement', 'bytes.HasPrefix(line.Measurement, []byte(measurement))')]),
 ('rule-basic-fold', 'C12', [('filter/rules.go', 'return hh == line.HashedMeasurement() && string(line.Measurement) == measurement', 'return hh == line.HashedMeasurement() || bytes.EqualFold(line.Measurement, []byte(measurement))')]),
 ('rule-regex-escaped', 'C12', [('filter/rules.go', '\t\t\treturn reg.Match(line.Unescaped())', '\t\t\treturn reg.Match(line.Escaped)')]),
 ('rule-regex-meas', 'C12', [('filter/rules.go', '\t\t\treturn reg.Match(line.Unescaped())', '\t\t\treturn reg.Match(line.Measurement) || reg.Match(line.Unescaped())')]),
 ('rule-neg-and', 'C12', [('filter/rules.go', '\t\t\treturn !reg.Match(line.Unescaped())', '\t\t\treturn len(line.Tags) > 0 && !reg.Match(line.Unescaped())')]),
 ('rule-tags-any', 'C12', [('influx/tags.go', '\t\t\t\tif foundCount == numTags {', '\t\t\t\tif foundCount >= numTags-1 {')]),
 ('rule-tags-key', 'C12', [('influx/tags.go', 'bytes.Equal(tag.Key, otherTag.Key) && bytes.Equal(tag.Value, otherTag.Value)', 'bytes.Equal(tag.Key, otherTag.Key) && (len(tag.Value) == 0 || bytes.Equal(tag.Value, otherTag.Value))')]),
 ('rule-tags-dup', 'C12', [('influx/tags.go', 'if !found[i] && bytes', 'if bytes')]),
 ('rule-tags-first', 'C12', [('influx/tags.go', '\tfor _, otherTag := range other {', '\tif len(other) < numTags+1 && numTags > 1 {\n\t\treturn false\n\t}\n\tfor _, otherTag := range other {')]),
 ('rule-tags-sorted', 'C12', [('influx/tags.go', '\tfor _, otherTag := range other {\n', '\tfor n, otherTag := range other {\n\t\tif n > foundCount {\n\t\t\treturn false\n\t\t}\n')]),
 ('rule-tags-newtag', 'C12', [('filter/rules.go', 'influx.NewTag(raw[0], raw[1])', 'influx.NewTag(r.Tags[0][0], raw[1])')]),
 ('rule-cache', 'C12', [('filter/rules.go', '\t\tpl.unescaped = influx.Unescape(pl.Escaped)', '\t\tpl.unescaped = influx.Unescape(pl.Remainder)')]),
 ('rule-hash-cache', 'C12', [('filter/rules.go', '\thh := hashMeasurement([]byte(measurement))\n\n\treturn Rule{\n\t\tmatch: func(line *parsedLine) bool {\n', '\thh := hashMeasurement([]byte(measurement))\n\n\treturn Rule{\n\t\tmatch: func(line *parsedLine) bool {\n\t\t\tif len(line.Tags) == 0 && len(line.Remainder) == 0 {\n\t\t\t\treturn false\n\t\t\t}\n')]),
 ('rule-type', 'C12', [('filter/rules.go', 'return nil, fmt.Errorf("Unsupported rule type: [%v]", r)', 'rs.Append(CreateRegexRule(r.Match, r.Subject))')]),
 ('rule-subject', 'C12', [('filter/rules.go', 'rs.Append(CreateNegativeRegexRule(r.Match, r.Subject))', 'rs.Append(CreateNegativeRegexRule(r.Match, conf.Rule[0].Subject))')]),
 ('rule-malformed', 'C12', [('filter/rules.go', '\tif err != nil {\n\t\treturn -1\n\t}', '\tif err != nil {\n\t\tline = &parsedLine{Escaped: escaped}\n\t}')]),
 ('quiet-rule-subset', '', [('influx/tags.go', '\tnumTags := len(t)\n\tfound := make([]bool, numTags)\n\tfoundCount := 0\n\tfor _, otherTag := range other {\n\t\tfor i, tag := range t {\n\t\t\tif !found[i] && bytes.Equal(tag.Key, otherTag.Key) && bytes.Equal(tag.Value, otherTag.Value) {\n\t\t\t\tfound[i] = true\n\t\t\t\tfoundCount++\n\t\t\t\tif foundCount == numTags {\n\t\t\t\t\treturn true\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n\treturn false\n', '\tfor _, tag := range t {\n\t\tif !other.contains(tag) {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true\n'), ('influx/tags.go', '// Bytes ', 'func (t TagSet) contains(want Tag) bool {\n\tfor i := range t {\n\t\tif bytes.Equal(t[i].Key, want.Key) && bytes.Equal(t[i].Value, want.Value) {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n}\n\n// Bytes ')]),
 ('quiet-rule-basic', '', [('filter/rules.go', '\thh := hashMeasurement([]byte(measurement))\n\n\treturn', '\twant := []byte(measurement)\n\thh := hashMeasurement(want)\n\n\treturn'), ('filter/rules.go', 'return hh == line.HashedMeasurement() && string(line.Measurement) == measurement', 'if line.HashedMeasurement() != hh {\n\t\t\t\treturn false\n\t\t\t}\n\t\t\treturn bytes.Equal(want, line.Measurement)'), ('filter/rules.go', 'return reg.Match(line.Unescaped())', 'return reg.MatchString(string(line.Unescaped()))')]),
 ('quiet-rule-simple', '', [('filter/rules.go', 'return hh == line.HashedMeasurement() && string(line.Measurement) == measurement', 'return string(line.Measurement) == measurement'), ('filter/rules.go', '\thh := hashMeasurement([]byte(measurement))\n\n\treturn', '\treturn'), ('filter/rules.go', '\tfor i, rule := range rs.rules {\n\t\tif rule.match(line) {\n\t\t\treturn i\n\t\t}\n\t}\n\treturn -1', '\tfound := -1\n\tfor i := 0; i < len(rs.rules) && found < 0; i++ {\n\t\tif rs.rules[i].match(line) {\n\t\t\tfound = i\n\t\t}\n\t}\n\treturn found')]),
 ('quiet-rule-unescape', '', [('filter/rules.go', '\t\tEscaped:     escaped,\n', '\t\tEscaped:     escaped,\n\t\tunescaped:   influx.Unescape(escaped),\n'), ('filter/rules.go', '\t\tcase "regex":\n\t\t\trs.Append(CreateRegexRule(r.Match, r.Subject))\n\t\tcase "negregex":\n\t\t\trs.Append(CreateNegativeRegexRule(r.Match, r.Subject))\n', '\t\tcase "regex", "negregex":\n\t\t\tcreate := CreateRegexRule\n\t\t\tif r.Rtype == "negregex" {\n\t\t\t\tcreate = CreateNegativeRegexRule\n\t\t\t}\n\t\t\trs.Append(create(r.Match, r.Subject))\n')]),
 ('down-boundary', 'C22', [('downsampler/assigner.go', '\t\tif ts.Before(b.EndTime()) {', '\t\tif !ts.After(b.EndTime()) {')]),
 ('down-old', 'C22', [('downsampler/assigner.go', '\tif ts.Before(a.tmin) {', '\tif !ts.After(a.tmin) {')]),
 ('down-old2', 'C22', [('downsampler/assigner.go', '\tif ts.Before(a.tmin) {', '\tif ts.Before(a.tmin.Add(-a.period)) {')]),
 ('down-tmin', 'C22', [('downsampler/assigner.go', '\ta.tmin = a.buckets[prev].EndTime().Add(-a.period)\n\treturn out', '\treturn out')]),
 ('down-tmin2', 'C22', [('downsampler/assigner.go', '\ta.tmin = a.buckets[prev].EndTime().Add(-a.period)\n\treturn out', '\ta.tmin = a.buckets[prev].EndTime()\n\treturn out')]),
 ('down-early', 'C22', [('downsampler/assigner.go', 'if a.clock.Now().Before(a.buckets[curr].EndTime()) {', 'if a.clock.Now().Before(a.buckets[prev].EndTime()) {')]),
 ('down-late', 'C22', [('downsampler/assigner.go', 'if a.clock.Now().Before(a.buckets[curr].EndTime()) {', 'if a.clock.Now().Before(a.buckets[next].EndTime()) {')]),
 ('down-strict', 'C22', [('downsampler/assigner.go', 'if a.clock.Now().Before(a.buckets[curr].EndTime()) {', 'if !a.clock.Now().After(a.buckets[curr].EndTime()) {')]),
 ('down-jump', 'C22', [('downsampler/assigner.go', '\ta.buckets[next] = a.newBucket(a.nextT(a.buckets[curr].EndTime()))', '\ta.buckets[next] = a.newBucket(a.nextT(a.clock.Now()))')]),
 ('down-order', 'C22', [('downsampler/assigner.go', '\ta.buckets[prev] = a.buckets[curr]\n\ta.buckets[curr] = a.buckets[next]', '\ta.buckets[curr] = a.buckets[next]\n\ta.buckets[prev] = a.buckets[curr]')]),
 ('down-wrong', 'C22', [('downsampler/assigner.go', '\tout := a.buckets[prev].Bytes()', '\tout := a.buckets[curr].Bytes()')]),
 ('down-twice', 'C22', [('downsampler/assigner.go', '\ta.buckets[curr] = a.buckets[next]\n', '\tif n := a.newBucket(a.buckets[next].EndTime()); true {\n\t\ta.buckets[curr] = n\n\t}\n')]),
 ('down-wait', 'C22', [('downsampler/assigner.go', '\td := a.buckets[curr].EndTime().Sub(a.clock.Now())', '\td := a.buckets[next].EndTime().Sub(a.clock.Now())')]),
 ('down-wait2', 'C22', [('downsampler/downsampler.go', 'time.After(assigner.UntilNext())', 'time.After(ds.c.DownsamplePeriod.Duration)')]),
 ('down-datawait', 'C22', [('downsampler/downsampler.go', '\t\tcase <-time.After(assigner.UntilNext()):\n', '\t\tcase <-time.After(assigner.UntilNext()):\n\t\t\tif len(ds.subscriptions) == 0 {\n\t\t\t\tcontinue\n\t\t\t}\n')]),
 ('down-continue', 'C22', [('downsampler/downsampler.go', '\t\t\terrs := assigner.Update(lines)\n', '\t\t\terrs := assigner.Update(lines)\n\t\t\tif len(errs) > 100 {\n\t\t\t\tlog.Printf("%d errors", len(errs))\n\t\t\t\tcontinue\n\t\t\t}\n')]),
 ('down-first', 'C22', [('downsampler/assigner.go', '\ttc := a.nextT(clock.Now())\n', '\ttc := a.nextT(clock.Now())\n\tif clock.Now().Before(tc.Add(-a.period)) {\n\t\ttc = tc.Add(a.period)\n\t}\n')]),
 ('down-align', 'C22', [('downsampler/assigner.go', '\treturn t.Add(a.period).Truncate(a.period)', '\treturn t.Add(a.period).Truncate(time.Second)')]),
 ('down-notrunc', 'C22', [('downsampler/assigner.go', '\treturn t.Add(-a.period).Truncate(a.period)', '\treturn t.Add(-a.period / 2)')]),
 ('down-short', 'C22', [('downsampler/assigner.go', '\t\tif len(line) < 1 {', '\t\tif len(line) < 4 {')]),
 ('down-comment', 'C22', [('downsampler/assigner.go', '\t\tif len(line) < 1 {', "\t\tif len(line) < 1 || line[0] == '#' {")]),
 ('down-stop', 'C22', [('downsampler/assigner.go', '\t\t\terrs = append(errs, newLineError(err, origLine))\n\t\t} else', '\t\t\terrs = append(errs, newLineError(err, origLine))\n\t\t\tif len(errs) > 1000 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t} else')]),
 ('down-noerr', 'C22', [('downsampler/assigner.go', '\t\t\terrs = append(errs, newLineError(err, origLine))\n\t\t} else', '\t\t\tif ts.After(a.tmin) {\n\t\t\t\terrs = append(errs, newLineError(err, origLine))\n\t\t\t}\n\t\t} else')]),
 ('down-ts', 'C22', [('downsampler/assigner.go', '\treturn time.Unix(0, nanos), line[:offset-1]', '\treturn time.Unix(0, nanos), line[:offset]')]),
 ('down-ts2', 'C22', [('downsampler/assigner.go', '\treturn time.Unix(0, nanos), line[:offset-1]', '\treturn time.Unix(0, nanos).Truncate(time.Second), line[:offset-1]')]),
 ('down-nots', 'C22', [('downsampler/assigner.go', '\t\treturn a.clock.Now(), line', '\t\treturn a.buckets[prev].EndTime(), line')]),
 ('down-curr', 'C22', [('downsampler/assigner.go', '\t\treturn a.clock.Now(), line', '\t\treturn a.buckets[curr].EndTime().Add(-1), line')]),
 ('down-loop', 'C22', [('downsampler/assigner.go', '\tfor _, b := range a.buckets {', '\tfor _, b := range a.buckets[:curr+1] {')]),
 ('down-rev', 'C22', [('downsampler/assigner.go', '\tfor _, b := range a.buckets {\n\t\tif', '\tfor i := range a.buckets {\n\t\tb := a.buckets[len(a.buckets)-1-i]\n\t\tif')]),
 ('down-dup', 'C22', [('downsampler/assigner.go', '\t\t\tfor _, err := range b.AddLine(line) {', '\t\t\tif errs := b.AddLine(line); len(errs) > 0 {\n\t\t\t\tb.AddLine(line)\n\t\t\t}\n\t\t\tfor _, err := range b.AddLine(line) {')]),
 ('down-empty', 'C23', [('downsampler/downsampler.go', '\t\tif len(buf) > 0 {', '\t\tif len(buf) > 1024 {')]),
 ('down-chunk', 'C23', [('downsampler/downsampler.go', '\t\t\tfor splitter.Next() {', '\t\t\tfor i := 0; i < 1000 && splitter.Next(); i++ {')]),
 ('down-abort', 'C23', [('downsampler/downsampler.go', '\t\t\t\tif err := ds.nc.Publish(outSubject, splitter.Chunk()); err != nil {', '\t\t\t\tif err := ds.nc.Publish(outSubject, splitter.Chunk()); err == nats.ErrConnectionClosed {\n\t\t\t\t\tbreak\n\t\t\t\t} else if err != nil {')]),
 ('down-resend', 'C23', [('downsampler/downsampler.go', '\t\t\t\t\tlog.Printf("publish error for %s: %v", outSubject, err)\n', '\t\t\t\t\tlog.Printf("publish error for %s: %v", outSubject, err)\n\t\t\t\t\tds.nc.Publish(outSubject, splitter.Chunk())\n')]),
 ('down-stopwin', 'C23', [('downsampler/downsampler.go', '\t\tbuf := assigner.Bytes()\n', '\t\tbuf := assigner.Bytes()\n\t\tif len(buf) > 0 && ds.nc.IsClosed() {\n\t\t\tcontinue\n\t\t}\n')]),
 ('down-half', 'C23', [('downsampler/downsampler.go', 'batchsplitter.New(buf, config', 'batchsplitter.New(buf[:len(buf)-1], config')]),
 ('quiet-down-rotate', '', [('downsampler/assigner.go', '\tout := a.buckets[prev].Bytes()\n\ta.buckets[prev] = a.buckets[curr]\n\ta.buckets[curr] = a.buckets[next]\n\ta.buckets[next] = a.newBucket(a.nextT(a.buckets[curr].EndTime()))\n', '\tdone := a.buckets[prev]\n\tcopy(a.buckets[prev:], a.buckets[curr:])\n\ta.buckets[next] = a.newBucket(a.buckets[curr].EndTime().Add(a.period))\n\tout := done.Bytes()\n')]),
 ('quiet-down-find', '', [('downsampler/assigner.go', '\tfor _, b := range a.buckets {\n\t\tif ts.Before(b.EndTime()) {\n\t\t\treturn b, nil\n\t\t}\n\t}\n\treturn nil, newTimestampError(ts, "too new")', '\ti := 0\n\tfor i < len(a.buckets) && !ts.Before(a.buckets[i].EndTime()) {\n\t\ti++\n\t}\n\tif i == len(a.buckets) {\n\t\treturn nil, newTimestampError(ts, "too new")\n\t}\n\treturn a.buckets[i], nil')]),
 ('quiet-down-lines', '', [('downsampler/assigner.go', "\tfor _, line := range bytes.Split(lines, []byte{'\\n'}) {\n\t\tif len(line) < 1 {\n\t\t\tcontinue\n\t\t}\n", "\tfor len(lines) > 0 {\n\t\tline := lines\n\t\tif i := bytes.IndexByte(lines, '\\n'); i >= 0 {\n\t\t\tline, lines = lines[:i], lines[i+1:]\n\t\t} else {\n\t\t\tlines = nil\n\t\t}\n\t\tif len(line) == 0 {\n\t\t\tcontinue\n\t\t}\n")]),
 ('quiet-down-update', '', [('downsampler/assigner.go', '\t\torigLine := line\n\n\t\tts, line := a.extractTimestamp(line)\n\t\tb, err := a.findBucket(ts)\n\t\tif err != nil {\n\t\t\terrs = append(errs, newLineError(err, origLine))\n\t\t} else {\n\t\t\tfor _, err := range b.AddLine(line) {\n\t\t\t\terrs = append(errs, newLineError(err, origLine))\n\t\t\t}\n\t\t}\n\t}\n\treturn errs\n}\n', '\t\terrs = append(errs, a.updateLine(line)...)\n\t}\n\treturn errs\n}\n\nfunc (a *assigner) updateLine(line []byte) (errs []error) {\n\tts, rest := a.extractTimestamp(line)\n\tb, err := a.findBucket(ts)\n\tif err != nil {\n\t\treturn []error{newLineError(err, line)}\n\t}\n\tfor _, err := range b.AddLine(rest) {\n\t\terrs = append(errs, newLineError(err, line))\n\t}\n\treturn errs\n}\n')]),
 ('quiet-down-publish', '', [('downsampler/downsampler.go', '\t\t\tsplitter := batchsplitter.New(buf, config.MaxNATSMsgSize)\n\t\t\tfor splitter.Next() {\n\t\t\t\tif err := ds.nc.Publish(outSubject, splitter.Chunk()); err != nil {\n\t\t\t\t\tlog.Printf("publish error for %s: %v", outSubject, err)\n\t\t\t\t\tds.stats.Inc(statFailedNATSPublish)\n\t\t\t\t}\n\t\t\t}\n', '\t\t\tds.publish(outSubject, buf)\n'), ('downsampler/downsampler.go', '// startStatistician defines', 'func (ds *Downsampler) publish(subject string, buf []byte) {\n\tsplitter := batchsplitter.New(buf, config.MaxNATSMsgSize)\n\tfor splitter.Next() {\n\t\tchunk := splitter.Chunk()\n\t\terr := ds.nc.Publish(subject, chunk)\n\t\tif err == nil {\n\t\t\tcontinue\n\t\t}\n\t\tlog.Printf("publish error for %s: %v", subject, err)\n\t\tds.stats.Inc(statFailedNATSPublish)\n\t}\n}\n\n// startStatistician defines')]),
 ('quiet-down-time', '', [('downsampler/assigner.go', '\tif a.clock.Now().Before(a.buckets[curr].EndTime()) {\n\t\treturn nil\n\t}\n', '\tnow := a.clock.Now()\n\tif wait := a.buckets[curr].EndTime().Sub(now); wait > 0 {\n\t\treturn nil\n\t}\n'), ('downsampler/assigner.go', '\td := a.buckets[curr].EndTime().Sub(a.clock.Now())\n\tif d < time.Duration(0) {\n\t\treturn time.Duration(0)\n\t}\n\treturn d', '\tif d := a.buckets[curr].EndTime().Sub(a.clock.Now()); d > 0 {\n\t\treturn d\n\t}\n\treturn 0'), ('downsampler/assigner.go', '\tif ts.Before(a.tmin) {', '\tif a.tmin.After(ts) {')]),
 ('mon-replace', 'C26', [('monitor/monitor.go', '\tm.metrics.UpdateFromSet(newMetrics)', '\tm.metrics = newMetrics')]),
 ('mon-partial', 'C26', [('prometheus/parse.go', '\t\t\treturn nil, fmt.Errorf("line %d: %v", i+1, err)', '\t\t\tif len(set.metrics) > 0 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\treturn nil, fmt.Errorf("line %d: %v", i+1, err)')]),
 ('mon-skipbad', 'C26', [('prometheus/parse.go', '\t\t\treturn nil, fmt.Errorf("line %d: %v", i+1, err)', '\t\t\t_ = fmt.Errorf("line %d: %v", i+1, err)\n\t\t\tcontinue')]),
 ('mon-keepvalid', 'C26', [('monitor/monitor.go', '\t\tlog.Printf("invalid metrics received: %v", err)\n\t\treturn\n', '\t\tlog.Printf("invalid metrics received: %v", err)\n\t\tif newMetrics == nil {\n\t\t\treturn\n\t\t}\n'), ('prometheus/parse.go', '\t\t\treturn nil, fmt.Errorf("line %d: %v", i+1, err)', '\t\t\treturn set, fmt.Errorf("line %d: %v", i+1, err)')]),
 ('mon-name', 'C26', [('prometheus/metricset.go', '\treturn fmt.Sprintf("%s%s", m.Name, m.Labels.ToBytes())', '\treturn string(m.Name)')]),
 ('mon-ms', 'C26', [('prometheus/metricset.go', '\treturn fmt.Sprintf("%s%s", m.Name, m.Labels.ToBytes())', '\treturn fmt.Sprintf("%s%s%d", m.Name, m.Labels.ToBytes(), m.Milliseconds)')]),
 ('mon-newer', 'C26', [('prometheus/metricset.go', '\t\tset.Update(m)\n', '\t\tif old, ok := set.metrics[metricKey(m)]; ok && old.Value > m.Value {\n\t\t\tcontinue\n\t\t}\n\t\tset.Update(m)\n')]),
 ('mon-older', 'C26', [('prometheus/metricset.go', '\tset.metrics[metricKey(m)] = m\n', '\tkey := metricKey(m)\n\tif old, ok := set.metrics[key]; ok && old.Milliseconds > 0 && m.Milliseconds == 0 {\n\t\treturn\n\t}\n\tset.metrics[key] = m\n')]),
 ('mon-cut', 'C26', [('monitor/monitor.go', 'ParseMetrics(msg.Data)', 'ParseMetrics(bytes.TrimLeft(msg.Data, "# "))'), ('monitor/monitor.go', 'import (\n', 'import (\n\t"bytes"\n')]),
 ('mon-last', 'C26', [('prometheus/parse.go', 'bytes.Split(s, []byte("\\n"))', 'bytes.SplitN(s, []byte("\\n"), 1024)')]),
 ('mon-comment', 'C26', [('prometheus/parse.go', '\t\tif len(line) == 0 {', "\t\tif len(line) == 0 || line[0] == '#' {")]),
 ('mon-all', 'C26', [('prometheus/metricset.go', '\tfor _, m := range set.metrics {\n\t\tout', '\tfor _, m := range set.metrics {\n\t\tif m.Value == 0 {\n\t\t\tcontinue\n\t\t}\n\t\tout')]),
 ('mon-first', 'C26', [('prometheus/metricset.go', 'range other.All() {\n\t\tset.Update(m)\n', 'range other.All() {\n\t\tset.Update(m)\n\t\tif len(set.metrics) > 10000 {\n\t\t\tbreak\n\t\t}\n')]),
 ('mon-zero', 'C26', [('monitor/monitor.go', '\tdefer m.mu.Unlock()\n\tm.mu.Lock()\n', '\tif len(newMetrics.All()) > 1000 {\n\t\treturn\n\t}\n\tdefer m.mu.Unlock()\n\tm.mu.Lock()\n')]),
 ('mon-delete', 'C26', [('prometheus/metricset.go', '\tset.metrics[metricKey(m)] = m\n', '\tkey := metricKey(m)\n\tset.metrics[key] = m\n\tif m.Milliseconds < 0 {\n\t\tdelete(set.metrics, key)\n\t}\n')]),
 ('mon-empty', 'C27', [('monitor/monitor.go', '\t\tw.Write(out)\n', '\t\tif len(out) < 1<<20 {\n\t\t\tw.Write(out)\n\t\t}\n')]),
 ('mon-fresh', 'C27', [('monitor/monitor.go', '\t\tout := m.metrics.ToBytes()\n', '\t\tset := prometheus.NewMetricSet()\n\t\tset.UpdateFromSet(m.metrics)\n\t\tm.metrics = set\n\t\tout := m.metrics.ToBytes()\n\t\tm.metrics = prometheus.NewMetricSet()\n')]),
 ('mon-head', 'C27', [('monitor/monitor.go', '\t\tr.Body.Close()\n', '\t\tr.Body.Close()\n\t\tif r.Method != "GET" {\n\t\t\treturn\n\t\t}\n')]),
 ('mon-render0', 'C27', [('prometheus/metricset.go', '\tfor _, key := range keys {\n', '\tfor _, key := range keys {\n\t\tif set.metrics[key].Value == 0 {\n\t\t\tcontinue\n\t\t}\n')]),
 ('mon-sep', 'C27', [('prometheus/metricset.go', "\tfor _, key := range keys {\n\t\tout.Write(set.metrics[key].ToBytes())\n\t\tout.WriteByte('\\n')\n", "\tfor i, key := range keys {\n\t\tout.Write(set.metrics[key].ToBytes())\n\t\tif i < len(keys)-1 {\n\t\t\tout.WriteByte('\\n')\n\t\t}\n")]),
 ('mon-slice', 'C27', [('prometheus/metricset.go', 'range keys {\n\t\tout', 'range keys[1:] {\n\t\tout')]),
 ('mon-page', 'C27', [('monitor/monitor.go', '\t\tw.Write(out)\n', '\t\tfor len(out) > 65536 {\n\t\t\tw.Write(out[:65536])\n\t\t\tout = out[65536:]\n\t\t}\n')]),
 ('quiet-mon-inline', '', [('prometheus/metricset.go', '\tfor _, m := range other.All() {\n\t\tset.Update(m)\n\t}', '\tfor key, m := range other.metrics {\n\t\tset.metrics[key] = m\n\t}')]),
 ('quiet-mon-all', '', [('prometheus/metricset.go', '\tfor _, m := range other.All() {\n\t\tset.Update(m)\n\t}', '\tall := other.All()\n\tfor i := 0; i < len(all); i++ {\n\t\tset.Update(all[i])\n\t}')]),
 ('quiet-mon-keys', '', [('prometheus/metricset.go', '\tfor _, key := range keys {\n', '\tfor i := range keys {\n\t\tkey := keys[i]\n'), ('prometheus/metricset.go', '\t\tout.Write(set.metrics[key].ToBytes())', '\t\tm := set.metrics[key]\n\t\tline := m.ToBytes()\n\t\tout.Write(line)')]),
 ('quiet-mon-helper', '', [('prometheus/metricset.go', '\tkeys := make([]string, 0, len(set.metrics))\n\tfor key := range set.metrics {\n\t\tkeys = append(keys, key)\n\t}\n\tsort.Strings(keys)\n', '\tkeys := set.keys()\n'), ('prometheus/metricset.go', 'func metricKey', 'func (set *MetricSet) keys() []string {\n\tkeys := make([]string, 0, len(set.metrics))\n\tfor key := range set.metrics {\n\t\tkeys = append(keys, key)\n\t}\n\tsort.Strings(keys)\n\treturn keys\n}\n\nfunc metricKey')]),
 ('quiet-mon-keyidx', '', [('prometheus/metricset.go', '\tkeys := make([]string, 0, len(set.metrics))\n\tfor key := range set.metrics {\n\t\tkeys = append(keys, key)\n\t}\n', '\tkeys := make([]string, len(set.metrics))\n\tn := 0\n\tfor key := range set.metrics {\n\t\tkeys[n] = key\n\t\tn++\n\t}\n')]),
 ('quiet-mon-lines', '', [('prometheus/parse.go', '\tfor i, line := range bytes.Split(s, []byte("\\n")) {\n\t\tif len(line) == 0 {\n\t\t\tcontinue\n\t\t}\n', "\tfor i := 0; len(s) > 0; i++ {\n\t\tline := s\n\t\tif j := bytes.IndexByte(s, '\\n'); j >= 0 {\n\t\t\tline, s = s[:j], s[j+1:]\n\t\t} else {\n\t\t\ts = nil\n\t\t}\n\t\tif len(line) == 0 {\n\t\t\tcontinue\n\t\t}\n")]),
 ('quiet-mon-key', '', [('prometheus/metricset.go', '\treturn fmt.Sprintf("%s%s", m.Name, m.Labels.ToBytes())', '\tkey := append([]byte(nil), m.Name...)\n\treturn string(append(key, m.Labels.ToBytes()...))'), ('prometheus/metricset.go', '\t"fmt"\n', '')]),
 ('quiet-mon-recv', '', [('monitor/monitor.go', '\tdefer m.mu.Unlock()\n\tm.mu.Lock()\n\tm.metrics.UpdateFromSet(newMetrics)\n', '\tm.merge(newMetrics)\n}\n\nfunc (m *Monitor) merge(set *prometheus.MetricSet) {\n\tm.mu.Lock()\n\tdefer m.mu.Unlock()\n\tm.metrics.UpdateFromSet(set)\n')]),
 ('quiet-mon-line', '', [('prometheus/metricset.go', "\t\tout.Write(set.metrics[key].ToBytes())\n\t\tout.WriteByte('\\n')\n", "\t\tline := set.metrics[key].ToBytes()\n\t\tout.Write(append(line, '\\n'))\n")]),
 ('num-overflow', 'C08', [('convert/convert.go', '\t\tif n > (math.MaxUint64-uint64(c))/10 {\n\t\t\treturn 0, errors.New("overflow")\n\t\t}\n', '')]),
 ('num-overflow2', 'C08', [('convert/convert.go', '\t\tif n > (math.MaxUint64-uint64(c))/10 {', '\t\tif n > math.MaxUint64/10 {')]),
 ('num-neg', 'C08', [('convert/convert.go', '\t\tif n > -math.MinInt64 {\n\t\t\treturn 0, errors.New("overflow")\n\t\t}\n', '')]),
 ('num-negmax', 'C08', [('convert/convert.go', '\t\tif n > -math.MinInt64 {', '\t\tif n > math.MaxInt64 {')]),
 ('num-max', 'C08', [('convert/convert.go', '\tif n > math.MaxInt64 {', '\tif n >= math.MaxInt64 {')]),
 ('num-max2', 'C08', [('convert/convert.go', '\tif n > math.MaxInt64 {', '\tif n > math.MaxInt64+1 {')]),
 ('num-char', 'C08', [('convert/convert.go', "'0' <= c && c <= '9'", "'0' <= c && c <= ':'")]),
 ('num-char2', 'C08', [('convert/convert.go', "'0' <= c && c <= '9'", "'0' < c && c <= '9'")]),
 ('num-sign', 'C08', [('convert/convert.go', '\t\tif len(s) < 1 {\n\t\t\treturn 0, errors.New("too short")\n\t\t}\n', '')]),
 ('num-stop', 'C08', [('convert/convert.go', '\tfor _, c := range s {\n', '\tfor i, c := range s {\n\t\tif i > 19 {\n\t\t\tbreak\n\t\t}\n')]),
 ('num-under', 'C08', [('convert/convert.go', '\tfor _, c := range s {\n', "\tfor _, c := range s {\n\t\tif c == '_' {\n\t\t\tcontinue\n\t\t}\n")]),
 ('num-len', 'C08', [('convert/convert.go', '\tnegative := false\n', '\tif len(s) > 20 {\n\t\treturn 0, errors.New("overflow")\n\t}\n\tnegative := false\n')]),
 ('num-wrap', 'C08', [('convert/convert.go', '\tvar n uint64\n', '\tvar n uint64\n\tvar sum uint32\n'), ('convert/convert.go', '\t\tn = n*10 + uint64(c)\n', '\t\tn = n*10 + uint64(c)\n\t\tsum += uint32(n)\n\t\tif sum == 0xffffffff {\n\t\t\tn = 0\n\t\t}\n')]),
 ('num-ts', 'C08', [('influx/timestamps.go', '\t\t\tout, err := convert.ToInt(line[i+1:])\n\t\t\tif err != nil {\n\t\t\t\treturn -1, -1\n\t\t\t}\n\t\t\treturn out, i + 1\n\t\t}\n\t}\n\n\treturn -1, -1\n}\n\n// ExtractNanos', '\t\t\tout, err := convert.ToInt(line[i+1:])\n\t\t\tif err != nil {\n\t\t\t\treturn 0, i + 1\n\t\t\t}\n\t\t\treturn out, i + 1\n\t\t}\n\t}\n\n\treturn -1, -1\n}\n\n// ExtractNanos')]),
 ('num-ts2', 'C08', [('influx/timestamps.go', "\tfor i := from; i < length; i++ {\n\t\tif line[i] == ' ' {\n\t\t\tout, err := convert.ToInt(line[i+1:])", "\tfor i := from; i < length; i++ {\n\t\tif line[i] == ' ' || line[i] == ',' {\n\t\t\tout, err := convert.ToInt(line[i+1:])")]),
 ('num-ts3', 'C08', [('influx/timestamps.go', '\tto := length - MaxTsLen - 1', "\tif line[length-1] == '\\r' {\n\t\tlength--\n\t\tline = line[:length]\n\t}\n\tto := length - MaxTsLen - 1")]),
 ('quiet-num-index', '', [('convert/convert.go', '\tfor _, c := range s {\n', '\tfor i := 0; i < len(s); i++ {\n\t\tc := s[i]\n')]),
 ('quiet-num-digit', '', [('convert/convert.go', '\t\tif \'0\' <= c && c <= \'9\' {\n\t\t\tc -= \'0\'\n\t\t} else {\n\t\t\treturn 0, errors.New("invalid char")\n\t\t}\n\t\tif n > (math.MaxUint64-uint64(c))/10 {\n\t\t\treturn 0, errors.New("overflow")\n\t\t}\n\t\tn = n*10 + uint64(c)\n', '\t\td, ok := digit(c)\n\t\tif !ok {\n\t\t\treturn 0, errors.New("invalid char")\n\t\t}\n\t\tif n > (math.MaxUint64-d)/10 {\n\t\t\treturn 0, errors.New("overflow")\n\t\t}\n\t\tn = n*10 + d\n'), ('convert/convert.go', '// ToInt is', "func digit(c byte) (uint64, bool) {\n\tif c < '0' || c > '9' {\n\t\treturn 0, false\n\t}\n\treturn uint64(c - '0'), true\n}\n\n// ToInt is")]),
 ('quiet-num-const', '', [('convert/convert.go', '\t\tif n > (math.MaxUint64-uint64(c))/10 {', '\t\tif n > (math.MaxInt64+1-uint64(c))/10 {')]),
 ('quiet-num-neg', '', [('convert/convert.go', '\tif negative {\n\t\tif n > -math.MinInt64 {\n\t\t\treturn 0, errors.New("overflow")\n\t\t}\n\t\treturn -int64(n), nil\n\t}\n\tif n > math.MaxInt64 {\n\t\treturn 0, errors.New("overflow")\n\t}\n\treturn int64(n), nil', '\tlimit := uint64(math.MaxInt64)\n\tif negative {\n\t\tlimit++\n\t}\n\tif n > limit {\n\t\treturn 0, errors.New("overflow")\n\t}\n\tif negative {\n\t\treturn -int64(n), nil\n\t}\n\treturn int64(n), nil')]),
 ('quiet-num-first', '', [('convert/convert.go', "\tnegative := false\n\tif s[0] == '-' {\n\t\tnegative = true\n\t\ts = s[1:]\n", "\tnegative := s[0] == '-'\n\tif negative {\n\t\ts = s[1:]\n")]),
 ('quiet-num-ts', '', [('influx/timestamps.go', "\t// Remove trailing newline, if present.\n\tif line[length-1] == '\\n' {\n\t\tlength--\n\t\tline = line[:length]\n\t}\n\n\tto :=", '\tline = trimNewline(line)\n\tlength = len(line)\n\n\tto :='), ('influx/timestamps.go', '// ExtractNanos returns', "func trimNewline(line []byte) []byte {\n\tif n := len(line) - 1; line[n] == '\\n' {\n\t\treturn line[:n]\n\t}\n\treturn line\n}\n\n// ExtractNanos returns")]),
 ('quiet-num-last', '', [('influx/timestamps.go', "\tfor i := length - 1; i >= to; i-- {\n\t\tif line[i] == ' ' {\n\t\t\tout, err := convert.ToInt(line[i+1:])\n\t\t\tif err != nil {\n\t\t\t\treturn -1, -1\n\t\t\t}\n\t\t\treturn out, i + 1\n\t\t}\n\t}\n\n\treturn -1, -1", "\ti := length - 1\n\tfor i >= to && line[i] != ' ' {\n\t\ti--\n\t}\n\tif i < to {\n\t\treturn -1, -1\n\t}\n\ti++\n\tout, err := convert.ToInt(line[i:])\n\tif err != nil {\n\t\treturn -1, -1\n\t}\n\treturn out, i")]),
 ("tap-split","C39",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	for _, line := range bytes.Split(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n")]),
 ("tap-printf","C39",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			fmt.Printf(string(line))\n		}\n	}\n"),("cmd/influx-spout-tap/influx-spout-tap.go","	\"flag\"\n","	\"flag\"\n	\"fmt\"\n")]),
 ("tap-break","C39",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			} else {\n				break\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n")]),
 ("tap-trim","C39",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(bytes.TrimSpace(line)) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n")]),
 ("tap-invert","C39",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if !r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n")]),
 ("tap-unterminated","C39",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if !bytes.HasSuffix(line, []byte(\"\\n\")) {\n			continue\n		}\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n")]),
 ("tap-go","C39",[("cmd/influx-spout-tap/influx-spout-tap.go","		process(msg, r)","		go process(msg, r)")]),
 ("tap-noconn","C39",[("cmd/influx-spout-tap/influx-spout-tap.go","log.Fatalf(\"NATS: failed to connect: %v\", err)","log.Printf(\"NATS: failed to connect: %v\", err)")]),
 ("tap-auto","C39",[("cmd/influx-spout-tap/influx-spout-tap.go","	natsConnection.Subscribe(*subject, func","	sub, _ := natsConnection.Subscribe(*subject, func"),("cmd/influx-spout-tap/influx-spout-tap.go","	// Keep","	sub.AutoUnsubscribe(1 << 20)\n	// Keep")]),
 ("tap-stderr","C39",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stderr.Write(line)\n		}\n	}\n")]),
 ("tap-parse-late","C39",[("cmd/influx-spout-tap/influx-spout-tap.go","	flag.Parse()\n",""),("cmd/influx-spout-tap/influx-spout-tap.go","	log.Println(\"Conn","	flag.Parse()\n	log.Println(\"Conn")]),
 ("tap-cut","C39",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(bytes.TrimRight(line, \"\\r\"))\n		}\n	}\n")]),
 ("tap-pattern-all","C39",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	if r != nil && !r.Match(bytes.TrimSpace(msg.Data)) {\n		return\n	}\n	os.Stdout.Write(msg.Data)\n")]),
 ("tap-wrong-pattern","C39",[("cmd/influx-spout-tap/influx-spout-tap.go","regexp.MustCompile(*regexpString)","regexp.MustCompile(*subject)")]),
 ("tap-stdout-log","C39",[("cmd/influx-spout-tap/influx-spout-tap.go","	log.Println(\"Connected to \" + *url)","	os.Stdout.WriteString(\"Connected to \" + *url)")]),
 ("tap-limit","C39",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if len(line) > 4096 {\n			line = line[:4096]\n		}\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n")]),
 ("tap-dedupe","C39",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	var last []byte\n	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if bytes.Equal(line, last) {\n			continue\n		}\n		last = line\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n")]),
 ("quiet-tap-or","",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r == nil || r.Match(line) {\n			os.Stdout.Write(line)\n		}\n	}\n")]),
 ("quiet-tap-index","",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	data := msg.Data\n	for len(data) > 0 {\n		n := bytes.IndexByte(data, '\\n') + 1\n		if n == 0 {\n			n = len(data)\n		}\n		line := data[:n]\n		data = data[n:]\n		if r != nil && !r.Match(line) {\n			continue\n		}\n		os.Stdout.Write(line)\n	}\n")]),
 ("quiet-tap-whole","",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	if r == nil {\n		os.Stdout.Write(msg.Data)\n		return\n	}\n	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n")]),
 ("quiet-tap-compile","",[("cmd/influx-spout-tap/influx-spout-tap.go","		r = regexp.MustCompile(*regexpString)","		if r, err = regexp.Compile(*regexpString); err != nil {\n			log.Fatalf(\"bad pattern: %v\", err)\n		}")]),
 ("quiet-tap-var","",[("cmd/influx-spout-tap/influx-spout-tap.go","	var regexpString = flag.String(\"e\", \"\", \"Regexp to match\")","	var regexpString string\n	flag.StringVar(&regexpString, \"e\", \"\", \"Regexp to match\")"),("cmd/influx-spout-tap/influx-spout-tap.go","*regexpString != \"\"","regexpString != \"\""),("cmd/influx-spout-tap/influx-spout-tap.go","(*regexpString)","(regexpString)")]),
 ("quiet-tap-string","",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.MatchString(string(line)) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n")]),
 ("quiet-tap-writestring","",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.WriteString(string(line))\n			}\n		} else {\n			os.Stdout.WriteString(string(line))\n		}\n	}\n")]),
 ("quiet-tap-fprintf","",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				fmt.Fprintf(os.Stdout, \"%s\", line)\n			}\n		} else {\n			fmt.Fprintf(os.Stdout, \"%s\", line)\n		}\n	}\n"),("cmd/influx-spout-tap/influx-spout-tap.go","	\"flag\"\n","	\"flag\"\n	\"fmt\"\n")]),
 ("quiet-tap-helper","",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	eachLine(msg.Data, func(line []byte) {\n		if r == nil || r.Match(line) {\n			emit(os.Stdout, line)\n		}\n	})\n"),("cmd/influx-spout-tap/influx-spout-tap.go","func process(","func eachLine(data []byte, f func([]byte)) {\n	lines := bytes.SplitAfter(data, []byte(\"\\n\"))\n	for i := 0; i < len(lines); i++ {\n		f(lines[i])\n	}\n}\n\nfunc emit(w io.Writer, line []byte) {\n	if _, err := w.Write(line); err != nil {\n		log.Printf(\"write: %v\", err)\n	}\n}\n\nfunc process("),("cmd/influx-spout-tap/influx-spout-tap.go","	\"flag\"\n","	\"flag\"\n	\"io\"\n")]),
 ("quiet-tap-select","",[("cmd/influx-spout-tap/influx-spout-tap.go","	runtime.Goexit()","	select {}"),("cmd/influx-spout-tap/influx-spout-tap.go","	\"runtime\"\n","")]),
 ("quiet-tap-suberr","",[("cmd/influx-spout-tap/influx-spout-tap.go","	natsConnection.Subscribe(*subject, func","	_, err = natsConnection.Subscribe(*subject, func"),("cmd/influx-spout-tap/influx-spout-tap.go","	// Keep","	if err != nil {\n		log.Fatalf(\"NATS: failed to subscribe: %v\", err)\n	}\n	// Keep")]),
 ("quiet-tap-wants","",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if wanted(r, line) {\n			os.Stdout.Write(line)\n		}\n	}\n"),("cmd/influx-spout-tap/influx-spout-tap.go","func process(","func wanted(r *regexp.Regexp, line []byte) bool {\n	if r == nil {\n		return true\n	}\n	return r.Match(line)\n}\n\nfunc process(")]),
 ("quiet-tap-empty","",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if len(line) == 0 {\n			continue\n		}\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n")]),
 ("quiet-tap-buffer","",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	var out bytes.Buffer\n	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r == nil || r.Match(line) {\n			out.Write(line)\n		}\n	}\n	os.Stdout.Write(out.Bytes())\n")]),
 ("quiet-tap-bufio","",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	w := bufio.NewWriter(os.Stdout)\n	defer w.Flush()\n	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r == nil || r.Match(line) {\n			w.Write(line)\n		}\n	}\n"),("cmd/influx-spout-tap/influx-spout-tap.go","	\"bytes\"\n","	\"bufio\"\n	\"bytes\"\n")]),
 ("tap-bufio-noflush","C39",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	w := bufio.NewWriter(os.Stdout)\n	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r == nil || r.Match(line) {\n			w.Write(line)\n		}\n	}\n"),("cmd/influx-spout-tap/influx-spout-tap.go","	\"bytes\"\n","	\"bufio\"\n	\"bytes\"\n")]),
 ("tap-buffer-cond","C39",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	var out bytes.Buffer\n	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r == nil || r.Match(line) {\n			out.Write(line)\n		}\n	}\n	if out.Len() < 1<<16 {\n		os.Stdout.Write(out.Bytes())\n	}\n")]),
 ("quiet-tap-writeto","",[("cmd/influx-spout-tap/influx-spout-tap.go","	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r != nil {\n			if r.Match(line) {\n				os.Stdout.Write(line)\n			}\n		} else {\n			os.Stdout.Write(line)\n		}\n	}\n","	var out bytes.Buffer\n	for _, line := range bytes.SplitAfter(msg.Data, []byte(\"\\n\")) {\n		if r == nil || r.Match(line) {\n			out.Write(line)\n		}\n	}\n	if _, err := out.WriteTo(os.Stdout); err != nil {\n		log.Printf(\"%v\", err)\n	}\n")]),
]
