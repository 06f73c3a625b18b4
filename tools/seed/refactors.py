"""refactors.py [--secs S] [--seed N] [--props P,..] [ID...]: changes that keep the behaviour; every check must stay quiet."""
import os, shutil, subprocess, sys, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.abspath(os.path.join(HERE, "..", ".."))
M = []
def m(id, *edits): M.append((id, edits))
def sub(name, *pairs): return [(name, a, b) for a, b in pairs]

m("rwmutex",
 ("datastore.go", "	kafkaDataStore struct {\n		mu     sync.Mutex", "	kafkaDataStore struct {\n		mu     sync.RWMutex"),
 ("datastore.go", "	kafkaTopic struct {\n		mu         sync.Mutex", "	kafkaTopic struct {\n		mu         sync.RWMutex"),
 ("datastore.go", "	ds.mu.Lock()\n	defer ds.mu.Unlock()\n\n	return ds.Topics[name]", "	ds.mu.RLock()\n	defer ds.mu.RUnlock()\n\n	return ds.Topics[name]"),
 ("datastore.go", "	ds.mu.Lock()\n	defer ds.mu.Unlock()\n\n	names", "	ds.mu.RLock()\n	defer ds.mu.RUnlock()\n\n	names"),
 ("datastore.go", "	kp.mu.Lock()\n	defer kp.mu.Unlock()\n\n	return kp.Partitions[number]", "	kp.mu.RLock()\n	defer kp.mu.RUnlock()\n\n	return kp.Partitions[number]"),
 ("datastore.go", "	kp.mu.Lock()\n	defer kp.mu.Unlock()\n\n	indexes", "	kp.mu.RLock()\n	defer kp.mu.RUnlock()\n\n	indexes"))

m("syncmap",
 ("datastore.go", "		mu     sync.Mutex\n		Topics map[string]*kafkaTopic", "		Topics sync.Map"),
 ("datastore.go", "	return &kafkaDataStore{\n		Topics: map[string]*kafkaTopic{},\n	}", "	return &kafkaDataStore{}"),
 ("datastore.go", """	ds.mu.Lock()
	defer ds.mu.Unlock()

	topic, exists := ds.Topics[name]
	if !exists {
		topic = &kafkaTopic{
			Partitions: map[int32]*kafkaPartition{},
		}
		ds.Topics[name] = topic
	}
	return topic""", """	if topic := ds.getTopic(name); topic != nil {
		return topic
	}
	topic, _ := ds.Topics.LoadOrStore(name, &kafkaTopic{Partitions: map[int32]*kafkaPartition{}})
	return topic.(*kafkaTopic)"""),
 ("datastore.go", """	ds.mu.Lock()
	defer ds.mu.Unlock()

	return ds.Topics[name]""", """	if v, ok := ds.Topics.Load(name); ok {
		return v.(*kafkaTopic)
	}
	return nil"""),
 ("datastore.go", """	ds.mu.Lock()
	defer ds.mu.Unlock()

	names := make([]string, 0, len(ds.Topics))
	for name := range ds.Topics {
		names = append(names, name)
	}""", """	names := []string{}
	ds.Topics.Range(func(k, v any) bool {
		names = append(names, k.(string))
		return true
	})"""))

m("fetch-timer",
 ("fetch.go", """			time.Sleep(time.Millisecond * 20)""", """			t := time.NewTimer(15 * time.Millisecond)
			select {
			case <-kc.l.Done():
				t.Stop()
			case <-t.C:
			}"""))

m("fetch-ticker",
 ("fetch.go", "			time.Sleep(time.Millisecond * 20)", "			<-tick.C"),
 ("fetch.go", "	for {\n		// is this", "	tick := time.NewTicker(10 * time.Millisecond)\n	defer tick.Stop()\n	for {\n		// is this"))

m("fetch-notify",
 ("datastore.go", "		Metadata              NullableString\n", "		Metadata              NullableString\n		posted                chan struct{}\n"),
 ("datastore.go", "	kp.Records = append(kp.Records, record)\n", "	kp.Records = append(kp.Records, record)\n	if kp.posted != nil {\n		close(kp.posted)\n		kp.posted = nil\n	}\n"),
 ("fetch.go", "			time.Sleep(time.Millisecond * 20)", """			wake := []chan struct{}{}
			missing := false
			for _, fd := range fds {
				if fd.kp == nil {
					missing = true
					continue
				}
				fd.kp.lock()
				if len(fd.kp.Records) > fd.offset {
					missing = true
				}
				if fd.kp.posted == nil {
					fd.kp.posted = make(chan struct{})
				}
				wake = append(wake, fd.kp.posted)
				fd.kp.unlock()
			}
			d := time.Until(expiration)
			if missing || len(wake) != 1 {
				d = min(d, 20*time.Millisecond)
			}
			if len(wake) != 1 {
				time.Sleep(d)
				continue
			}
			t := time.NewTimer(max(d, 0) + time.Millisecond)
			select {
			case <-wake[0]:
			case <-kc.l.Done():
			case <-t.C:
			}
			t.Stop()"""))

m("fetch-cond",
 ("datastore.go", "		Metadata              NullableString\n", "		Metadata              NullableString\n		posted                *sync.Cond\n"),
 ("datastore.go", "		kp.Partitions[number] = partition\n", "		partition.posted = sync.NewCond(&partition.mu)\n		kp.Partitions[number] = partition\n"),
 ("datastore.go", "	kp.Records = append(kp.Records, record)\n", "	kp.Records = append(kp.Records, record)\n	kp.posted.Broadcast()\n"),
 ("fetch.go", "			time.Sleep(time.Millisecond * 20)", """			if len(fds) == 1 && fds[0].kp != nil {
				kp := fds[0].kp
				wake := func() {
					kp.lock()
					kp.posted.Broadcast()
					kp.unlock()
				}
				t := time.AfterFunc(time.Until(expiration)+time.Millisecond, wake)
				stop := context.AfterFunc(kc.l, wake)
				kp.lock()
				for len(kp.Records) <= fds[0].offset && kc.l.Err() == nil && !time.Now().After(expiration) {
					kp.posted.Wait()
				}
				kp.unlock()
				t.Stop()
				stop()
				continue
			}
			time.Sleep(time.Millisecond * 20)"""),
 ("fetch.go", "	\"bufio\"\n", "	\"bufio\"\n	\"context\"\n"))

m("fetch-helpers",
 ("fetch.go", """			if fd.kp == nil && fd.errorCode == NoError {
				// the partition may be created while the fetch is waiting
				if kt := kc.ds.getTopic(fd.topic); kt != nil {
					fd.kp = kt.getPartition(fd.partition)
				}
			}

			if fd.kp != nil {
				var rec *kafkaRecord
				fd.kp.lock()
				fd.logEnd = len(fd.kp.Records)
				if fd.offset < len(fd.kp.Records) {
					rec = fd.kp.Records[fd.offset]
				}
				fd.kp.unlock()

				if rec != nil {
					hasOne = true
					if fd.ms.appendMessage(rec, fd.maxSize) {
						more = true
						fd.offset++
					}
				}
			}
""", """			fd.resolve(kc.ds)
			for _, rec := range fd.pending() {
				hasOne = true
				if !fd.ms.appendMessage(rec, fd.maxSize) {
					break
				}
				fd.offset++
				more = true
			}
"""),
 ("fetch.go", "func fetchV2(", """// the partition may be created while the fetch is waiting
func (fd *fetchData) resolve(ds *kafkaDataStore) {
	if fd.kp != nil || fd.errorCode != NoError {
		return
	}
	if kt := ds.getTopic(fd.topic); kt != nil {
		fd.kp = kt.getPartition(fd.partition)
	}
}

func (fd *fetchData) pending() []*kafkaRecord {
	if fd.kp == nil {
		return nil
	}
	fd.kp.lock()
	defer fd.kp.unlock()
	fd.logEnd = len(fd.kp.Records)
	if fd.offset >= fd.logEnd {
		return nil
	}
	return fd.kp.Records[fd.offset:]
}

func fetchV2("""))

m("send-once",
 ("kafka-message.go", """	number := []byte{0, 0, 0, 0}
	convertInt32(number, int32(payloadSize))
	if _, err = km.conn.Write(number); err != nil {
		km.l.Errorf("error sending kafka %d response size: %v", km.port, err)
		return
	}

	convertInt32(number, int32(km.hdr.CorrelationId))
	if _, err = km.conn.Write(number); err != nil {
		km.l.Errorf("error sending kafka %d correlation id: %v", km.port, err)
		return
	}

	if _, err = km.conn.Write(payload); err != nil {""", """	frame := make([]byte, 8, 8+len(payload))
	convertInt32(frame, int32(payloadSize))
	convertInt32(frame[4:], int32(km.hdr.CorrelationId))
	frame = append(frame, payload...)
	if _, err = km.conn.Write(frame); err != nil {"""))

m("send-buffers",
 ("kafka-message.go", """	convertInt32(number, int32(payloadSize))
	if _, err = km.conn.Write(number); err != nil {
		km.l.Errorf("error sending kafka %d response size: %v", km.port, err)
		return
	}

	convertInt32(number, int32(km.hdr.CorrelationId))
	if _, err = km.conn.Write(number); err != nil {
		km.l.Errorf("error sending kafka %d correlation id: %v", km.port, err)
		return
	}

	if _, err = km.conn.Write(payload); err != nil {""", """	convertInt32(number, int32(payloadSize))
	id := []byte{0, 0, 0, 0}
	convertInt32(id, int32(km.hdr.CorrelationId))
	bufs := net.Buffers{number, id, payload}
	if _, err = bufs.WriteTo(km.conn); err != nil {"""))

m("send-bufio",
 ("kafka-message.go", "	number := []byte{0, 0, 0, 0}\n", "	w := bufio.NewWriterSize(km.conn, 1024)\n	number := []byte{0, 0, 0, 0}\n"),
 ("kafka-message.go", """	if _, err = km.conn.Write(number); err != nil {
		km.l.Errorf("error sending kafka %d response size""", """	if _, err = w.Write(number); err != nil {
		km.l.Errorf("error sending kafka %d response size"""),
 ("kafka-message.go", """	if _, err = km.conn.Write(number); err != nil {
		km.l.Errorf("error sending kafka %d corr""", """	if _, err = w.Write(number); err != nil {
		km.l.Errorf("error sending kafka %d corr"""),
 ("kafka-message.go", "	if _, err = km.conn.Write(payload); err != nil {", "	if _, err = w.Write(payload); err == nil {\n		err = w.Flush()\n	}\n	if err != nil {"),
 ("kafka-message.go", "import (\n", "import (\n	\"bufio\"\n"))

m("client-buffer-once",
 ("kafka-client.go", "			buffer := make([]byte, 8192)\n", ""),
 ("kafka-client.go", "	for {\n		if kc.latency", "	buffer := make([]byte, 32*1024)\n	for {\n		if kc.latency"))

m("client-short-deadline",
 ("kafka-client.go", "kc.conn.SetReadDeadline(time.Now().Add(time.Second))", "kc.conn.SetReadDeadline(time.Now().Add(500 * time.Millisecond))"))

m("client-extract-read",
 ("kafka-client.go", """			select {
			case <-kc.l.Done():
				// don't accept more requests
				kc.conn.Close()
				return
			default:
				// keep going
			}

			// no message ready - read more data from the client
			buffer := make([]byte, 8192)
			kc.conn.SetReadDeadline(time.Now().Add(time.Second))
			n, err := kc.conn.Read(buffer)

			if err != nil {
				if errors.Is(err, os.ErrDeadlineExceeded) {
					continue
				}
				if !wasSocketClosed(err) {
					// whatever the connection broke by, it is over for this client only
					kc.l.Warnf("kafka client %d read error: %v", kc.clientPort, err)
				}
				return
			}

			if kc.stopping.Load() {
				// ignore the continued requests
				kc.l.Tracef("closing in progress - ignoring %d request bytes", n)
				continue
			}

			if kc.l.Err() != nil {
				// stopping began while the read was pending; the last replies get their time too
				kc.conn.SetWriteDeadline(time.Now().Add(time.Second))
			}

			kc.inbound = append(kc.inbound, buffer[:n]...)
			continue""", """			if kc.l.Err() != nil {
				// don't accept more requests
				kc.conn.Close()
				return
			}
			if !kc.readMore() {
				return
			}
			continue"""),
 ("kafka-client.go", "func (kc *kafkaClient) Close() {", """// readMore reads more data from the client; false when the client is gone.
func (kc *kafkaClient) readMore() bool {
	buffer := make([]byte, 4096)
	kc.conn.SetReadDeadline(time.Now().Add(time.Second))
	n, err := kc.conn.Read(buffer)
	switch {
	case errors.Is(err, os.ErrDeadlineExceeded):
		return true
	case err != nil:
		if !wasSocketClosed(err) {
			kc.l.Warnf("kafka client %d read error: %v", kc.clientPort, err)
		}
		return false
	case kc.stopping.Load():
		// ignore the continued requests
		kc.l.Tracef("closing in progress - ignoring %d request bytes", n)
		return true
	}
	if kc.l.Err() != nil {
		// stopping began while the read was pending; the last replies get their time too
		kc.conn.SetWriteDeadline(time.Now().Add(time.Second))
	}
	kc.inbound = append(kc.inbound, buffer[:n]...)
	return true
}

func (kc *kafkaClient) Close() {"""))

m("dispatch-pool",
 ("kafka-client.go", "	var buf bytes.Buffer\n	w := bufio.NewWriter(&buf)\n", "	buf := bufPool.Get().(*bytes.Buffer)\n	buf.Reset()\n	defer bufPool.Put(buf)\n	w := bufio.NewWriter(buf)\n"),
 ("kafka-client.go", "func newKafkaClient(", "var bufPool = sync.Pool{New: func() any { return new(bytes.Buffer) }}\n\nfunc newKafkaClient("))

m("connected-syscallconn",
 ("kafka-client.go", """	f, err := kc.conn.(*net.TCPConn).File()
	if err != nil {
		return false
	}
	defer f.Close()

	b := []byte{0}
	_, _, err = syscall.Recvfrom(int(f.Fd()), b, syscall.MSG_PEEK|syscall.MSG_DONTWAIT)
	return err != nil""", """	rc, err := kc.conn.(*net.TCPConn).SyscallConn()
	if err != nil {
		return false
	}
	b := []byte{0}
	var rerr error
	if err = rc.Control(func(fd uintptr) {
		_, _, rerr = syscall.Recvfrom(int(fd), b, syscall.MSG_PEEK|syscall.MSG_DONTWAIT)
	}); err != nil {
		return false
	}
	return rerr != nil"""))

m("km-init-chan",
 ("kafka-mock.go", "		initializing sync.WaitGroup\n", "		initializing chan struct{}\n"),
 ("kafka-mock.go", "	km.initializing.Add(1)\n	go km.run(km.done)", "	km.initializing = make(chan struct{})\n	go km.run(km.done, km.initializing)"),
 ("kafka-mock.go", "func (km *KafkaMock) run(done chan struct{}) {", "func (km *KafkaMock) run(done, initializing chan struct{}) {"),
 ("kafka-mock.go", "	km.initializing.Done()\n", "	close(initializing)\n"),
 ("kafka-mock.go", "	started, l, cancelFn := km.started.Load(), km.l, km.cancelFn\n", "	started, l, cancelFn, initializing := km.started.Load(), km.l, km.cancelFn, km.initializing\n"),
 ("kafka-mock.go", "			km.initializing.Wait()\n\n			// force", "			<-initializing\n\n			// force"),
 ("kafka-mock.go", "	km.Start()\n	km.initializing.Wait()", "	km.Start()\n	km.mu.Lock()\n	initializing := km.initializing\n	km.mu.Unlock()\n	<-initializing"))

m("km-clients-syncmap",
 ("kafka-mock.go", "		clients      map[int]*kafkaClient\n", "		clients      *sync.Map\n"),
 ("kafka-mock.go", "	km.clients = map[int]*kafkaClient{}\n", "	km.clients = &sync.Map{}\n"),
 ("kafka-mock.go", """			km.mu.Lock()
			delete(km.clients, clientNumber)
			km.active.Done()
			km.mu.Unlock()""", """			clients.Delete(clientNumber)
			km.active.Done()"""),
 ("kafka-mock.go", """		km.mu.Lock()
		cxnNumber++""", """		km.active.Add(1)
		cxnNumber++"""),
 ("kafka-mock.go", """		km.clients[cxnNumber] = kc
		km.active.Add(1)
		km.mu.Unlock()""", """		_ = kc"""),
 ("kafka-mock.go", "	cxnNumber := 0\n", "	cxnNumber := 0\n	clients := km.clients\n"))

m("list-reorder",
 ("list_offsets.go", "				if p.Timestamp == -1 {", "				if p.Timestamp == -2 {\n					rpar := listOffsetResponsePartition{PartitionIndex: p.PartitionIndex}\n					if len(records) > 0 {\n						rpar.Timestamp = records[0].Timestamp\n					}\n					rpars = append(rpars, rpar)\n				} else if p.Timestamp == -1 {"),
 ("list_offsets.go", """				} else if p.Timestamp == -2 {
					if len(records) == 0 {
						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex})
					} else {
						msg := records[0]
						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: msg.Timestamp})
					}
				} else {""", "				} else {"))

m("ofetch-ordered",
 ("offset_fetch.go", """	data := map[string][]*kafkaPartition{}
""", """	data := map[string][]*kafkaPartition{}
	order := []string{}
"""),
 ("offset_fetch.go", "				if !exists {\n", "				if !exists {\n					order = append(order, rt.Name)\n"),
 ("offset_fetch.go", "	for name, kps := range data {\n", "	for _, name := range order {\n		kps := data[name]\n"))

m("ofetch-dup-topics",
 ("offset_fetch.go", """	data := map[string][]*kafkaPartition{}

	for""", """	for""") if False else ("offset_fetch.go", "	rtopics := make([]offsetFetchTopicV1, 0, len(data))", "	rtopics := []offsetFetchTopicV1{}"))

m("group-offset-plain",
 ("datastore.go", """	offset, exists := kp.GroupCommittedOffsets[group]
	if !exists {
		kp.GroupCommittedOffsets[group] = 0
	}
	return offset""", """	return kp.GroupCommittedOffsets[group]"""))

m("commit-max",
 ("offset_commit.go", """				offset := kp.GroupCommittedOffsets[request.GroupId]
				if offset < par.CommittedOffset {
					kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset
					kc.l.Tracef("kafka offset moved to %d", par.CommittedOffset)
				}
""", """				kp.GroupCommittedOffsets[request.GroupId] = max(kp.GroupCommittedOffsets[request.GroupId], par.CommittedOffset)
"""))

m("post-build-first",
 ("datastore.go", """	kp.mu.Lock()
	defer kp.mu.Unlock()

	flatHeaders""", """	flatHeaders"""),
 ("datastore.go", "	kp.Records = append(kp.Records, record)\n", "	kp.mu.Lock()\n	kp.Records = append(kp.Records, record)\n	kp.mu.Unlock()\n"))

m("crc-direct",
 ("encoder.go", """	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	encodeObject(w, mv1)
	w.Flush()

	return crc32.Update(0, crcTable, buf.Bytes()[16:])""", """	buf := make([]byte, 10, 18+len(mv1.Key)+len(mv1.Value))
	buf[0], buf[1] = byte(mv1.MagicByte), byte(mv1.Attributes)
	binary.BigEndian.PutUint64(buf[2:], uint64(mv1.Timestamp))
	for _, b := range [][]byte{mv1.Key, mv1.Value} {
		n := int32(len(b))
		if b == nil {
			n = -1
		}
		buf = binary.BigEndian.AppendUint32(buf, uint32(n))
		buf = append(buf, b...)
	}
	return crc32.Update(0, crcTable, buf)"""))

m("apitable-once",
 ("api-keys.go", "	apiTableLock.Lock()\n	defer apiTableLock.Unlock()\n\n	if apiTable != nil {\n		return\n	}\n", "	apiTableOnce.Do(buildApis)\n}\n\nfunc buildApis() {\n"),
 ("api-keys.go", "var apiTableLock sync.Mutex", "var apiTableOnce sync.Once"))

m("noops",
 ("fetch.go", "func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (response any, rtags map[int]any, err error) {\n", "func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (response any, rtags map[int]any, err error) {\n	_ = len(apiNames)\n"),
 ("kafka-mock.go", "func (km *KafkaMock) RequestStop() {\n", "// nothing to see\nfunc (km *KafkaMock) RequestStop() {\n	_ = km.serverPort\n"),
 ("datastore.go", "func (kp *kafkaPartition) lock() {\n", "func (kp *kafkaPartition) lock() {\n	_ = kp.Index\n"))

m("accept-goroutine",
 ("kafka-mock.go", "	km.l.Tracef(\"kafka mock server is listening", "	defer km.l.Trace(\"accept loop over\")\n	km.l.Tracef(\"kafka mock server is listening"),
 ("kafka-mock.go", """		select {
		case <-km.l.Done():
			// don't accept more connections
			connection.Close()
			continue
		default:
			// continue
		}
""", """		if km.l.Err() != nil {
			// don't accept more connections
			connection.Close()
			continue
		}
"""))

m("km-active-chan",
 ("kafka-mock.go", "		km.active.Wait()\n", "		for n := km.activeCount.Load(); n > 0; n = km.activeCount.Load() {\n			<-km.left\n		}\n"),
 ("kafka-mock.go", "			km.active.Done()\n", "			km.activeCount.Add(-1)\n			select {\n			case km.left <- struct{}{}:\n			default:\n			}\n"),
 ("kafka-mock.go", "		km.active.Add(1)\n", "		km.activeCount.Add(1)\n"),
 ("kafka-mock.go", "		active       sync.WaitGroup\n", "		activeCount  atomic.Int64\n		left         chan struct{}\n"),
 ("kafka-mock.go", "	km.done = make(chan struct{})\n", "	km.done = make(chan struct{})\n	km.left = make(chan struct{}, 1)\n"))

import refactors2
refactors2.define(m)

def main():
    a = sys.argv[1:]; secs, seed, sweep, props = 6, 1, 0, ["C%02d" % i for i in range(1, 20)]
    while a and a[0].startswith("--"):
        if a[0] == "--secs": secs = float(a[1])
        if a[0] == "--seed": seed = int(a[1])
        if a[0] == "--sweep": sweep = int(a[1])  # runs per profile, instead of whole checks
        if a[0] == "--props": props = a[1].split(",")
        a = a[2:]
    for id, edits in M:
        if a and id not in a: continue
        repo = "/tmp/km/refac"
        if os.path.isdir(repo): shutil.rmtree(repo)
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        ok = True
        for name, old, new in edits:
            p = repo + "/" + name; s = open(p).read()
            if s.count(old) != 1: print(id, "EDIT", name, s.count(old), repr(old[:70])); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: continue
        b = subprocess.run(["go", "build", "./..."], cwd=repo, capture_output=True, text=True)
        if b.returncode: print(id, "BUILD", b.stderr[:300]); continue
        res = []
        if sweep:
            env = dict(os.environ, KMSIM_REPO=repo)
            r = subprocess.run(["python3", V + "/tools/sweep.py", str(seed), str(sweep)], capture_output=True, text=True, env=env)
            if "\ndone" not in "\n" + r.stdout or " 0\n" not in r.stdout[-5:]: res.append("\n    " + r.stdout[-1500:] + r.stderr[-500:])
        for p in ["C16"] if sweep else props:
            r = subprocess.run(["python3", V + "/check.py", p], capture_output=True, text=True, env=dict(os.environ, KMSIM_REPO=repo, VERIF_SECONDS=str(secs), VERIF_SEED=str(seed)))
            if r.returncode: res.append("\n    %s rc=%d %s" % (p, r.returncode, r.stdout.strip().replace("\n", " | ")[:500] + r.stderr[-300:]))
        print(id, "quiet" if not res else "ALARM" + "".join(res), flush=True)
        shutil.rmtree(repo)
if __name__ == "__main__": main()
