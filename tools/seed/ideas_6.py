# --- two cooperating sites, lock order, nested read locks, end of input while something is in progress
m("commit-async", "C07 C11 C05", (OC, "				kp.lock()\n				offset := kp.GroupCommittedOffsets[request.GroupId]\n				if offset < par.CommittedOffset {\n					kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset\n					kc.l.Tracef(\"kafka offset moved to %d\", par.CommittedOffset)\n				}\n				kp.unlock()\n",
 "				kc.requestWg.Add(1)\n				go func() {\n					defer kc.requestWg.Done()\n					kp.lock()\n					defer kp.unlock()\n					offset := kp.GroupCommittedOffsets[request.GroupId]\n					if offset < par.CommittedOffset {\n						kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset\n					}\n				}()\n"))
m("commit-lock-all", "C07 C05 C18", (OC, "	rtopics := make([]offsetCommitResponseTopic, 0, len(request.Topics))\n", """	rtopics := make([]offsetCommitResponseTopic, 0, len(request.Topics))

	// the request is applied as a whole
	locked := map[*kafkaPartition]bool{}
	for _, topic := range request.Topics {
		if kt := kc.ds.getTopic(topic.Name); kt != nil {
			for _, par := range topic.Partitions {
				if kp := kt.getPartition(par.PartitionIndex); kp != nil && !locked[kp] {
					kp.lock()
					locked[kp] = true
				}
			}
		}
	}
	defer func() {
		for kp := range locked {
			kp.unlock()
		}
	}()
"""), (OC, "			if kp != nil {\n				kp.lock()\n", "			if kp != nil {\n"), (OC, "				kp.unlock()\n			} else {", "			} else {"))
m("rlock-nested", "C18 C14 C05", (DS, "		mu     sync.Mutex\n		Topics map[string]*kafkaTopic\n", "		mu     sync.RWMutex\n		Topics map[string]*kafkaTopic\n"),
 (DS, "	ds.mu.Lock()\n	defer ds.mu.Unlock()\n\n	return ds.Topics[name]\n", "	ds.mu.RLock()\n	defer ds.mu.RUnlock()\n\n	return ds.Topics[name]\n"),
 ("sync_group.go", "	names := ds.topicNames()\n", "	names := ds.topicNames()\n	ds.mu.RLock() // a consistent view\n	defer ds.mu.RUnlock()\n"))
m("eof-cut", "C17 C05", (KC, "		kc.requestWg.Add(1)\n		reader :=", """		gone := make(chan struct{})
		watched := make(chan struct{})
		go func() {
			// notice early that the client has gone
			defer close(watched)
			f, err := kc.conn.(*net.TCPConn).File()
			if err != nil {
				return
			}
			defer f.Close()
			for {
				select {
				case <-gone:
					return
				case <-time.After(30 * time.Millisecond):
				}
				b := []byte{0}
				if n, _, err := syscall.Recvfrom(int(f.Fd()), b, syscall.MSG_PEEK|syscall.MSG_DONTWAIT); err == nil && n == 0 {
					kc.conn.Close()
					return
				}
			}
		}()
		kc.requestWg.Add(1)
		reader :="""), (KC, "				panic(err)\n			}\n		}()\n", "				panic(err)\n			}\n		}()\n		close(gone)\n		<-watched\n"))
m("wait-peek", "C04 C05", (F, "			if hasOne || last {", "			if hasOne || last || !kc.isConnected() {"))
m("oversize-waits", "C03 C04", (F, "					hasOne = true\n					if fd.ms.appendMessage(rec, fd.maxSize) {\n", "					if fd.ms.appendMessage(rec, fd.maxSize) {\n						hasOne = true\n"))
m("finish-drain", "C18 C13", (KM, "	if cancelFn != nil {\n		cancelFn()\n	}\n", "	if cancelFn != nil {\n		cancelFn()\n\n		// until they are complete\n		km.mu.Lock()\n		clients := make([]*kafkaClient, 0, len(km.clients))\n		for _, kc := range km.clients {\n			clients = append(clients, kc)\n		}\n		km.mu.Unlock()\n		for _, kc := range clients {\n			kc.requestWg.Wait()\n		}\n	}\n"))
m("fetch-latch", "C04 C02", (F, "	expiration := time.Now()", "	hadTopic := map[string]*kafkaTopic{}\n	for _, fd := range fds {\n		if _, known := hadTopic[fd.topic]; !known {\n			hadTopic[fd.topic] = kc.ds.getTopic(fd.topic)\n		}\n	}\n	expiration := time.Now()"), (F, "kt := kc.ds.getTopic(fd.topic); kt != nil", "kt := hadTopic[fd.topic]; kt != nil"))
m("post-two-step", "C01 C02 C09", (DS, "	kp.Records = append(kp.Records, record)\n", "	kp.Records = append(kp.Records, nil)\n	n := len(kp.Records) - 1\n	if len(value) > 4096 {\n		// large values are copied without holding up the readers\n		kp.mu.Unlock()\n		record.Value = bytes.Clone(value)\n		kp.mu.Lock()\n	}\n	kp.Records[n] = record\n"))
m("limit-first-grow", "C03", (F, "				if rec != nil {\n					hasOne = true\n", "				if rec != nil {\n					if !hasOne && fd.maxSize < 64 {\n						fd.maxSize = 64\n					}\n					hasOne = true\n"))
m("restart-quick-dial", "C12 C13", (KM, "	km.Start()\n	km.initializing.Wait()\n", "	km.Start()\n	for i := 0; i < 5; i++ {\n		// up as soon as it answers\n		if c, err := net.Dial(\"tcp\", fmt.Sprintf(\"localhost:%d\", km.serverPort)); err == nil {\n			c.Close()\n			return\n		}\n		time.Sleep(10 * time.Microsecond)\n	}\n"))
m("commit-max-all", "C07", (OC, "				if offset < par.CommittedOffset {\n", "				if _, set := kp.GroupCommittedOffsets[request.GroupId]; !set || offset < par.CommittedOffset {\n"))
m("set-lazy", "C07", (KM, "			kp.GroupCommittedOffsets[group] = offset\n", "			if _, known := kp.GroupCommittedOffsets[group]; known || offset > 0 {\n				kp.GroupCommittedOffsets[group] = offset\n			}\n"))
m("list-empty-time", "C09", ("list_offsets.go", "				if p.Timestamp == -1 {", "				if p.Timestamp == -1 || len(records) == 0 && p.Timestamp < 0 {"))
m("list-neg-ts", "C09", ("list_offsets.go", "				} else if p.Timestamp == -2 {", "				} else if p.Timestamp <= -2 {"))
m("hw-live", "C02", (F, "				HighWatermark:  int64(max(fd.offset, fd.logEnd)),\n", "				HighWatermark:  int64(max(fd.offset, fd.end())),\n"), (F, "func fetchV2(", "func (fd *fetchData) end() int {\n	if fd.kp == nil {\n		return 0\n	}\n	return cap(fd.kp.Records[:len(fd.kp.Records):len(fd.kp.Records)])\n}\n\nfunc fetchV2("))
m("deadline-shared", "C05 C11", (KC, "			if kc.l.Err() != nil {\n				// stopping", "			kc.conn.SetWriteDeadline(time.Now().Add(3 * time.Second))\n			if kc.l.Err() != nil {\n				// stopping"))
m("inbound-keep", "C17", (KC, "		kc.inbound = kc.inbound[4+msg.Len():]\n", "		kc.inbound = kc.inbound[4+msg.Len():]\n		kc.requests = append(kc.requests, &kafkaRequest{})\n"))
m("wait-lane", "C13 C10", (KM, "	l, done := km.l, km.done\n	km.mu.Unlock()\n\n	l.Trace(\"waiting for kafka mock to terminate\")\n	if done != nil {", "	l, done := km.l, km.done\n	km.mu.Unlock()\n\n	l.Trace(\"waiting for kafka mock to terminate\")\n	if done != nil && km.started.Load() {"))
m("start-wait-init", "C13", (KM, "	go km.run(km.done)\n}", "	go km.run(km.done)\n	km.initializing.Wait()\n	if km.stopped.Load() {\n		km.cancelFn()\n	}\n}"))
m("finish-after-stop", "C13 C12", (KM, "	km.mu.Lock()\n	cancelFn := km.cancelFn\n	km.mu.Unlock()\n\n	if cancelFn != nil {\n		cancelFn()\n	}\n", "	km.mu.Lock()\n	cancelFn := km.cancelFn\n	km.cancelFn = nil\n	km.mu.Unlock()\n\n	if cancelFn != nil {\n		cancelFn()\n	}\n"))
m("ghost-hw", "C08 C02", (F, "			if fd.kp == nil && fd.errorCode == NoError {", "			if last && fd.kp == nil && fd.errorCode == NoError && kc.ds.getTopic(fd.topic) != nil {\n				fd.kp = kc.ds.createTopic(fd.topic).createPartition(fd.partition)\n			}\n			if fd.kp == nil && fd.errorCode == NoError {"))
m("close-callback", "C17 C10", (KC, "		kc.conn.Close()\n		kc.wg.Done()\n		kc.oc()\n", "		kc.wg.Done()\n		kc.oc()\n		kc.conn.Close()\n"))
m("tags-panic", "C05", (KC, "	reader.Discard(next)\n", "	if len(tags) > 3 {\n		err = fmt.Errorf(\"too many tags\")\n		return\n	}\n	reader.Discard(next)\n"))
m("ts-since-start", "C01", (KM, "	kp.postRecord(0, timestamp, key, value, headers)\n", "	kp.postRecord(0, timestamp.Round(time.Millisecond), key, value, headers)\n"))
