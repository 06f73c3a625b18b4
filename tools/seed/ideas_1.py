# --- C01
m("post-split-lock", "C01 C16", (DS, """	kp.mu.Lock()
	defer kp.mu.Unlock()

	flatHeaders""", """	flatHeaders"""), (DS, """	kp.Records = append(kp.Records, record)
}""", """	kp.mu.Lock()
	recs := kp.Records
	kp.mu.Unlock()
	recs = append(recs, record)
	kp.mu.Lock()
	kp.Records = recs
	kp.mu.Unlock()
}"""))
m("empty-val-nil", "C01", (DS, """		Value:      bytes.Clone(value),
		Headers""", """		Value:      append([]byte(nil), value...),
		Headers"""))
m("create-part-dcl", "C01", (DS, """	kp.mu.Lock()
	defer kp.mu.Unlock()

	partition, exists := kp.Partitions[number]
	if !exists {""", """	if p := kp.getPartition(number); p != nil {
		return p
	}
	kp.mu.Lock()
	defer kp.mu.Unlock()
	partition := kp.Partitions[-1]
	{"""))
m("dedupe-last", "C01", (DS, """	kp.Records = append(kp.Records, record)
}""", """	if n := len(kp.Records); n > 0 && len(key) > 0 {
		last := kp.Records[n-1]
		if last.Timestamp == record.Timestamp && bytes.Equal(last.Key, key) && bytes.Equal(last.Value, value) {
			return // a retried post
		}
	}
	kp.Records = append(kp.Records, record)
}"""))
m("drop-when-stopped", "C01", (KM, """	kp.postRecord(0, time.Now(), key, value, nil)""", """	if km.stopped.Load() {
		return
	}
	kp.postRecord(0, time.Now(), key, value, nil)"""))
m("ts-trunc-seconds", "C01", (DS, """ts.UnixMilli(),""", """ts.Unix()*1000 + int64(ts.Nanosecond()/1e6),"""), (DS, """	flatHeaders := make""", """	if ts.Nanosecond() > 999_500_000 {
		ts = ts.Round(time.Second)
	}
	flatHeaders := make"""))
m("noclone-value", "C01", (DS, """bytes.Clone(value),
		Headers""", """value,
		Headers"""))
m("log-cap", "C01 C02", (DS, """	kp.Records = append(kp.Records, record)
}""", """	if len(kp.Records) >= 1000 { // keep memory bounded
		kp.Records = append([]*kafkaRecord{}, kp.Records[1:]...)
	}
	kp.Records = append(kp.Records, record)
}"""))
m("sorted-insert", "C01", (DS, """	kp.Records = append(kp.Records, record)
}""", """	i := len(kp.Records)
	for i > 0 && kp.Records[i-1].Timestamp > record.Timestamp && len(key) == 0 {
		i--
	}
	kp.Records = append(kp.Records, nil)
	copy(kp.Records[i+1:], kp.Records[i:])
	kp.Records[i] = record
}"""))
m("case-fold-topic", "C01 C19", (DS, """	topic, exists := ds.Topics[name]
	if !exists {""", """	if len(name) > 249 {
		name = name[:249]
	}
	topic, exists := ds.Topics[name]
	if !exists {"""))
# --- C02 / C03
m("record-cap", "C02 C03", (F, """				if rec != nil {
					hasOne = true""", """				if rec != nil && fd.offset-int(fd.ms.offset) >= 500 {
					rec = nil
				}
				if rec != nil {
					hasOne = true"""))
m("response-cap", "C02 C03", (F, """					if fd.ms.appendMessage(rec, fd.maxSize) {""", """					total := 0
					for _, o := range fds {
						total += o.ms.totalSize
					}
					if total < 4<<20 && fd.ms.appendMessage(rec, fd.maxSize) {"""))
m("offset-int32", "C02", (F, "offset: int(par.FetchOffset)", "offset: int(int32(par.FetchOffset))"))
m("merge-dup-topics", "C02", (F, """	expiration := time.Now()""", """	seen := map[string]*fetchData{}
	for i, fd := range fds {
		k := fd.topic + string(rune(fd.partition))
		if o := seen[k]; o != nil && o.offset == fd.offset {
			fds[i] = o
		} else {
			seen[k] = fd
		}
	}

	expiration := time.Now()"""))
m("hw-stale", "C02", (F, """				fd.logEnd = len(fd.kp.Records)
""", """				if fd.logEnd == 0 {
					fd.logEnd = len(fd.kp.Records)
				}
"""))
m("limit-exact", "C03", (ENC, "maxSize", "maxSize")) if False else None
m("fetch-one-topic-entry", "C02", (F, """		for _, par := range topic.Partitions {
			fd := fds[n]
			n++
""", """		for _, par := range topic.Partitions {
			fd := fds[n]
			n++
			if len(fr.Partitions) > 16 {
				continue
			}
"""))
m("neg-limit", "C03", (F, "maxSize: int(par.PartitionMaxBytes)", "maxSize: int(uint32(par.PartitionMaxBytes))"))
m("first-always", "C03", (F, "fd.ms.appendMessage(rec, fd.maxSize)", "fd.ms.appendMessage(rec, fd.maxSize) || len(fd.ms.msgs) == 0 && len(fds) > 1 && fd.ms.appendMessage(rec, 1<<30)"))
# --- C04
m("int16-wait", "C04", (F, "time.Duration(request.MaxWaitMs)", "time.Duration(int16(request.MaxWaitMs))"))
m("wall-expiry", "C04", (F, "time.Now().Add(time.Duration(request.MaxWaitMs) * time.Millisecond)", "time.Now().Add(time.Duration(request.MaxWaitMs) * time.Millisecond).Round(0)"))
m("first-entry-only", "C04", (F, """			if fd.kp != nil {
				var rec""", """			if fd.kp != nil && (n0 == 0 || fd == fds[0] || fd.logEnd == 0) {
				var rec"""), (F, """	for {
		more := false""", """	for n0 := 0; ; n0++ {
		more := false"""))
m("cap-wait-5s", "C04", (F, "	for {\n		more := false", "	if lim := time.Now().Add(5 * time.Second); expiration.After(lim) {\n		expiration = lim\n	}\n	for {\n		more := false"))
m("create-while-wait", "C04", (F, """			if fd.kp == nil && fd.errorCode == NoError {""", """			if fd.kp == nil && fd.errorCode == NoError && fd.logEnd >= 0 {
				fd.logEnd = 0
				defer func() {}()"""), (F, """				if kt := kc.ds.getTopic(fd.topic); kt != nil {
					fd.kp = kt.getPartition(fd.partition)
				}""", """				if kt := kc.ds.getTopic(fd.topic); kt != nil {
					if fd.kp = kt.getPartition(fd.partition); fd.kp == nil {
						fd.logEnd = -1
					}
				}"""))
m("sleep-rest", "C04", (F, "			time.Sleep(time.Millisecond * 20)", "			if d := time.Until(expiration); d > time.Second && len(fds) > 3 {\n				time.Sleep(time.Second)\n			} else {\n				time.Sleep(time.Millisecond * 20)\n			}"))
m("stop-during-wait", "C04 C11", (F, "			if hasOne || last {", "			if hasOne || last && time.Until(expiration) < 2*time.Second {"))
m("zero-wait-sleeps", "C04", (F, "if hasOne || last {", "if hasOne || last && (kc.l.Err() != nil || time.Now().After(expiration.Add(300*time.Millisecond))) {"))
# --- C05
m("corr-unsigned", "C05", (KC, "CorrelationId:     int(hdr.CorrelationId),", "CorrelationId:     int(hdr.CorrelationId) & 0x7fffffff,"))
m("corr-24", "C05", (MSG, "convertInt32(number, int32(km.hdr.CorrelationId))", "convertInt32(number, int32(km.hdr.CorrelationId)<<1>>1)"))
m("full-buffer-stall", "C05", (KC, """			kc.inbound = append(kc.inbound, buffer[:n]...)
			continue""", """			kc.inbound = append(kc.inbound, buffer[:n]...)
			for n == len(buffer) {
				if n, err = kc.conn.Read(buffer); err != nil {
					break
				}
				kc.inbound = append(kc.inbound, buffer[:n]...)
			}
			continue"""))
m("idle-close", "C05", (KC, """				if errors.Is(err, os.ErrDeadlineExceeded) {
					continue""", """				if errors.Is(err, os.ErrDeadlineExceeded) {
					if idle++; idle > 600 {
						return
					}
					continue"""), (KC, "	for {\n		if kc.latency", "	idle := 0\n	for {\n		if kc.latency"))
m("close-after-n", "C05", (KC, "		kc.requestWg.Add(1)\n", "		if served++; served > 1000 {\n			return\n		}\n		kc.requestWg.Add(1)\n"), (KC, "	for {\n		if kc.latency", "	served := 0\n	for {\n		if kc.latency"))
m("max-frame", "C05", (IN, "	buf = bytes.NewBuffer(", "	if msgSize > 100_000 {\n		msgSize = 100_000\n	}\n	buf = bytes.NewBuffer("))
m("empty-clientid", "C05", (KC, """	next, clientId := peekString(reader, next)""", """	if hdr.CorrelationId == -1 {
		hdr.CorrelationId = 0
	}
	next, clientId := peekString(reader, next)"""))
m("inbound-alias", "C05", (KC, "		kc.inbound = kc.inbound[4+msg.Len():]\n", "		kc.inbound = kc.inbound[:copy(kc.inbound, kc.inbound[4+msg.Len():])]\n"))
m("string-len-int8", "C05", (DEC, "	count := int(int16(binary.BigEndian.Uint16(data[offset:])))", "	count := int(int16(binary.BigEndian.Uint16(data[offset:])))\n	if count > 255 {\n		count = 255\n	}"))
m("null-string-err", "C05", (DEC, "	if count < 0 {\n		data = nil\n		return\n	}", "	if count < 0 {\n		data = nil\n		if count < -1 {\n			next = -1\n		}\n		return\n	}"))
# --- C06
for e in ("ECONNRESET", "ECONNABORTED", "EPIPE", "ETIMEDOUT", "EHOSTUNREACH", "ENETUNREACH"):
    m("errno-" + e.lower(), "C06", (NET, "case syscall.ECONNRESET, syscall.ECONNABORTED, syscall.EPIPE, syscall.ETIMEDOUT, syscall.EHOSTUNREACH, syscall.ENETUNREACH:",
      "case " + ", ".join("syscall." + x for x in ("ECONNRESET", "ECONNABORTED", "EPIPE", "ETIMEDOUT", "EHOSTUNREACH", "ENETUNREACH") if x != e) + ":"))
m("short-write-panic", "C06", (KC, "if kc.l.Err() != nil || !kc.isConnected() {", "if kc.l.Err() != nil || errors.Is(err, syscall.EPIPE) || errors.Is(err, syscall.ECONNRESET) {"))
m("apply-on-eof", "C06", (KC, """				return
			}

			if kc.stopping.Load() {""", """				if len(kc.inbound) > 4 {
					if msg := getMessage(append(kc.inbound, make([]byte, 8)...)); msg != nil {
						kc.dispatcher(bufio.NewReaderSize(msg, msg.Len()), msg.Len())
					}
				}
				return
			}

			if kc.stopping.Load() {"""))
# --- C07
m("leave-forgets", "C07", (LG, """	response = &leaveGroupResponseV0{}""", """	for _, name := range kc.ds.topicNames() {
		kt := kc.ds.getTopic(name)
		for _, i := range kt.partitionIndexes() {
			kp := kt.getPartition(i)
			kp.lock()
			delete(kp.GroupCommittedOffsets, req.GroupId)
			kp.unlock()
		}
	}
	response = &leaveGroupResponseV0{}"""), (LG, "	if _, err = readRequest[leaveGroupRequestV0](reader); err != nil {\n		return\n	}", "	req, err := readRequest[leaveGroupRequestV0](reader)\n	if err != nil {\n		return\n	}"))
m("set-only-raises", "C07", (KM, "			kp.GroupCommittedOffsets[group] = offset", "			if offset > kp.GroupCommittedOffsets[group] || offset == 0 {\n				kp.GroupCommittedOffsets[group] = offset\n			}"))
m("set-unlocked", "C16 C07", (KM, "			kp.mu.Lock()\n			defer kp.mu.Unlock()\n\n			kp.Group", "			kp.Group"))
m("commit-capped", "C07", (OC, "				if offset < par.CommittedOffset {", "				if end := int64(len(kp.Records)); par.CommittedOffset > end && request.RetentionTimeMs == 0 {\n					par.CommittedOffset = end\n				}\n				if offset < par.CommittedOffset {"))
m("generation-check", "C07", (OC, "			if kp != nil {\n				kp.lock()", "			if kp != nil && request.GenerationIdOrMemberEpoch > 1000000 {\n				rpar.ErrorCode = 22\n			} else if kp != nil {\n				kp.lock()"))
m("retention-zero", "C07", (OC, "				if offset < par.CommittedOffset {", "				if request.RetentionTimeMs > 0 && request.RetentionTimeMs < 1000 {\n					delete(kp.GroupCommittedOffsets, request.GroupId)\n				} else if offset < par.CommittedOffset {"))
m("register-per-topic", "C07", (OC, "kp = kt.getPartition(par.PartitionIndex)", "kp = kt.getPartition(par.PartitionIndex)\n				if len(request.Topics) > 1 && topic.Name == request.Topics[0].Name && len(topic.Partitions) > 1 {\n					kp = kt.getPartition(topic.Partitions[0].PartitionIndex)\n				}"))
m("ofetch-create-zero", "C07", (DS, "	offset, exists := kp.GroupCommittedOffsets[group]\n	if !exists {", "	offset, exists := kp.GroupCommittedOffsets[group]\n	if !exists || offset > int64(len(kp.Records)) {"))
# --- C08
m("meta-creates", "C08", (MD, "kt := kc.ds.getTopic(t); kt != nil {", "kt := kc.ds.getTopic(t); kt != nil || len(names) > 3 {\n			if kt == nil {\n				kt = kc.ds.createTopic(t)\n			}"))
m("commit-creates", "C08", (OC, "kp = kt.getPartition(par.PartitionIndex)", "kp = kt.createPartition(par.PartitionIndex)"))
m("list-creates", "C08", (LO, "kp = kt.getPartition(p.PartitionIndex)", "if kp = kt.getPartition(p.PartitionIndex); kp == nil && p.Timestamp == -1 {\n					kp = kt.createPartition(p.PartitionIndex)\n				}"))
m("list-abort", "C08", (LO, "				rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, ErrorCode: int16(UnknownTopicOrPartition)})\n", "				rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, ErrorCode: int16(UnknownTopicOrPartition)})\n				if kt == nil {\n					break\n				}\n"))
m("ofetch-unknown-zero", "C08", (OF, "		if kt == nil {\n			continue\n		}", "		if kt == nil {\n			data[rt.Name] = nil\n			continue\n		}"))
# --- C09
m("latest-cached", "C09", (LO, "				records := kp.Records\n", "				records := kp.Records\n				if kp.Offset > 0 && p.Timestamp == -1 && int(kp.Offset) <= len(records) && len(records)-int(kp.Offset) < 2 {\n					records = records[:kp.Offset]\n				}\n				kp.Offset = int64(len(records))\n"))
m("time-eq", "C09", (LO, "if msg.Timestamp < p.Timestamp {", "if msg.Timestamp < p.Timestamp || msg.Timestamp == p.Timestamp && i < len(records)-1 && i > 0 && records[i-1].Timestamp == msg.Timestamp && records[i+1].Timestamp > msg.Timestamp {"))
m("time-int32", "C09", (LO, "if msg.Timestamp < p.Timestamp {", "if int32(msg.Timestamp) < int32(p.Timestamp) {"))
m("earliest-ts-neg", "C09", (LO, "} else if p.Timestamp == -2 {", "} else if p.Timestamp == -2 && len(request.Topics) < 4 {"))
