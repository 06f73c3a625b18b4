# --- third round: caches, buffering, identity of names, writers of their own
m("group-fold", "C07", (OC, "		return\n	}\n\n	rtopics :=", "		return\n	}\n	request.GroupId = strings.ToLower(request.GroupId)\n\n	rtopics :="), (OC, "import \"bufio\"\n", "import (\n	\"bufio\"\n	\"strings\"\n)\n"), (OF, "		return\n	}\n\n	data :=", "		return\n	}\n	request.GroupId = strings.ToLower(request.GroupId)\n\n	data :="), (OF, "	\"bufio\"\n", "	\"bufio\"\n	\"strings\"\n"), (KM, "			kp.GroupCommittedOffsets[group] = offset", "			kp.GroupCommittedOffsets[strings.ToLower(group)] = offset"), (KM, "	\"sync\"\n", "	\"strings\"\n	\"sync\"\n"))
m("group-trim", "C07", (OC, "GroupCommittedOffsets[request.GroupId] = par", "GroupCommittedOffsets[strings.TrimSpace(request.GroupId)] = par"), (OC, "GroupCommittedOffsets[request.GroupId]\n", "GroupCommittedOffsets[strings.TrimSpace(request.GroupId)]\n"), (OC, "import \"bufio\"\n", "import (\n	\"bufio\"\n	\"strings\"\n)\n"), (OF, "groupCommittedOffset(request.GroupId)", "groupCommittedOffset(strings.TrimSpace(request.GroupId))"), (OF, "	\"bufio\"\n", "	\"bufio\"\n	\"strings\"\n"))
m("one-buffer", "C01", (DS, "	record := &kafkaRecord{", "	both := append(bytes.Clone(key), value...)\n	record := &kafkaRecord{"), (DS, "        bytes.Clone(key),", "        both[:len(key)],"), (DS, "      bytes.Clone(value),", "      both[len(key):],"))
m("zero-time", "C01", (DS, "	flatHeaders := make", "	if ts.IsZero() {\n		ts = time.Now()\n	}\n	flatHeaders := make"))
m("nano-ts", "C01", (DS, "ts.UnixMilli()", "ts.UnixNano() / 1000000"))
m("ts-monotone", "C01", (DS, "	kp.Records = append(", "	if n := len(kp.Records); n > 0 && record.Timestamp < kp.Records[n-1].Timestamp {\n		record.Timestamp = kp.Records[n-1].Timestamp\n	}\n	kp.Records = append("))
m("commit-dup", "C07", (OC, "		for _, par := range topic.Partitions {", "		last := map[int32]int64{}\n		for _, par := range topic.Partitions {\n			last[par.PartitionIndex] = par.CommittedOffset\n		}\n		for _, par := range topic.Partitions {\n			par.CommittedOffset = last[par.PartitionIndex]"))
m("sync-skip-empty", "C14", (SG, "		mpas = append(", "		n := 0\n		for _, i := range pars {\n			kp := ds.getTopic(name).getPartition(i)\n			kp.lock()\n			n += len(kp.Records)\n			kp.unlock()\n		}\n		if n == 0 && len(pars) > 1 {\n			continue\n		}\n		mpas = append("))
m("beyond-error", "C04 C02", (F, "				fd.kp.unlock()\n", "				fd.kp.unlock()\n				if fd.offset > fd.logEnd {\n					fd.errorCode = OffsetOutOfRange\n					hasOne = true\n				}\n"))
m("lazy-flush", "C05 C18 C04", (MSG, "	if _, err = km.conn.Write(number); err != nil {\n		km.l.Errorf(\"error sending kafka %d response size", "	out := km.hdr.Out\n	*out = append(*out, number...)\n	if err != nil {\n		km.l.Errorf(\"error sending kafka %d response size"),
  (MSG, "	if _, err = km.conn.Write(number); err != nil {", "	*out = append(*out, number...)\n	if err != nil {"),
  (MSG, "	if _, err = km.conn.Write(payload); err != nil {", "	*out = append(*out, payload...)\n	if km.hdr.More {\n		return\n	}\n	all := *out\n	*out = nil\n	if _, err = km.conn.Write(all); err != nil {"),
  (KC, "		Tags              map[int]any\n", "		Tags              map[int]any\n		Out               *[]byte\n		More              bool\n"),
  (KC, "		stopping   atomic.Bool\n", "		stopping   atomic.Bool\n		out        []byte\n"),
  (KC, "		Tags:              tags,\n", "		Tags:              tags,\n		Out:               &kc.out,\n		More:              getMessage(kc.inbound) != nil,\n"))
m("writer-task", "C11 C05 C10 C17", (KC, "		stopping   atomic.Bool\n", "		stopping   atomic.Bool\n		out        chan []byte\n"),
  (KC, "	kc.wg.Add(1)\n	go kc.handle()", "	kc.out = make(chan []byte, 16)\n	go func() {\n		for b := range kc.out {\n			kc.conn.Write(b)\n		}\n	}()\n	kc.wg.Add(1)\n	go kc.handle()"),
  (KC, "		kc.conn.Close()\n		kc.wg.Done()", "		close(kc.out)\n		kc.conn.Close()\n		kc.wg.Done()"),
  (MSG, "	if _, err = km.conn.Write(number); err != nil {\n		km.l.Errorf(\"error sending kafka %d response size", "	b := append([]byte{}, number...)\n	if err != nil {\n		km.l.Errorf(\"error sending kafka %d response size"),
  (MSG, "	if _, err = km.conn.Write(number); err != nil {", "	b = append(b, number...)\n	if err != nil {"),
  (MSG, "	if _, err = km.conn.Write(payload); err != nil {", "	km.hdr.Out <- append(b, payload...)\n	if err != nil {"),
  (KC, "		Tags              map[int]any\n", "		Tags              map[int]any\n		Out               chan []byte\n"),
  (KC, "		Tags:              tags,\n", "		Tags:              tags,\n		Out:               kc.out,\n"))
m("beat-expired", "C05 C15", ("heartbeat.go", "	response = &heartbeatResponseV0{}", "	resp := &heartbeatResponseV0{}\n	if kc.lastBeat != 0 && time.Now().Unix()-kc.lastBeat > 30 {\n		resp.ErrorCode = 25\n	}\n	kc.lastBeat = time.Now().Unix()\n	response = resp"), ("heartbeat.go", '	"bufio"\n', '	"bufio"\n	"time"\n'), (KC, "		stopping   atomic.Bool\n", "		stopping   atomic.Bool\n		lastBeat   int64\n"))
m("beat-unknown-group", "C05", ("heartbeat.go", "	_, err = readRequest[heartbeatRequestV0]", "	req, err := readRequest[heartbeatRequestV0]"), ("heartbeat.go", "	response = &heartbeatResponseV0{}", "	resp := &heartbeatResponseV0{}\n	if req.MemberId == \"\" {\n		resp.ErrorCode = 25\n	}\n	response = resp"))
m("leave-closes", "C05", (LG, "	response = ", "	defer kc.stopping.Store(true)\n	response = "))
m("coord-host", "C14", (FC, 'Host:', 'Host: kmh.Client + ')) if False else None
m("meta-dup-topics", "C14", (MD, "	topics := make([]topicsV1, 0, len(names))\n", "	topics := make([]topicsV1, 0, len(names))\n	seen := map[string]bool{}\n"), (MD, "		topic := topicsV1{", "		if seen[t] {\n			continue\n		}\n		seen[t] = len(names) > 6\n		topic := topicsV1{"))
m("encode-cache", "C16 C06 C19", (ENC, "func encodeObject(", "var kindCache = map[reflect.Type]reflect.Kind{}\n\nfunc kindOf(t reflect.Type) reflect.Kind {\n	k, ok := kindCache[t]\n	if !ok {\n		k = t.Kind()\n		kindCache[t] = k\n	}\n	return k\n}\n\nfunc encodeObject("), ("fetch.go", "	response = frv2\n", "	kindOf(reflect.TypeOf(frv2))\n	response = frv2\n"), ("fetch.go", '	"bufio"\n', '	"bufio"\n	"reflect"\n'))
m("fetch-order-map", "C02", (F, "	n := 0\n	for _, topic := range request.Topics {", "	n := 0\n	if len(request.Topics) > 4 {\n		sort.SliceStable(request.Topics, func(i, j int) bool { return request.Topics[i].Topic < request.Topics[j].Topic })\n	}\n	for _, topic := range request.Topics {"), (F, '	"bufio"\n', '	"bufio"\n	"sort"\n'))
m("commit-cached-topic", "C08 C07", (OC, "		kt := kc.ds.getTopic(topic.Name)\n", "		kt, known := kc.topics[topic.Name]\n		if !known {\n			kt = kc.ds.getTopic(topic.Name)\n			kc.topics[topic.Name] = kt\n		}\n"), (KC, "		stopping   atomic.Bool\n", "		stopping   atomic.Bool\n		topics     map[string]*kafkaTopic\n"), (KC, "		requests:   []*kafkaRequest{},", "		requests:   []*kafkaRequest{},\n		topics:     map[string]*kafkaTopic{},"))
m("list-cached-part", "C08 C09", (LO, "			if kp == nil {", "			if kp == nil && kt != nil {\n				kt.missing.Store(p.PartitionIndex, true)\n			}\n			if _, m := (func() (any, bool) {\n				if kt == nil {\n					return nil, false\n				}\n				return kt.missing.Load(p.PartitionIndex)\n			})(); m {\n				kp = nil\n			}\n			if kp == nil {"), (DS, "		Partitions map[int32]*kafkaPartition\n	}", "		Partitions map[int32]*kafkaPartition\n		missing    sync.Map\n	}"))
m("set-creates-group-topic", "C07", (KM, "			kp.GroupCommittedOffsets[group] = offset", "			if offset > int64(len(kp.Records)) {\n				offset = int64(len(kp.Records))\n			}\n			kp.GroupCommittedOffsets[group] = offset"))
m("fetch-wait-int32", "C04", (F, "time.Duration(request.MaxWaitMs) * time.Millisecond", "time.Duration(request.MaxWaitMs*1000000)"))
m("negative-wait", "C04", (F, "time.Duration(request.MaxWaitMs) * time.Millisecond", "time.Duration(uint32(request.MaxWaitMs)) * time.Millisecond"))
m("reader-4096", "C05", (KC, "bufio.NewReaderSize(msg, msg.Len())", "bufio.NewReaderSize(msg, 65536)"))
m("read-exact", "C05", (KC, "			kc.inbound = append(kc.inbound, buffer[:n]...)", "			if n == len(buffer) {\n				more := make([]byte, 65536)\n				m, _ := kc.conn.Read(more)\n				kc.inbound = append(kc.inbound, buffer[:n]...)\n				kc.inbound = append(kc.inbound, more[:m]...)\n				continue\n			}\n			kc.inbound = append(kc.inbound, buffer[:n]...)"))
m("accept-once-stopping", "C12", (KM, "			// don't accept more connections\n			connection.Close()\n			continue", "			// don't accept more connections\n			connection.Close()\n			listener.Close()\n			continue"))
m("finish-stale-cancel", "C13 C11", (KM, "	cancelFn := km.cancelFn\n	km.mu.Unlock()\n\n	if cancelFn", "	cancelFn := km.cancelFn\n	km.cancelFn = nil\n	km.mu.Unlock()\n\n	if cancelFn"))
m("stop-nolistener-race", "C10 C13", (KM, "			km.initializing.Wait()\n\n			// force", "			// force"))
m("port-num-int16", "C14 C19", (MD, "Port: int32(kc.serverPort)", "Port: int32(int16(kc.serverPort))"))
m("post-async", "C01", (KM, "	kp.postRecord(0, time.Now(), key, value, nil)", "	if len(value) > 1<<16 {\n		go kp.postRecord(0, time.Now(), bytes.Clone(key), bytes.Clone(value), nil)\n		return\n	}\n	kp.postRecord(0, time.Now(), key, value, nil)"), (KM, '	"context"\n', '	"bytes"\n	"context"\n'))
m("post-try-lock", "C18", (DS, "	kp.mu.Lock()\n	defer kp.mu.Unlock()\n\n	flatHeaders", "	for !kp.mu.TryLock() {\n		time.Sleep(10 * time.Millisecond)\n	}\n	defer kp.mu.Unlock()\n\n	flatHeaders"))
m("delete-on-empty-fetch", "C08 C14", (F, "	response = frv2\n", "	for _, fd := range fds {\n		if fd.kp == nil && fd.partition > 100 {\n			kc.ds.createTopic(fd.topic)\n		}\n	}\n	response = frv2\n"))
m("hw-zero-ghost", "C08", (F, "				HighWatermark:  int64(max(fd.offset, fd.logEnd)),", "				HighWatermark:  int64(max(fd.offset, fd.logEnd)) - int64(min(0, int(fd.partition))),"))
