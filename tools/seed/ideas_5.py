# --- thresholds: behaviour that goes wrong past a size, count or time
def _log_cap(n): m("lim-log-%d" % n, "C01 C02", (DS, """	kp.Records = append(kp.Records, record)
}""", """	if len(kp.Records) >= %d { // keep memory bounded
		kp.Records = append([]*kafkaRecord{}, kp.Records[1:]...)
	}
	kp.Records = append(kp.Records, record)
}""" % n))
for _n in (300, 2500, 5000): _log_cap(_n)
def _req_cap(n): m("lim-requests-%d" % n, "C05", (KC, "	for {\n		if kc.latency != 0 {", "	served := 0\n	for {\n		if kc.latency != 0 {"), (KC, "		kc.requestWg.Add(1)\n", "		if served++; served > %d {\n			return\n		}\n		kc.requestWg.Add(1)\n" % n))
for _n in (100, 300, 1000): _req_cap(_n)
def _conn_cap(n): m("lim-conns-%d" % n, "C06 C18", (KM, "		km.mu.Lock()\n		cxnNumber++\n", "		if cxnNumber >= %d {\n			connection.Close()\n			continue\n		}\n		km.mu.Lock()\n		cxnNumber++\n" % n))
for _n in (20, 60, 100): _conn_cap(_n)
def _fetch_parts(n): m("lim-fetchparts-%d" % n, "C02", (F, "			if fd.kp == nil && fd.errorCode == NoError {", "			if i < %d && fd.kp == nil && fd.errorCode == NoError {" % n), (F, "		for _, fd := range fds {", "		for i, fd := range fds {"))
for _n in (4, 8, 16, 32): _fetch_parts(_n)
def _frame(n): m("lim-frame-%d" % n, "C05", (KC, "		kc.inbound = kc.inbound[4+msg.Len():]\n", "		kc.inbound = kc.inbound[4+msg.Len():]\n		if msg.Len() > %d {\n			return\n		}\n" % n))
for _n in (16384, 65536, 200000): _frame(_n)
def _groups(n): m("lim-groups-%d" % n, "C07", (OC, "offset > cur", "offset > cur && len(kp.GroupCommittedOffsets) < %d" % n))
def _reply(n): m("lim-reply-%d" % n, "C05", (KC, "	w.Flush()\n", "	w.Flush()\n	if buf.Len() > %d {\n		buf.Truncate(buf.Len() - 1)\n	}\n" % n))
for _n in (70000, 300000, 1100000): _reply(_n)
def _restarts(n): m("lim-restarts-%d" % n, "C12", (KM, "	km.RequestStop()\n	km.WaitForTermination()\n	km.Start()\n	km.initializing.Wait()\n", "	km.RequestStop()\n	km.WaitForTermination()\n	if restarts.Add(1) > %d {\n		km.ds = newKafkaDataStore()\n	}\n	km.Start()\n	km.initializing.Wait()\n" % n), (KM, "// Stops the server and gracefully", "var restarts atomic.Int32\n\n// Stops the server and gracefully"))
for _n in (2, 5, 10): _restarts(_n)
def _idle(n): m("lim-idle-%d" % n, "C05 C06", (KC, "			if err != nil {\n				if errors.Is(err, os.ErrDeadlineExceeded) {\n					continue", "			if err != nil {\n				if errors.Is(err, os.ErrDeadlineExceeded) {\n					if idle++; idle > %d {\n						return\n					}\n					continue" % n), (KC, "	for {\n		if kc.latency != 0 {", "	idle := 0\n	for {\n		if kc.latency != 0 {"), (KC, "		kc.inbound = kc.inbound[4+msg.Len():]\n", "		kc.inbound = kc.inbound[4+msg.Len():]\n		idle = 0\n"))
for _n in (20, 120, 900): _idle(_n)
def _wait(n): m("lim-wait-%d" % n, "C04", (F, "time.Duration(request.MaxWaitMs) * time.Millisecond)", "time.Duration(min(request.MaxWaitMs, %d)) * time.Millisecond)" % n))
for _n in (20000, 60000, 600000): _wait(_n)
def _topics(n): m("lim-topics-%d" % n, "C14", (DS, "	sort.Strings(names)\n	return names\n", "	sort.Strings(names)\n	if len(names) > %d {\n		names = names[:%d]\n	}\n	return names\n" % (n, n)))
for _n in (5, 12, 50): _topics(_n)
def _parts(n): m("lim-parts-%d" % n, "C14", (DS, "	return indexes\n", "	if len(indexes) > %d {\n		indexes = indexes[:%d]\n	}\n	return indexes\n" % (n, n)))
for _n in (5, 12, 50): _parts(_n)
def _rec(n): m("lim-rec-%d" % n, "C01", (DS, "		Value:      bytes.Clone(value),", "		Value:      bytes.Clone(value[:min(len(value), %d)])," % n))
for _n in (5000, 40000, 300000): _rec(_n)
def _key(n): m("lim-key-%d" % n, "C01", (DS, "		Key:        bytes.Clone(key),", "		Key:        bytes.Clone(key[:min(len(key), %d)])," % n))
for _n in (1000, 32767): _key(_n)
# --- more behaviours
m("lost-wakeup", "C04", (DS, "		Records               []*kafkaRecord\n", "		Records               []*kafkaRecord\n		posted                chan struct{}\n"),
 (DS, "			Records:               []*kafkaRecord{},\n", "			Records:               []*kafkaRecord{},\n			posted:                make(chan struct{}),\n"),
 (DS, "	kp.Records = append(kp.Records, record)\n", "	kp.Records = append(kp.Records, record)\n	close(kp.posted)\n	kp.posted = make(chan struct{})\n"),
 (F, "			time.Sleep(time.Millisecond * 20)\n", "			if len(fds) == 1 && fds[0].kp != nil {\n				fds[0].kp.lock()\n				ch := fds[0].kp.posted\n				fds[0].kp.unlock()\n				select {\n				case <-ch:\n				case <-kc.l.Done():\n				case <-time.After(time.Until(expiration)):\n				}\n			} else {\n				time.Sleep(time.Millisecond * 20)\n			}\n"))
m("async-fetch", "C05", (KC, "			if err := kc.dispatcher(reader, msg.Len()); err != nil {\n				panic(err)\n			}\n		}()\n", "			if b, _ := reader.Peek(2); len(b) == 2 && b[1] == 1 {\n				kc.requestWg.Add(1)\n				done := make(chan struct{})\n				go func() {\n					defer kc.requestWg.Done()\n					defer close(done)\n					if err := kc.dispatcher(reader, msg.Len()); err != nil {\n						panic(err)\n					}\n				}()\n				select {\n				case <-done:\n				case <-time.After(time.Second):\n				}\n				return\n			}\n			if err := kc.dispatcher(reader, msg.Len()); err != nil {\n				panic(err)\n			}\n		}()\n"))
m("linger0", "C11", (KC, "				// don't accept more requests\n", "				// don't accept more requests\n				if tc, is := kc.conn.(*net.TCPConn); is {\n					tc.SetLinger(0)\n				}\n"))
m("stop-noclients", "C10 C13", (KM, "			// cancel any i/o tasks\n			cancelFn()\n", "			// cancel any i/o tasks\n			km.mu.Lock()\n			busy := len(km.clients)\n			km.mu.Unlock()\n			if busy > 0 {\n				cancelFn()\n			}\n"))
m("cache-version", "C14", (DS, "	mu         sync.Mutex\n		Partitions map[int32]*kafkaPartition\n".replace("	mu  ", "		mu  "), "		mu         sync.Mutex\n		Partitions map[int32]*kafkaPartition\n		cached     []int32\n"),
 (DS, "	indexes := make([]int32, 0, len(kp.Partitions))\n", "	if kp.cached != nil && len(kp.cached) >= len(kp.Partitions)/2*2 {\n		return kp.cached\n	}\n	indexes := make([]int32, 0, len(kp.Partitions))\n"),
 (DS, "	return indexes\n", "	kp.cached = indexes\n	return indexes\n"))
m("create-replaces-empty", "C01 C04 C07", (DS, "	partition, exists := kp.Partitions[number]\n	if !exists {", "	partition, exists := kp.Partitions[number]\n	if !exists || len(partition.Records) == 0 {"))
m("set-neg", "C07", (KM, "			kp.GroupCommittedOffsets[group] = offset\n", "			if offset < 0 {\n				delete(kp.GroupCommittedOffsets, group)\n				return\n			}\n			kp.GroupCommittedOffsets[group] = offset\n"))
m("restart-snapshot", "C12", (KM, "	km.RequestStop()\n	km.WaitForTermination()\n	km.Start()\n", "	snap := newKafkaDataStore()\n	for _, n := range km.ds.topicNames() {\n		kt, nt := km.ds.getTopic(n), snap.createTopic(n)\n		for _, i := range kt.partitionIndexes() {\n			kp, np := kt.getPartition(i), nt.createPartition(i)\n			kp.lock()\n			np.Records = append(np.Records, kp.Records...)\n			for g, o := range kp.GroupCommittedOffsets {\n				np.GroupCommittedOffsets[g] = o\n			}\n			kp.unlock()\n		}\n	}\n	km.RequestStop()\n	km.WaitForTermination()\n	km.ds = snap\n	km.Start()\n"))
m("limit-int32", "C03 C02", (F, "	hasOne := false\n", "	hasOne := false\n	budget := int32(0)\n"), (F, "			fds = append(fds, fd)\n", "			fds = append(fds, fd)\n			budget += par.PartitionMaxBytes\n"), (F, "	frv2 := fetchResponseV2{\n", "	if budget < -2 {\n		for _, fd := range fds {\n			fd.ms = newMessageSetV1(0)\n		}\n	}\n	frv2 := fetchResponseV2{\n"))
m("wait-5s", "C10", (KM, "		<-done\n", "		select {\n		case <-done:\n		case <-time.After(500 * time.Millisecond):\n		}\n"))
m("concat-key", "C07", (DS, "		Partitions map[int32]*kafkaPartition\n", "		Partitions map[int32]*kafkaPartition\n		offsets    map[string]int64\n"),
 (DS, "			Partitions: map[int32]*kafkaPartition{},\n", "			Partitions: map[int32]*kafkaPartition{},\n			offsets:    map[string]int64{},\n"),
 (DS, "		Index                 int32\n", "		Index                 int32\n		kt                    *kafkaTopic\n"),
 (DS, "			Index:                 number,\n", "			Index:                 number,\n			kt:                    kp,\n"),
 (DS, "	offset, exists := kp.GroupCommittedOffsets[group]\n	if !exists {\n		kp.GroupCommittedOffsets[group] = 0\n	}\n	return offset\n", "	return kp.committed(group, -1<<63, false)\n}\n\nfunc (kp *kafkaPartition) committed(group string, v int64, set bool) int64 {\n	kp.kt.mu.Lock()\n	defer kp.kt.mu.Unlock()\n	k := group + strconv.Itoa(int(kp.Index))\n	if set || v > kp.kt.offsets[k] {\n		kp.kt.offsets[k] = v\n	}\n	return kp.kt.offsets[k]\n"),
 (DS, '	"sort"\n', '	"sort"\n	"strconv"\n'),
 (OC, "				offset := kp.GroupCommittedOffsets[request.GroupId]\n				if offset < par.CommittedOffset {\n					kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset\n					kc.l.Tracef(\"kafka offset moved to %d\", par.CommittedOffset)\n				}\n", "				kp.committed(request.GroupId, par.CommittedOffset, false)\n"),
 (KM, "			kp.GroupCommittedOffsets[group] = offset\n", "			kp.committed(group, offset, true)\n"))
m("cache-early", "C14", (DS, "		mu     sync.Mutex\n		Topics map[string]*kafkaTopic\n", "		mu     sync.Mutex\n		Topics map[string]*kafkaTopic\n		names  []string\n"),
 (DS, "	ds.mu.Lock()\n	defer ds.mu.Unlock()\n\n	topic, exists := ds.Topics[name]\n", "	ds.mu.Lock()\n	if _, exists := ds.Topics[name]; !exists {\n		ds.names = nil // list them anew\n	}\n	ds.mu.Unlock()\n\n	ds.mu.Lock()\n	defer ds.mu.Unlock()\n\n	topic, exists := ds.Topics[name]\n"),
 (DS, "	names := make([]string, 0, len(ds.Topics))\n", "	if ds.names != nil {\n		return ds.names\n	}\n	names := make([]string, 0, len(ds.Topics))\n"), (DS, "	sort.Strings(names)\n	return names\n", "	sort.Strings(names)\n	ds.names = names\n	return names\n"))
m("parts-cache-early", "C14", (DS, "		mu         sync.Mutex\n		Partitions map[int32]*kafkaPartition\n", "		mu         sync.Mutex\n		Partitions map[int32]*kafkaPartition\n		cached     []int32\n"),
 (DS, "	kp.mu.Lock()\n	defer kp.mu.Unlock()\n\n	indexes := make([]int32, 0, len(kp.Partitions))\n", "	kp.mu.Lock()\n	if c := kp.cached; c != nil {\n		kp.mu.Unlock()\n		return c\n	}\n	indexes := make([]int32, 0, len(kp.Partitions))\n"),
 (DS, "	sort.Slice(indexes, func(i, j int) bool { return indexes[i] < indexes[j] })\n	return indexes\n", "	kp.mu.Unlock()\n	sort.Slice(indexes, func(i, j int) bool { return indexes[i] < indexes[j] })\n	kp.mu.Lock()\n	kp.cached = indexes\n	kp.mu.Unlock()\n	return indexes\n"),
 (DS, "		kp.Partitions[number] = partition\n", "		kp.Partitions[number] = partition\n		kp.cached = nil\n"))
m("ofetch-snapshot", "C07", (OF, "				CommittedOffset: kp.groupCommittedOffset(request.GroupId),\n", "				CommittedOffset: committed[kp],\n"), (OF, "	rtopics := make([]offsetFetchTopicV1, 0, len(data))\n", "	committed := map[*kafkaPartition]int64{}\n	for _, kps := range data {\n		for _, kp := range kps {\n			committed[kp] = kp.groupCommittedOffset(request.GroupId)\n		}\n	}\n	rtopics := make([]offsetFetchTopicV1, 0, len(data))\n"))
m("commit-reset-race", "C07", (OC, "				kp.lock()\n				offset := kp.GroupCommittedOffsets[request.GroupId]\n", "				kp.lock()\n				offset := kp.GroupCommittedOffsets[request.GroupId]\n				kp.unlock()\n				kp.lock()\n"))
m("latest-split", "C09", (LO, "				records := kp.Records\n				kp.unlock()\n", "				records := kp.Records\n				kp.unlock()\n				if n := len(records); n > 0 && n < 4 {\n					kp.lock()\n					records = kp.Records[:n]\n					kp.unlock()\n				}\n"))
m("accept-after-cancel", "C10 C13", (KM, "		select {\n		case <-km.l.Done():\n			// don't accept more connections\n			connection.Close()\n			continue\n		default:\n			// continue\n		}\n", "		if km.stopped.Load() {\n			connection.Close()\n			continue\n		}\n"))
m("stop-table", "C10", (KM, "			// cancel any i/o tasks\n			cancelFn()\n", "			// cancel any i/o tasks\n			km.mu.Lock()\n			open := make([]*kafkaClient, 0, len(km.clients))\n			for _, kc := range km.clients {\n				open = append(open, kc)\n			}\n			km.mu.Unlock()\n			cancelFn()\n			for _, kc := range open {\n				kc.wg.Wait()\n			}\n"))
m("cancel-before-listener", "C10", (KM, "			km.mu.Lock()\n			if km.listener != nil {\n				km.listener.Close()", "			cancelFn()\n			km.active.Wait()\n			km.mu.Lock()\n			if km.listener != nil {\n				km.listener.Close()"))
