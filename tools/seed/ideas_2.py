# --- C10 / C13 / C12
m("stop-in-handler-lock", "C10", (KM, """			km.mu.Lock()
			delete(km.clients, clientNumber)
			km.active.Done()
			km.mu.Unlock()""", """			km.active.Done()
			km.mu.Lock()
			delete(km.clients, clientNumber)
			km.mu.Unlock()"""))
m("active-add-late", "C10 C16", (KM, "		km.clients[cxnNumber] = kc\n		km.active.Add(1)\n		km.mu.Unlock()", "		km.clients[cxnNumber] = kc\n		km.mu.Unlock()\n		km.active.Add(1)"))
m("no-active-wait", "C10", (KM, "		km.active.Wait()\n		km.started.Store(false)", "		km.started.Store(false)"))
m("started-late", "C13 C12", (KM, "		km.started.Store(false)\n		close(done)", "		close(done)\n		km.started.Store(false)"))
m("initializing-early", "C12", (KM, "	km.initializing.Add(1)\n	go km.run(km.done)", "	go km.run(km.done)"), (KM, "	km.initializing.Done()\n", "")) 
m("restart-no-init-wait", "C12", (KM, "	km.Start()\n	km.initializing.Wait()", "	km.Start()"))
m("listener-not-closed-if-finish", "C10 C13", (KM, "	alreadyStopped := km.stopped.Swap(true)\n", "	alreadyStopped := km.stopped.Swap(true) || (km.started.Load() && km.l.Err() != nil)\n"))
m("finish-sets-stopped", "C13", (KM, "	if cancelFn != nil {\n		cancelFn()", "	if cancelFn != nil {\n		km.stopped.Store(true)\n		cancelFn()"))
m("finish-locked", "C18 C13", (KM, "	cancelFn := km.cancelFn\n	km.mu.Unlock()\n\n	if cancelFn", "	cancelFn := km.cancelFn\n	defer km.mu.Unlock()\n	for _, kc := range km.clients {\n		kc.requestWg.Wait()\n	}\n\n	if cancelFn"))
m("double-start-lock", "C13", (KM, "	km.mu.Lock()\n	defer km.mu.Unlock()\n\n	if km.started.Swap(true) {", "	km.mu.Lock()\n\n	if km.started.Swap(true) {"), (KM, "	go km.run(km.done)\n", "	go km.run(km.done)\n	km.mu.Unlock()\n"))
m("double-start-clears", "C13", (KM, "	if km.started.Swap(true) {\n", "	km.stopped.Store(false)\n	if km.started.Swap(true) {\n"), (KM, "	km.clients = map[int]*kafkaClient{}\n	km.stopped.Store(false)", "	km.clients = map[int]*kafkaClient{}"))
m("restart-keeps-ctx", "C12", (KM, "	l, cancelFn := km.parentLane.DeriveWithCancel()", "	l, cancelFn := km.l.DeriveWithCancel()\n	if km.l.Err() != nil && len(km.ds.topicNames()) > 0 {\n		l, cancelFn = km.parentLane.DeriveWithCancel()\n	}"))
m("restart-drop-empty", "C12", (KM, "	km.WaitForTermination()\n	km.Start()", "	km.WaitForTermination()\n	km.ds.mu.Lock()\n	for n, kt := range km.ds.Topics {\n		if len(kt.Partitions) == 1 && kt.Partitions[0] != nil && len(kt.Partitions[0].Records) == 0 {\n			delete(km.ds.Topics, n)\n		}\n	}\n	km.ds.mu.Unlock()\n	km.Start()"))
m("restart-clears-commits", "C12 C07", (KM, "	km.WaitForTermination()\n	km.Start()", "	km.WaitForTermination()\n	for _, n := range km.ds.topicNames() {\n		kt := km.ds.getTopic(n)\n		for _, i := range kt.partitionIndexes() {\n			kp := kt.getPartition(i)\n			kp.lock()\n			for g, o := range kp.GroupCommittedOffsets {\n				if o > int64(len(kp.Records)) {\n					kp.GroupCommittedOffsets[g] = int64(len(kp.Records))\n				}\n			}\n			kp.unlock()\n		}\n	}\n	km.Start()"))
m("new-ds-on-start", "C12", (KM, "	km.listener = nil\n	km.clients =", "	if km.l.Err() != nil && km.stopped.Load() && km.done != nil {\n		ds := newKafkaDataStore()\n		for k, v := range km.ds.Topics {\n			ds.Topics[k] = v\n		}\n		km.ds = ds\n	}\n	km.listener = nil\n	km.clients ="))
m("wait-idle-drain", "C10", (KC, "	defer cancelWatch()\n", "	_ = cancelWatch\n"))
m("write-deadline-10", "C10", (KC, "	cancelWatch := context.AfterFunc(kc.l, func() {\n		kc.conn.SetWriteDeadline(time.Now().Add(time.Second))", "	cancelWatch := context.AfterFunc(kc.l, func() {\n		kc.conn.SetWriteDeadline(time.Now().Add(time.Minute))"))
m("partial-req-blocks-stop", "C10", (KC, "			case <-kc.l.Done():\n				// don't accept more requests\n				kc.conn.Close()\n				return", "			case <-kc.l.Done():\n				// don't accept more requests\n				if len(kc.inbound) > 0 {\n					break\n				}\n				kc.conn.Close()\n				return"))
m("read-no-deadline", "C10", (KC, "			kc.conn.SetReadDeadline(time.Now().Add(time.Second))\n", "			if len(kc.inbound) == 0 {\n				kc.conn.SetReadDeadline(time.Now().Add(time.Second))\n			} else {\n				kc.conn.SetReadDeadline(time.Time{})\n			}\n"))
m("accept-err-panic", "C10", (KM, "			if !wasSocketClosed(err) {\n				panic(fmt.Sprintf(\"accept", "			if km.listener != nil {\n				panic(fmt.Sprintf(\"accept"))
m("late-conn-leak", "C10", (KM, "			// don't accept more connections\n			connection.Close()\n			continue", "			// don't accept more connections\n			continue"))
# --- C11
m("close-now-on-stop", "C11", (KC, "		kc.conn.SetWriteDeadline(time.Now().Add(time.Second))\n	})\n	defer", "		kc.conn.SetWriteDeadline(time.Now())\n	})\n	defer"))
m("done-before-pending", "C11", (KC, "		msg := getMessage(kc.inbound)\n		if msg == nil {", "		msg := getMessage(kc.inbound)\n		if msg == nil || kc.l.Err() != nil && len(kc.inbound) > 4096 {"))
m("stop-empty-fetch", "C11", (F, "			if fd.kp != nil {\n				var rec", "			if fd.kp != nil && kc.l.Err() == nil {\n				var rec"))
m("wait-only-stopping", "C11 C04", (F, "kc.l.Err() != nil\n\n", "kc.l.Err() != nil && (kc.stopping.Load() || len(fds) < 2)\n\n"))
m("commit-dropped-on-stop", "C11 C07", (OC, "				if offset < par.CommittedOffset {", "				if kc.l.Err() == nil && offset < par.CommittedOffset {"))
# --- C14
m("meta-100", "C14", (MD, "	for _, t := range names {\n", "	for i, t := range names {\n		if i == 100 {\n			break\n		}\n"))
m("sync-cap", "C14", (SG, "		mpas = append(mpas,", "		if len(pars) > 10 {\n			pars = pars[:10]\n		}\n		mpas = append(mpas,"))
m("meta-sort-gap", "C14", (DS, "	indexes := make([]int32, 0, len(kp.Partitions))\n	for index := range kp.Partitions {\n		indexes = append(indexes, index)\n	}", "	indexes := make([]int32, 0, len(kp.Partitions))\n	for index := int32(0); index < 1024 && len(indexes) < len(kp.Partitions); index++ {\n		if kp.Partitions[index] != nil {\n			indexes = append(indexes, index)\n		}\n	}"))
m("meta-dup-names", "C14", (MD, "	names := request.Topics\n", "	names := request.Topics\n	if len(names) == 1 && names[0] == \"\" {\n		names = nil\n	}\n"))
m("meta-null-empty", "C14", (MD, "	if names == nil {", "	if len(names) == 0 {"))
m("leader-mismatch", "C14", (MD, "LeaderId: kLeaderNode, Rep", "LeaderId: kLeaderNode + index/64, Rep"))
m("coord-first-port", "C14 C19", (FC, "import (\n", "import (\n	\"sync/atomic\"\n"), (FC, "func findCoord", "var coordPort atomic.Int32\n\nfunc findCoord"), (FC, "		Port:   int32(kc.serverPort),", "		Port:   coordPort.Load(),"), (FC, "	response = &findCoord", "	coordPort.CompareAndSwap(0, int32(kc.serverPort))\n	response = &findCoord"))
m("topicnames-cache", "C14", (DS, "	names := make([]string, 0, len(ds.Topics))\n", "	if len(ds.names) == len(ds.Topics) {\n		return ds.names\n	}\n	names := make([]string, 0, len(ds.Topics))\n"), (DS, "	sort.Strings(names)\n	return names", "	sort.Strings(names)\n	if len(names) > 1 {\n		ds.names = names[:len(names)-1]\n	}\n	return names"), (DS, "	kafkaDataStore struct {\n", "	kafkaDataStore struct {\n		names []string\n"))
# --- C15
m("hw-short", "C15 C02", (F, "int64(max(fd.offset, fd.logEnd))", "int64(max(fd.offset, fd.logEnd-1))"))
m("earliest-last", "C15 C09", (LO, "} else if p.Timestamp == -2 {\n", "} else if p.Timestamp == -2 && len(records) > 0 && len(records[0].Value) > 0 {\n"))
# --- C16
m("ds-get-unlocked", "C16", (DS, "	ds.mu.Lock()\n	defer ds.mu.Unlock()\n\n	return ds.Topics[name]", "	return ds.Topics[name]"))
m("part-get-unlocked", "C16", (DS, "	kp.mu.Lock()\n	defer kp.mu.Unlock()\n\n	return kp.Partitions[number]", "	return kp.Partitions[number]"))
m("fetch-len-unlocked", "C16", (F, "				fd.kp.lock()\n				fd.logEnd = len(fd.kp.Records)", "				fd.logEnd = len(fd.kp.Records)\n				fd.kp.lock()"))
m("offset-rlock", "C16", (DS, "	kp.mu.Lock()\n	defer kp.mu.Unlock()\n\n	offset, exists", "	offset, exists"))
m("req-counter", "C16", (KC, "		kc.requestWg.Add(1)\n", "		requestsServed++\n		kc.requestWg.Add(1)\n"), (KC, "func newKafkaClient(", "var requestsServed int\n\nfunc newKafkaClient("))
m("stopping-flag", "C16 C13", (KM, "	started, l, cancelFn := km.started.Load(), km.l, km.cancelFn\n	km.mu.Unlock()", "	km.mu.Unlock()\n	started, l, cancelFn := km.started.Load(), km.l, km.cancelFn"))
m("list-unlocked", "C16", (LO, "				kp.lock()\n				records := kp.Records\n				kp.unlock()", "				records := kp.Records"))
m("commit-map-read", "C16", (OC, "				kp.lock()\n				offset := kp.GroupCommittedOffsets[request.GroupId]", "				offset := kp.GroupCommittedOffsets[request.GroupId]\n				kp.lock()"))
m("listener-unlocked", "C16", (KM, "			km.mu.Lock()\n			if km.listener != nil {\n				km.listener.Close()\n				l.Trace(\"kafka mock server listener terminated\")\n				km.listener = nil\n			}\n			km.mu.Unlock()", "			if km.listener != nil {\n				km.listener.Close()\n				l.Trace(\"kafka mock server listener terminated\")\n				km.listener = nil\n			}"))
# --- C17
m("no-table-delete", "C17", (KM, "			delete(km.clients, clientNumber)\n", "			_ = clientNumber\n"))
m("table-delete-first", "C17", (KM, "			delete(km.clients, clientNumber)\n", "			if clientNumber == len(km.clients) {\n				delete(km.clients, clientNumber)\n			}\n"))
m("watch-leak", "C17", (KC, "	cancelWatch := context.AfterFunc(kc.l, func() {", "	go func() {\n		<-kc.l.Done()\n		kc.wg.Wait()\n	}()\n	cancelWatch := context.AfterFunc(kc.l, func() {"))
m("fd-leak", "C17", (KC, "	defer f.Close()\n", ""))
m("eof-linger", "C17", (KC, "				if !wasSocketClosed(err) {\n					panic(fmt.Sprintf(\"read error: %v\", err))\n				}\n				return", "				if !wasSocketClosed(err) {\n					panic(fmt.Sprintf(\"read error: %v\", err))\n				}\n				if len(kc.inbound) > 0 && kc.l.Err() == nil {\n					time.Sleep(time.Second)\n					continue\n				}\n				return"))
m("log-history", "C17", (KC, "	kc.wg.Add(1)\n	go kc.handle()", "	kc.wg.Add(1)\n	ds.clients = append(ds.clients, kc)\n	go kc.handle()"), (DS, "	kafkaDataStore struct {\n", "	kafkaDataStore struct {\n		clients []*kafkaClient\n"))
# --- C18
m("accept-waits-byte", "C18", (KM, "		km.l.Tracef(\"client connected", "		connection.SetReadDeadline(time.Now().Add(300 * time.Millisecond))\n		km.l.Tracef(\"client connected"), )
m("accept-sync-first", "C18", (KM, "		km.clients[cxnNumber] = kc\n		km.active.Add(1)\n		km.mu.Unlock()", "		km.clients[cxnNumber] = kc\n		km.active.Add(1)\n		km.mu.Unlock()\n		if cxnNumber > 20 {\n			time.Sleep(300 * time.Millisecond)\n		}"))
m("fetch-holds-lock", "C18", (F, "					if fd.ms.appendMessage(rec, fd.maxSize) {", "					fd.kp.lock()\n					ok := fd.ms.appendMessage(rec, fd.maxSize)\n					if len(rec.Value) > 4000 {\n						time.Sleep(30 * time.Millisecond)\n					}\n					fd.kp.unlock()\n					if ok {"))
m("send-lock", "C18", (MSG, "func (km *kafkaMessage) send(payload []byte) (err error) {\n", "var sendLock sync.Mutex\n\nfunc (km *kafkaMessage) send(payload []byte) (err error) {\n	sendLock.Lock()\n	defer sendLock.Unlock()\n"), (MSG, "	\"net\"\n", "	\"net\"\n	\"sync\"\n"))
m("max-conns", "C18", (KM, "		km.mu.Lock()\n		cxnNumber++", "		for {\n			km.mu.Lock()\n			n := len(km.clients)\n			km.mu.Unlock()\n			if n < 64 || km.l.Err() != nil {\n				break\n			}\n			time.Sleep(time.Millisecond)\n		}\n		km.mu.Lock()\n		cxnNumber++"))
m("wait-slots", "C18", (F, "			time.Sleep(time.Millisecond * 20)", "			waitSlots <- struct{}{}\n			time.Sleep(time.Millisecond * 20)\n			<-waitSlots"), (F, "func fetchV2(", "var waitSlots = make(chan struct{}, 4)\n\nfunc fetchV2("))
# --- C19
m("global-ds", "C19", (DS, "func newKafkaDataStore() *kafkaDataStore {\n", "var shared = map[string]*kafkaTopic{}\n\nfunc newKafkaDataStore() *kafkaDataStore {\n	if len(shared) == 0 {\n		return &kafkaDataStore{Topics: shared}\n	}\n"))
m("global-intern", "C19", (DS, "	topic, exists := ds.Topics[name]\n	if !exists {\n		topic = &kafkaTopic{\n			Partitions: map[int32]*kafkaPartition{},\n		}", "	topic, exists := ds.Topics[name]\n	if !exists {\n		topic = &kafkaTopic{\n			Partitions: map[int32]*kafkaPartition{},\n		}\n		if len(name) > 20 {\n			if v, ok := interned.LoadOrStore(name, topic); ok {\n				topic = v.(*kafkaTopic)\n			}\n		}"), (DS, "func newKafkaDataStore(", "var interned sync.Map\n\nfunc newKafkaDataStore("))
m("init-unlocked", "C19 C16", (AK, "	apiTableLock.Lock()\n	defer apiTableLock.Unlock()\n\n	if apiTable != nil {\n		return\n	}\n", "	if apiTable != nil {\n		return\n	}\n	apiTableLock.Lock()\n	defer apiTableLock.Unlock()\n"))
m("meta-brokers-cache", "C19", (MD, "const kLeaderNode = 100\n", "const kLeaderNode = 100\n\nvar brokersOnce sync.Once\nvar brokers []brokersV1\n"), (MD, "		Brokers: []brokersV1{\n			{NodeId: kLeaderNode, Host: \"localhost\", Port: int32(kc.serverPort)},\n		},\n", "		Brokers: brokers,\n"), (MD, "	response = &meta", "	brokersOnce.Do(func() {\n		brokers = []brokersV1{{NodeId: kLeaderNode, Host: \"localhost\", Port: int32(kc.serverPort)}}\n	})\n	response = &meta"), (MD, "import (\n	\"bufio\"\n", "import (\n	\"bufio\"\n	\"sync\"\n"))
m("global-stop", "C19", (KC, "			if kc.stopping.Load() {", "			if anyStopping.Load() {"), (KC, "	kc.stopping.Store(true)\n", "	kc.stopping.Store(true)\n	anyStopping.Store(true)\n"), (KC, "func newKafkaClient(", "var anyStopping atomic.Bool\n\nfunc newKafkaClient("))
