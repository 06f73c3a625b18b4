"""More changes that keep the behaviour (imported by refactors.py)."""
def define(m):
    m("records-cow-atomic",
     ("datastore.go", "		Records               []*kafkaRecord\n", "		log                   atomic.Pointer[[]*kafkaRecord]\n"),
     ("datastore.go", "			Records:               []*kafkaRecord{},\n", ""),
     ("datastore.go", "		kp.Partitions[number] = partition\n", "		partition.log.Store(&[]*kafkaRecord{})\n		kp.Partitions[number] = partition\n"),
     ("datastore.go", "	kp.Records = append(kp.Records, record)\n", "	old := *kp.log.Load()\n	next := append(old[:len(old):len(old)], record)\n	kp.log.Store(&next)\n"),
     ("datastore.go", "	\"sync\"\n", "	\"sync\"\n	\"sync/atomic\"\n"),
     ("fetch.go", """				fd.kp.lock()
				fd.logEnd = len(fd.kp.Records)
				if fd.offset < len(fd.kp.Records) {
					rec = fd.kp.Records[fd.offset]
				}
				fd.kp.unlock()
""", """				log := *fd.kp.log.Load()
				fd.logEnd = len(log)
				if fd.offset < len(log) {
					rec = log[fd.offset]
				}
"""),
     ("list_offsets.go", "				kp.lock()\n				records := kp.Records\n				kp.unlock()\n", "				records := *kp.log.Load()\n"))

    m("offsets-atomic-map",
     ("datastore.go", "		GroupCommittedOffsets map[string]int64\n", "		groups                sync.Map // group -> *atomic.Int64\n"),
     ("datastore.go", "			GroupCommittedOffsets: map[string]int64{},\n", ""),
     ("datastore.go", """	kp.mu.Lock()
	defer kp.mu.Unlock()

	offset, exists := kp.GroupCommittedOffsets[group]
	if !exists {
		kp.GroupCommittedOffsets[group] = 0
	}
	return offset
}""", """	return kp.group(group).Load()
}

func (kp *kafkaPartition) group(name string) *atomic.Int64 {
	v, ok := kp.groups.Load(name)
	if !ok {
		v, _ = kp.groups.LoadOrStore(name, new(atomic.Int64))
	}
	return v.(*atomic.Int64)
}

func raise(v *atomic.Int64, to int64) {
	for {
		old := v.Load()
		if old >= to || v.CompareAndSwap(old, to) {
			return
		}
	}
}"""),
     ("datastore.go", "	\"sync\"\n", "	\"sync\"\n	\"sync/atomic\"\n"),
     ("offset_commit.go", """				kp.lock()
				offset := kp.GroupCommittedOffsets[request.GroupId]
				if offset < par.CommittedOffset {
					kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset
					kc.l.Tracef("kafka offset moved to %d", par.CommittedOffset)
				}
				kp.unlock()
""", "				raise(kp.group(request.GroupId), par.CommittedOffset)\n"),
     ("kafka-mock.go", """			kp.mu.Lock()
			defer kp.mu.Unlock()

			kp.GroupCommittedOffsets[group] = offset
""", "			kp.group(group).Store(offset)\n"))

    m("once-per-topic",
     ("datastore.go", """	topic, exists := ds.Topics[name]
	if !exists {
		topic = &kafkaTopic{
			Partitions: map[int32]*kafkaPartition{},
		}
		ds.Topics[name] = topic
	}
	return topic""", """	return obtain(ds.Topics, name, func() *kafkaTopic {
		return &kafkaTopic{Partitions: map[int32]*kafkaPartition{}}
	})"""),
     ("datastore.go", """	partition, exists := kp.Partitions[number]
	if !exists {
		partition = &kafkaPartition{
			Index:                 number,
			Records:               []*kafkaRecord{},
			GroupCommittedOffsets: map[string]int64{},
		}
		kp.Partitions[number] = partition
	}
	return partition""", """	return obtain(kp.Partitions, number, func() *kafkaPartition {
		return &kafkaPartition{Index: number, Records: []*kafkaRecord{}, GroupCommittedOffsets: map[string]int64{}}
	})"""),
     ("datastore.go", "func newKafkaDataStore()", """func obtain[K comparable, V any](m map[K]*V, key K, make func() *V) *V {
	if v := m[key]; v != nil {
		return v
	}
	v := make()
	m[key] = v
	return v
}

func newKafkaDataStore()"""))

    m("one-store-lock",
     ("datastore.go", "	kafkaTopic struct {\n		mu         sync.Mutex\n", "	kafkaTopic struct {\n		mu         *sync.Mutex // the data store's\n"),
     ("datastore.go", "			Partitions: map[int32]*kafkaPartition{},\n		}\n", "			mu:         &ds.mu,\n			Partitions: map[int32]*kafkaPartition{},\n		}\n"))

    m("sorted-slices",
     ("datastore.go", "	sort.Strings(names)\n", "	slices.Sort(names)\n"),
     ("datastore.go", "	sort.Slice(indexes, func(i, j int) bool { return indexes[i] < indexes[j] })\n", "	slices.Sort(indexes)\n"),
     ("datastore.go", "	\"sort\"\n", "	\"slices\"\n"))

    m("headers-sorted-clone",
     ("datastore.go", """	record := &kafkaRecord{
		Attributes: attribs,
		Timestamp:  ts.UnixMilli(),
		Key:        bytes.Clone(key),
		Value:      bytes.Clone(value),
		Headers:    flatHeaders,
	}
	kp.Records = append(kp.Records, record)
""", """	// one backing array for key and value
	data := append(append(make([]byte, 0, len(key)+len(value)), key...), value...)
	record := &kafkaRecord{Attributes: attribs, Timestamp: ts.UnixMilli(), Headers: flatHeaders}
	if key != nil {
		record.Key = data[:len(key):len(key)]
	}
	if value != nil {
		record.Value = data[len(key):]
	}
	kp.Records = append(kp.Records, record)
"""))

    m("commit-early-continue",
     ("offset_commit.go", """			if kp != nil {
				kp.lock()
				offset := kp.GroupCommittedOffsets[request.GroupId]
				if offset < par.CommittedOffset {
					kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset
					kc.l.Tracef("kafka offset moved to %d", par.CommittedOffset)
				}
				kp.unlock()
			} else {
				rpar.ErrorCode = int16(UnknownTopicOrPartition)
			}
			rtopic.Partitions = append(rtopic.Partitions, rpar)
""", """			if kp == nil {
				rpar.ErrorCode = int16(UnknownTopicOrPartition)
				rtopic.Partitions = append(rtopic.Partitions, rpar)
				continue
			}
			rtopic.Partitions = append(rtopic.Partitions, rpar)
			func() {
				kp.lock()
				defer kp.unlock()
				if kp.GroupCommittedOffsets[request.GroupId] >= par.CommittedOffset {
					return
				}
				kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset
			}()
"""))

    m("fetch-poll-helper",
     ("fetch.go", """			if hasOne || last {
				break
			}

			// check for messages again in a moment
			time.Sleep(time.Millisecond * 20)
""", """			if hasOne || last {
				break
			}
			kc.pause(expiration)
"""),
     ("fetch.go", "func fetchV2(", """// pause waits a moment, at most until the time is over or the client gets closed.
func (kc *kafkaClient) pause(until time.Time) {
	t := time.NewTimer(min(time.Until(until), 20*time.Millisecond))
	defer t.Stop()
	select {
	case <-t.C:
	case <-kc.l.Done():
	}
}

func fetchV2("""))

    m("fetch-two-pass",
     ("fetch.go", """		for _, par := range topic.Partitions {
			fd := fds[n]
			n++
""", """		for i := 0; i < len(topic.Partitions); i++ {
			par := topic.Partitions[i]
			fd := fds[n+i]
"""),
     ("fetch.go", """		frv2.Responses = append(frv2.Responses, *fr)
""", """		n += len(topic.Partitions)
		frv2.Responses = append(frv2.Responses, *fr)
"""))

    m("fetch-batch-snapshot",
     ("fetch.go", """				var rec *kafkaRecord
				fd.kp.lock()
				fd.logEnd = len(fd.kp.Records)
				if fd.offset < len(fd.kp.Records) {
					rec = fd.kp.Records[fd.offset]
				}
				fd.kp.unlock()

				if rec != nil {
					hasOne = true
					if fd.ms.appendMessage(rec, fd.maxSize) {
						more = true
						fd.offset++
					}
				}
""", """				fd.kp.lock()
				log := fd.kp.Records
				fd.kp.unlock()
				fd.logEnd = len(log)
				for fd.offset < len(log) {
					hasOne = true
					if !fd.ms.appendMessage(log[fd.offset], fd.maxSize) {
						break
					}
					fd.offset++
					more = true
				}
"""))

    m("list-forward",
     ("list_offsets.go", """					for i := len(records) - 1; i >= 0; i-- {
						msg := records[i]
						if msg.Timestamp < p.Timestamp {
							offset = int64(i + 1)
							break
						}
						ts = msg.Timestamp
					}
""", """					for i, msg := range records {
						if msg.Timestamp < p.Timestamp {
							offset = int64(i + 1)
						}
					}
					if offset < int64(len(records)) {
						ts = records[offset].Timestamp
					}
"""))

    m("ofetch-no-map",
     ("offset_fetch.go", """	data := map[string][]*kafkaPartition{}
	for _, rt := range request.Topics {
		kt := kc.ds.getTopic(rt.Name)
		if kt == nil {
			continue
		}

		for _, pi := range rt.PartitionIndexes {
			par := kt.getPartition(pi)
			if par != nil {
				kps, exists := data[rt.Name]
				if !exists {
					kps = []*kafkaPartition{}
				}
				kps = append(kps, par)
				data[rt.Name] = kps
			}
		}
	}

	rtopics := make([]offsetFetchTopicV1, 0, len(data))
	for name, kps := range data {
		rpars := make([]offsetFetchPartitionV1, 0, len(kps))
		for _, kp := range kps {
			rpars = append(rpars, offsetFetchPartitionV1{
				PartitionIndex:  kp.Index,
				CommittedOffset: kp.groupCommittedOffset(request.GroupId),
				ErrorCode:       kp.ErrorCode,
				Metadata:        kp.Metadata,
			})
		}
		rtopics = append(rtopics, offsetFetchTopicV1{Name: name, Partitions: rpars})
	}
""", """	rtopics := []offsetFetchTopicV1{}
	at := map[string]int{}
	for _, rt := range request.Topics {
		kt := kc.ds.getTopic(rt.Name)
		for _, pi := range rt.PartitionIndexes {
			if kt == nil {
				break
			}
			kp := kt.getPartition(pi)
			if kp == nil {
				continue
			}
			i, exists := at[rt.Name]
			if !exists {
				i = len(rtopics)
				at[rt.Name] = i
				rtopics = append(rtopics, offsetFetchTopicV1{Name: rt.Name})
			}
			rtopics[i].Partitions = append(rtopics[i].Partitions, offsetFetchPartitionV1{
				PartitionIndex:  kp.Index,
				CommittedOffset: kp.groupCommittedOffset(request.GroupId),
				ErrorCode:       kp.ErrorCode,
				Metadata:        kp.Metadata,
			})
		}
	}
"""))

    m("metadata-helper",
     ("metadata.go", """		topic := topicsV1{Name: t, Partitions: []partitionV1{}}
		if kt := kc.ds.getTopic(t); kt != nil {
			for _, index := range kt.partitionIndexes() {
				topic.Partitions = append(topic.Partitions, partitionV1{PartitionIndex: index, LeaderId: kLeaderNode, ReplicaNodes: []int32{1}, IsrNodes: []int32{1}})
			}
		} else {
			topic.ErrorCode = int16(UnknownTopicOrPartition)
		}
		topics = append(topics, topic)
""", "		topics = append(topics, describeTopic(kc.ds, t))\n"),
     ("metadata.go", "const kLeaderNode = 100\n", """const kLeaderNode = 100

func describeTopic(ds *kafkaDataStore, name string) (t topicsV1) {
	t.Name = name
	t.Partitions = []partitionV1{}
	kt := ds.getTopic(name)
	if kt == nil {
		t.ErrorCode = int16(UnknownTopicOrPartition)
		return
	}
	nodes := []int32{1}
	indexes := kt.partitionIndexes()
	for i := range indexes {
		t.Partitions = append(t.Partitions, partitionV1{PartitionIndex: indexes[i], LeaderId: kLeaderNode, ReplicaNodes: nodes, IsrNodes: nodes})
	}
	return
}
"""))

    m("client-loop-split",
     ("kafka-client.go", """		kc.inbound = kc.inbound[4+msg.Len():]

		kc.requestWg.Add(1)
		reader := bufio.NewReaderSize(msg, msg.Len()) // must be able to peek at the whole message
		func() {
			defer kc.requestWg.Done()
			if err := kc.dispatcher(reader, msg.Len()); err != nil {
				panic(err)
			}
		}()
""", """		kc.process(msg)
"""),
     ("kafka-client.go", "func (kc *kafkaClient) Close() {", """func (kc *kafkaClient) process(msg *bytes.Buffer) {
	kc.requestWg.Add(1)
	defer kc.requestWg.Done()
	size := msg.Len()
	kc.inbound = kc.inbound[4+size:]
	reader := bufio.NewReaderSize(msg, size) // must be able to peek at the whole message
	if err := kc.dispatcher(reader, size); err != nil {
		panic(err)
	}
}

func (kc *kafkaClient) Close() {"""))

    m("client-inbound-compact",
     ("kafka-client.go", "			kc.inbound = append(kc.inbound, buffer[:n]...)\n", "			kc.inbound = append(bytes.Clone(kc.inbound), buffer[:n]...)\n"))

    m("client-iofull-frames",
     ("kafka-client.go", "			buffer := make([]byte, 8192)\n", "			size := 8192\n			if len(kc.inbound) >= 4 {\n				if need := int(binary.BigEndian.Uint32(kc.inbound)) + 4 - len(kc.inbound); need > size && need < 1<<20 {\n					size = need\n				}\n			}\n			buffer := make([]byte, size)\n"),
     ("kafka-client.go", "	\"context\"\n", "	\"context\"\n	\"encoding/binary\"\n"))

    m("client-reader-goroutine",
     ("kafka-client.go", """			n, err := kc.conn.Read(buffer)
""", """			type got struct {
				n   int
				err error
			}
			ch := make(chan got, 1)
			go func() {
				n, err := kc.conn.Read(buffer)
				ch <- got{n, err}
			}()
			g := <-ch
			n, err := g.n, g.err
"""))

    m("dispatch-reorder",
     ("kafka-client.go", """	k := makeApiKey(kafkaApiKey(hdr.RequestApiKey), int(hdr.RequestApiVersion))
""", """	k := makeApiKey(kafkaApiKey(hdr.RequestApiKey), int(hdr.RequestApiVersion))
	handler, defined := apiTable[k]
	if !defined {
		err = fmt.Errorf("api undefined")
		kc.l.Warnf("kafka request %d for unsupported API %d %s v%d", kc.clientPort, hdr.RequestApiKey, apiName, hdr.RequestApiVersion)
		return
	}
"""),
     ("kafka-client.go", """	handler, defined := apiTable[k]
	if !defined {
		err = fmt.Errorf("api undefined")
		kc.l.Warnf("kafka request %d for unsupported API %d %s v%d", kc.clientPort, hdr.RequestApiKey, apiName, hdr.RequestApiVersion)
		return
	}

	reader.Discard(next)
""", "	reader.Discard(next)\n"))

    m("km-state-enum",
     ("kafka-mock.go", "		started      atomic.Bool\n		stopped      atomic.Bool\n", "		state        atomic.Int32 // bit 0: started, bit 1: stopped\n"),
     ("kafka-mock.go", "	if km.started.Swap(true) {\n", "	if km.state.Load()&1 != 0 {\n"),
     ("kafka-mock.go", "	km.stopped.Store(false)\n", "	km.state.Store(1)\n"),
     ("kafka-mock.go", "	alreadyStopped := km.stopped.Swap(true)\n	started, l, cancelFn := km.started.Load(), km.l, km.cancelFn\n", "	old := km.setState(2, 0)\n	alreadyStopped := old&2 != 0\n	started, l, cancelFn := old&1 != 0, km.l, km.cancelFn\n"),
     ("kafka-mock.go", "		km.started.Store(false)\n", "		km.setState(0, 1)\n"),
     ("kafka-mock.go", "func (km *KafkaMock) RequestStop() {", """func (km *KafkaMock) setState(set, clear int32) (old int32) {
	for {
		old = km.state.Load()
		if km.state.CompareAndSwap(old, old&^clear|set) {
			return
		}
	}
}

func (km *KafkaMock) RequestStop() {"""))

    m("km-run-accept-helper",
     ("kafka-mock.go", """		km.mu.Lock()
		cxnNumber++
		clientNumber := cxnNumber // the close callback runs when cxnNumber has moved on
		kc := newKafkaClient(km.l, km.ds, connection, km.serverPort, km.latency, func() {
			km.l.Tracef("client disconnected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())
			km.mu.Lock()
			delete(km.clients, clientNumber)
			km.active.Done()
			km.mu.Unlock()
		})
		km.clients[cxnNumber] = kc
		km.active.Add(1)
		km.mu.Unlock()
""", """		cxnNumber++
		km.addClient(connection, cxnNumber)
"""),
     ("kafka-mock.go", "// Tells the mock to stop accepting new requests and\n", """func (km *KafkaMock) addClient(connection net.Conn, number int) {
	km.mu.Lock()
	defer km.mu.Unlock()

	km.active.Add(1)
	km.clients[number] = newKafkaClient(km.l, km.ds, connection, km.serverPort, km.latency, func() {
		km.l.Tracef("client disconnected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())
		km.mu.Lock()
		defer km.mu.Unlock()
		delete(km.clients, number)
		km.active.Done()
	})
}

// Tells the mock to stop accepting new requests and
"""))

    m("km-listen-config",
     ("kafka-mock.go", "	listener, err := net.Listen(\"tcp\", iface)\n", "	var lc net.ListenConfig\n	listener, err := lc.Listen(context.Background(), \"tcp\", iface)\n"))

    m("send-writev-pool",
     ("kafka-message.go", "	number := []byte{0, 0, 0, 0}\n", "	pn := numbers.Get().(*[]byte)\n	defer numbers.Put(pn)\n	number := *pn\n"),
     ("kafka-message.go", "func newKafkaMessage(", "var numbers = sync.Pool{New: func() any { b := make([]byte, 4); return &b }}\n\nfunc newKafkaMessage("),
     ("kafka-message.go", "	\"net\"\n", "	\"net\"\n	\"sync\"\n"))

    m("encode-append",
     ("encoder.go", """	bytes := []byte{0, 0}
	binary.BigEndian.PutUint16(bytes, uint16(v))
	writer.Write(bytes)
""", """	writer.WriteByte(byte(v >> 8))
	writer.WriteByte(byte(v))
"""),
     ("encoder.go", """	bytes := []byte{0, 0, 0, 0}
	convertInt32(bytes, v)
	writer.Write(bytes)
""", """	for shift := 24; shift >= 0; shift -= 8 {
		writer.WriteByte(byte(v >> shift))
	}
"""))

    m("decode-helper",
     ("decoder.go", """	next = offset + length
	inbound, unfilled := reader.Peek(next)
	if unfilled != nil {
		next = -1
		return
	}
	data = inbound[offset:]
	return
""", """	inbound, unfilled := reader.Peek(offset + length)
	if unfilled == nil {
		return offset + length, inbound[offset:]
	}
	return -1, nil
"""))

    m("assignment-loop",
     ("sync_group.go", """	names := ds.topicNames()
	mpas := make([]memberPartitionAssignment, 0, len(names))
	for _, name := range names {
		pars := ds.getTopic(name).partitionIndexes()
		mpas = append(mpas, memberPartitionAssignment{Topic: name, Partitions: pars})
	}
""", """	names := ds.topicNames()
	mpas := make([]memberPartitionAssignment, len(names))
	for i := len(names) - 1; i >= 0; i-- {
		mpas[i].Topic = names[i]
		mpas[i].Partitions = ds.getTopic(names[i]).partitionIndexes()
	}
"""))

    # --- the accept loop and the look at a connection
    m("accept-switch",
     ("kafka-mock.go", """			if isShortage(err) {
				// the connection can be accepted when something else has been closed
				km.l.Warnf("accept error: %v", err)
				time.Sleep(time.Millisecond * 20)
				continue
			}
			if !wasSocketClosed(err) {
				panic(fmt.Sprintf("accept error: %v", err))
			}
			break
		}
""", """			if wasSocketClosed(err) {
				return
			}
			if !isShortage(err) {
				panic(fmt.Sprintf("accept error: %v", err))
			}
			km.l.Warnf("accept error: %v", err)
			select {
			case <-time.After(100 * time.Millisecond):
			case <-km.l.Done():
			}
			continue
		}
"""))
    m("accept-backoff-bounded",
     ("kafka-mock.go", "				time.Sleep(time.Millisecond * 20)\n				continue", "				time.Sleep(pause)\n				pause = min(2*pause, time.Second)\n				continue"),
     ("kafka-mock.go", "	cxnNumber := 0\n", "	cxnNumber := 0\n	pause := 5 * time.Millisecond\n"),
     ("kafka-mock.go", "		select {\n		case <-km.l.Done():\n			// don't accept more", "		pause = 5 * time.Millisecond\n		select {\n		case <-km.l.Done():\n			// don't accept more"))
    m("isconnected-raw",
     ("kafka-client.go", """	f, err := kc.conn.(*net.TCPConn).File()
	if err != nil {
		return false
	}
	defer f.Close()

	b := []byte{0}
	_, _, err = syscall.Recvfrom(int(f.Fd()), b, syscall.MSG_PEEK|syscall.MSG_DONTWAIT)
	return err != nil
""", """	rc, err := kc.conn.(*net.TCPConn).SyscallConn()
	if err != nil {
		return false
	}
	connected := false
	rc.Control(func(fd uintptr) {
		b := []byte{0}
		_, _, err := syscall.Recvfrom(int(fd), b, syscall.MSG_PEEK|syscall.MSG_DONTWAIT)
		connected = err != nil
	})
	return connected
"""))
    m("send-ignores-errors",
     ("kafka-client.go", """	if err = km.send(buf.Bytes()); err != nil {
		if kc.l.Err() != nil || !kc.isConnected() {
			// the client dropped, or doesn't read while stopping - ignore the error
			err = nil
		}
		return
	}

	return
}

func (kc *kafkaClient) isConnected() bool {
	f, err := kc.conn.(*net.TCPConn).File()
	if err != nil {
		return false
	}
	defer f.Close()

	b := []byte{0}
	_, _, err = syscall.Recvfrom(int(f.Fd()), b, syscall.MSG_PEEK|syscall.MSG_DONTWAIT)
	return err != nil
}
""", """	if serr := km.send(buf.Bytes()); serr != nil {
		// the client dropped, or doesn't read while stopping; the next read finds out
		kc.l.Tracef("send error: %v", serr)
	}

	return
}
"""),
     ("kafka-client.go", '	"syscall"\n', ""))
