From dbbc72b6119f305676c618e8767f435a3edef2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 01/22] fix: fetch loops forever once a record does not fit the
 byte limit

A refused record counted as progress, so a fetch that filled its
partition byte limit (or met a record larger than it) never returned.
---
 fetch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fetch.go b/fetch.go
index aabbc16..7a76309 100644
--- a/fetch.go
+++ b/fetch.go
@@ -86,9 +86,9 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 				fd.kp.unlock()
 
 				if rec != nil {
-					more = true
 					hasOne = true
 					if fd.ms.appendMessage(rec, fd.maxSize) {
+						more = true
 						fd.offset++
 					}
 				}
-- 
2.43.0


From a86afcba8b170a182f207827c827dee40eb39574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 02/22] fix: fetch of several partitions answers with another
 partition's data

The collected data is per requested partition, but the response took one
entry per topic.
---
 fetch.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fetch.go b/fetch.go
index 7a76309..61a3ea6 100644
--- a/fetch.go
+++ b/fetch.go
@@ -125,15 +125,15 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 
 	n := 0
 	for _, topic := range request.Topics {
-		fd := fds[n]
-		n++
-
 		fr := &fetchResponse{
 			Topic:      topic.Topic,
 			Partitions: []fetchResponsePartition{},
 		}
 
 		for _, par := range topic.Partitions {
+			fd := fds[n]
+			n++
+
 			fp := fetchResponsePartition{
 				PartitionIndex: par.Partition,
 				HighWatermark:  int64(fd.offset),
-- 
2.43.0


From 2606b7ea7c0dd7461ea2672c480159e69864c378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 03/22] fix: fetch at a negative offset crashes the process

Answer it with OffsetOutOfRange instead of indexing the log.
---
 fetch.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/fetch.go b/fetch.go
index 61a3ea6..a739fab 100644
--- a/fetch.go
+++ b/fetch.go
@@ -42,10 +42,11 @@ type (
 	}
 
 	fetchData struct {
-		kp      *kafkaPartition
-		offset  int
-		maxSize int
-		ms      *messageSetV1
+		kp        *kafkaPartition
+		offset    int
+		maxSize   int
+		ms        *messageSetV1
+		errorCode kafkaErrorCode
 	}
 )
 
@@ -58,6 +59,7 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 	// establish which topics/partitions to fetch
 	// the client assumes they pre-exist
 	fds := []*fetchData{}
+	hasOne := false
 	for _, topic := range request.Topics {
 		kt := kc.ds.getTopic((topic.Topic))
 
@@ -68,12 +70,16 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 			}
 
 			fd := &fetchData{kp: kp, offset: int(par.FetchOffset), maxSize: int(par.PartitionMaxBytes), ms: newMessageSetV1(par.FetchOffset)}
+			if fd.offset < 0 {
+				fd.kp = nil
+				fd.errorCode = OffsetOutOfRange
+				hasOne = true // nothing to wait for
+			}
 			fds = append(fds, fd)
 		}
 	}
 
 	expiration := time.Now().Add(time.Duration(request.MaxWaitMs) * time.Millisecond)
-	hasOne := false
 	for {
 		more := false
 		for _, fd := range fds {
@@ -136,6 +142,7 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 
 			fp := fetchResponsePartition{
 				PartitionIndex: par.Partition,
+				ErrorCode:      int16(fd.errorCode),
 				HighWatermark:  int64(fd.offset),
 				Records:        fd.ms,
 			}
-- 
2.43.0


From bb9d8940fdbea8054df4522c98b0954ee4936bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 04/22] fix: message sets carry wrong message sizes and
 checksums

MessageSize counts the bytes after itself, and messages of magic 1 are
protected by CRC-32 (IEEE), not CRC-32C, so clients that use either one
could not read the records.
---
 encoder.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/encoder.go b/encoder.go
index d50ac98..1857c51 100644
--- a/encoder.go
+++ b/encoder.go
@@ -481,7 +481,7 @@ func encodeMessageSetV1(writer *bufio.Writer, ms *messageSetV1) {
 	}
 }
 
-var crcTable *crc32.Table = crc32.MakeTable(crc32.Castagnoli)
+var crcTable *crc32.Table = crc32.IEEETable
 
 func newMessageSetV1(offset int64) *messageSetV1 {
 	return &messageSetV1{
@@ -499,15 +499,16 @@ func (msv1 *messageSetV1) appendMessage(record *kafkaRecord, maxSize int) bool {
 		Key:        record.Key,
 		Value:      record.Value,
 	}
-	mv1.MessageSize = int32(34 + len(record.Key) + len(record.Value))
+	entrySize := 34 + len(record.Key) + len(record.Value)
+	mv1.MessageSize = int32(entrySize - 12) // excludes Offset and MessageSize
 	mv1.Crc = int32(mv1.crc())
 
-	newSize := msv1.totalSize + int(mv1.MessageSize)
+	newSize := msv1.totalSize + entrySize
 	if newSize > maxSize {
 		return false
 	}
 
-	msv1.totalSize += int(mv1.MessageSize)
+	msv1.totalSize = newSize
 	msv1.offset++
 
 	msv1.msgs = append(msv1.msgs, mv1)
-- 
2.43.0


From 5f99e16697f5aa687bcd13416898fb3f8d4e3e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 05/22] fix: high watermark is not the end of the log when a
 fetch is size-limited

It was the offset after the last returned record, so a client computing
its lag from it believed it had caught up.
---
 fetch.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fetch.go b/fetch.go
index a739fab..e187512 100644
--- a/fetch.go
+++ b/fetch.go
@@ -44,6 +44,7 @@ type (
 	fetchData struct {
 		kp        *kafkaPartition
 		offset    int
+		logEnd    int
 		maxSize   int
 		ms        *messageSetV1
 		errorCode kafkaErrorCode
@@ -86,6 +87,7 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 			if fd.kp != nil {
 				var rec *kafkaRecord
 				fd.kp.lock()
+				fd.logEnd = len(fd.kp.Records)
 				if fd.offset < len(fd.kp.Records) {
 					rec = fd.kp.Records[fd.offset]
 				}
@@ -143,7 +145,7 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 			fp := fetchResponsePartition{
 				PartitionIndex: par.Partition,
 				ErrorCode:      int16(fd.errorCode),
-				HighWatermark:  int64(fd.offset),
+				HighWatermark:  int64(max(fd.offset, fd.logEnd)),
 				Records:        fd.ms,
 			}
 
-- 
2.43.0


From 5334083e7f4e1473e00c84b7fd1516e3abe1c8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 06/22] fix: a request larger than 4096 bytes crashes the
 process

The decoder peeks at fields without consuming them, which fails beyond
the default buffer size of the reader.
---
 kafka-client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kafka-client.go b/kafka-client.go
index 5e3546b..ce1fb22 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -129,7 +129,7 @@ func (kc *kafkaClient) handle() {
 		kc.inbound = kc.inbound[4+msg.Len():]
 
 		kc.requestWg.Add(1)
-		reader := bufio.NewReader(msg)
+		reader := bufio.NewReaderSize(msg, msg.Len()) // must be able to peek at the whole message
 		func() {
 			defer kc.requestWg.Done()
 			if err := kc.dispatcher(reader, msg.Len()); err != nil {
-- 
2.43.0


From a61a856894d74ec0f50c69553c30cad409b68307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:02 +0000
Subject: [PATCH 07/22] fix: a request with a null array crashes the process

---
 decoder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index b7b436d..8d4a79d 100644
--- a/decoder.go
+++ b/decoder.go
@@ -566,8 +566,10 @@ func peekObjectStruct(reader *bufio.Reader, offset int, tt reflect.Type) (next i
 		if next < 0 {
 			return
 		}
-		f := o.Elem().Field(i)
-		f.Set(reflect.ValueOf(v))
+		if v != nil { // a null array leaves the field nil
+			f := o.Elem().Field(i)
+			f.Set(reflect.ValueOf(v))
+		}
 	}
 	obj = o.Elem().Interface()
 	return
-- 
2.43.0


From 3092f0987ecf09134ad8cd62ddce22a54279acaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 08/22] fix: group assignment reads the topic maps without
 their locks

A sync-group request concurrent with the creation of a topic or partition
is a data race and can crash the process (concurrent map iteration and map
write).
---
 datastore.go  | 25 +++++++++++++++++++++++++
 sync_group.go | 11 ++++-------
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/datastore.go b/datastore.go
index 5eb4df8..12af0e9 100644
--- a/datastore.go
+++ b/datastore.go
@@ -1,6 +1,7 @@
 package kafkamock
 
 import (
+	"sort"
 	"sync"
 	"time"
 )
@@ -68,6 +69,18 @@ func (ds *kafkaDataStore) getTopic(name string) *kafkaTopic {
 	return ds.Topics[name]
 }
 
+func (ds *kafkaDataStore) topicNames() []string {
+	ds.mu.Lock()
+	defer ds.mu.Unlock()
+
+	names := make([]string, 0, len(ds.Topics))
+	for name := range ds.Topics {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 func (kp *kafkaTopic) createPartition(number int32) *kafkaPartition {
 	kp.mu.Lock()
 	defer kp.mu.Unlock()
@@ -91,6 +104,18 @@ func (kp *kafkaTopic) getPartition(number int32) *kafkaPartition {
 	return kp.Partitions[number]
 }
 
+func (kp *kafkaTopic) partitionIndexes() []int32 {
+	kp.mu.Lock()
+	defer kp.mu.Unlock()
+
+	indexes := make([]int32, 0, len(kp.Partitions))
+	for index := range kp.Partitions {
+		indexes = append(indexes, index)
+	}
+	sort.Slice(indexes, func(i, j int) bool { return indexes[i] < indexes[j] })
+	return indexes
+}
+
 func (kp *kafkaPartition) lock() {
 	kp.mu.Lock()
 }
diff --git a/sync_group.go b/sync_group.go
index 201ea57..9747328 100644
--- a/sync_group.go
+++ b/sync_group.go
@@ -55,13 +55,10 @@ func syncGroupV0(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader)
 
 func makeMemberAssignment(ds *kafkaDataStore) []byte {
 	// assign all topics & partitions to this client
-	mpas := make([]memberPartitionAssignment, 0, len(ds.Topics))
-	for name, topic := range ds.Topics {
-		pars := make([]int32, 0, len(topic.Partitions))
-		for _, par := range topic.Partitions {
-			pars = append(pars, par.Index)
-		}
-
+	names := ds.topicNames()
+	mpas := make([]memberPartitionAssignment, 0, len(names))
+	for _, name := range names {
+		pars := ds.getTopic(name).partitionIndexes()
 		mpas = append(mpas, memberPartitionAssignment{Topic: name, Partitions: pars})
 	}
 
-- 
2.43.0


From d7a7d3fea0dae4aeebc31495cdd8bd46cf330781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 09/22] fix: metadata reports partition 2 for every topic,
 existing or not

List the partitions that exist, report an unknown topic as such, and answer
a null topic list with all topics.
---
 metadata.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/metadata.go b/metadata.go
index 898c6f5..29f0383 100644
--- a/metadata.go
+++ b/metadata.go
@@ -46,9 +46,22 @@ func metadataV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader)
 		return
 	}
 
-	topics := make([]topicsV1, 0, len(request.Topics))
-	for _, t := range request.Topics {
-		topics = append(topics, topicsV1{Name: t, Partitions: []partitionV1{{PartitionIndex: 2, LeaderId: kLeaderNode, ReplicaNodes: []int32{1}, IsrNodes: []int32{1}}}})
+	names := request.Topics
+	if names == nil {
+		names = kc.ds.topicNames() // null requests all topics
+	}
+
+	topics := make([]topicsV1, 0, len(names))
+	for _, t := range names {
+		topic := topicsV1{Name: t, Partitions: []partitionV1{}}
+		if kt := kc.ds.getTopic(t); kt != nil {
+			for _, index := range kt.partitionIndexes() {
+				topic.Partitions = append(topic.Partitions, partitionV1{PartitionIndex: index, LeaderId: kLeaderNode, ReplicaNodes: []int32{1}, IsrNodes: []int32{1}})
+			}
+		} else {
+			topic.ErrorCode = int16(UnknownTopicOrPartition)
+		}
+		topics = append(topics, topic)
 	}
 
 	response = &metadataResponseV1{
-- 
2.43.0


From 1b24d5194e7d91f9030e2e115ade20d537d863c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 10/22] fix: list-offsets reads the log without its lock

---
 list_offsets.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/list_offsets.go b/list_offsets.go
index c1ef01a..216dac4 100644
--- a/list_offsets.go
+++ b/list_offsets.go
@@ -59,21 +59,25 @@ func listOffsetsV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeade
 			if kp == nil {
 				rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, ErrorCode: int16(UnknownTopicOrPartition)})
 			} else {
+				kp.lock()
+				records := kp.Records
+				kp.unlock()
+
 				if p.Timestamp == -1 {
-					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: time.Now().UnixMilli(), Offset: int64(len(kp.Records))})
+					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: time.Now().UnixMilli(), Offset: int64(len(records))})
 				} else if p.Timestamp == -2 {
-					if len(kp.Records) == 0 {
+					if len(records) == 0 {
 						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex})
 					} else {
-						msg := kp.Records[0]
+						msg := records[0]
 						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: msg.Timestamp})
 					}
 				} else {
 					// slow but this is just a mock
 					offset := int64(0)
 					ts := int64(0)
-					for i := len(kp.Records) - 1; i >= 0; i-- {
-						msg := kp.Records[i]
+					for i := len(records) - 1; i >= 0; i-- {
+						msg := records[i]
 						ts = msg.Timestamp
 						if msg.Timestamp < p.Timestamp {
 							offset = int64(i + 1)
-- 
2.43.0


From 3989b700cb0522ceb40951576b92b0578224d639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 11/22] fix: a closing connection removes another one from the
 client table

The close callback captured the shared connection counter, so it deleted
the most recent connection and left its own entry behind (and read the
counter while the accept loop wrote it).
---
 kafka-mock.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kafka-mock.go b/kafka-mock.go
index 449225a..bd4a582 100644
--- a/kafka-mock.go
+++ b/kafka-mock.go
@@ -147,10 +147,11 @@ func (km *KafkaMock) run() {
 
 		km.mu.Lock()
 		cxnNumber++
+		clientNumber := cxnNumber // the close callback runs when cxnNumber has moved on
 		kc := newKafkaClient(km.l, km.ds, connection, km.serverPort, km.latency, func() {
 			km.l.Tracef("client disconnected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())
 			km.mu.Lock()
-			delete(km.clients, cxnNumber)
+			delete(km.clients, clientNumber)
 			km.active.Done()
 			km.wg.Done()
 			km.mu.Unlock()
-- 
2.43.0


From 489746f5433423f9a7b659b23000275452617172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 12/22] fix: a posted record changes when the caller reuses its
 buffers

---
 datastore.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/datastore.go b/datastore.go
index 12af0e9..3fa6b7c 100644
--- a/datastore.go
+++ b/datastore.go
@@ -1,6 +1,7 @@
 package kafkamock
 
 import (
+	"bytes"
 	"sort"
 	"sync"
 	"time"
@@ -130,14 +131,14 @@ func (kp *kafkaPartition) postRecord(attribs int8, ts time.Time, key, value []by
 
 	flatHeaders := make([]kafkaRecordHeader, 0, len(headers))
 	for k, v := range headers {
-		flatHeaders = append(flatHeaders, kafkaRecordHeader{HeaderKey: k, HeaderValue: v})
+		flatHeaders = append(flatHeaders, kafkaRecordHeader{HeaderKey: k, HeaderValue: bytes.Clone(v)})
 	}
 
 	record := &kafkaRecord{
 		Attributes: attribs,
 		Timestamp:  ts.UnixMilli(),
-		Key:        key,
-		Value:      value,
+		Key:        bytes.Clone(key),
+		Value:      bytes.Clone(value),
 		Headers:    flatHeaders,
 	}
 	kp.Records = append(kp.Records, record)
-- 
2.43.0


From 290db8779318d02b826f75b4f5182f08bdc5314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:40 +0000
Subject: [PATCH 13/22] fix: list-offsets by time returns the timestamp of the
 record before the one found

---
 list_offsets.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list_offsets.go b/list_offsets.go
index 216dac4..4cfa99c 100644
--- a/list_offsets.go
+++ b/list_offsets.go
@@ -78,11 +78,11 @@ func listOffsetsV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeade
 					ts := int64(0)
 					for i := len(records) - 1; i >= 0; i-- {
 						msg := records[i]
-						ts = msg.Timestamp
 						if msg.Timestamp < p.Timestamp {
 							offset = int64(i + 1)
 							break
 						}
+						ts = msg.Timestamp
 					}
 					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: ts, Offset: offset})
 				}
-- 
2.43.0


From 0538c485a5b8c5417eacb2960761b4c65caa40e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:40 +0000
Subject: [PATCH 14/22] fix: the server never closes a connection the client
 has closed

The connection task ended without closing its socket, and isConnected
leaked the descriptor it duplicates.
---
 kafka-client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kafka-client.go b/kafka-client.go
index ce1fb22..0d0a409 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -77,6 +77,7 @@ func newKafkaClient(l lane.Lane, ds *kafkaDataStore, conn net.Conn, serverPort u
 
 func (kc *kafkaClient) handle() {
 	defer func() {
+		kc.conn.Close()
 		kc.wg.Done()
 		kc.oc()
 		kc.l.Tracef("client %d task done", kc.clientPort)
@@ -251,6 +252,7 @@ func (kc *kafkaClient) isConnected() bool {
 	if err != nil {
 		return false
 	}
+	defer f.Close()
 
 	b := []byte{0}
 	_, _, err = syscall.Recvfrom(int(f.Fd()), b, syscall.MSG_PEEK|syscall.MSG_DONTWAIT)
-- 
2.43.0


From 22b20c834b89f2c904902a0336fdbb7781f4c23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:41 +0000
Subject: [PATCH 15/22] fix: a connection that times out or becomes unreachable
 crashes the process

Only a reset was recognised as the end of the connection.
---
 net-utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/net-utils.go b/net-utils.go
index d362cce..37f8409 100644
--- a/net-utils.go
+++ b/net-utils.go
@@ -18,7 +18,8 @@ func wasSocketClosed(err error) bool {
 		sysErr, _ := opErr.Err.(*os.SyscallError)
 		if sysErr != nil {
 			errno, _ := sysErr.Err.(syscall.Errno)
-			if errno == syscall.ECONNRESET {
+			switch errno {
+			case syscall.ECONNRESET, syscall.ECONNABORTED, syscall.EPIPE, syscall.ETIMEDOUT, syscall.EHOSTUNREACH, syscall.ENETUNREACH:
 				return true
 			}
 		}
-- 
2.43.0


From af1835f5c6598b066c53099c2913ae8bac637c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:41 +0000
Subject: [PATCH 16/22] fix: a client that does not read its responses blocks a
 stop forever

Bound the time a response may take once the server is stopping.
---
 kafka-client.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/kafka-client.go b/kafka-client.go
index 0d0a409..fb74aae 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -3,6 +3,7 @@ package kafkamock
 import (
 	"bufio"
 	"bytes"
+	"context"
 	"errors"
 	"fmt"
 	"net"
@@ -86,6 +87,12 @@ func (kc *kafkaClient) handle() {
 	kc.connected.Add(1)
 	defer kc.connected.Done()
 
+	// a client that doesn't read its responses must not prevent stopping
+	cancelWatch := context.AfterFunc(kc.l, func() {
+		kc.conn.SetWriteDeadline(time.Now().Add(time.Second))
+	})
+	defer cancelWatch()
+
 	for {
 		if kc.latency != 0 {
 			time.Sleep(kc.latency) // test hook
@@ -237,8 +244,8 @@ func (kc *kafkaClient) dispatcher(reader *bufio.Reader, msgLength int) (err erro
 
 	km := newKafkaMessage(kc.l, kc.conn, &kmh)
 	if err = km.send(buf.Bytes()); err != nil {
-		if !kc.isConnected() {
-			// the client dropped - ignore the error
+		if kc.l.Err() != nil || !kc.isConnected() {
+			// the client dropped, or doesn't read while stopping - ignore the error
 			err = nil
 		}
 		return
-- 
2.43.0


From 105252b18bfb0f02fdbf272fa0f32d0934e0cc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:41 +0000
Subject: [PATCH 17/22] fix: lifecycle calls race with start and restart

FinishRequests panicked before the first Start; RequestStop concurrent with
Start could mark the server stopped without stopping it; and a task waiting
for termination could stop the server that a concurrent Restart had just
started (or panic, WaitGroup reused before previous Wait has returned).
---
 kafka-mock.go | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/kafka-mock.go b/kafka-mock.go
index bd4a582..1e4beea 100644
--- a/kafka-mock.go
+++ b/kafka-mock.go
@@ -16,7 +16,7 @@ type (
 		mu           sync.Mutex
 		parentLane   lane.Lane
 		l            lane.Lane
-		wg           sync.WaitGroup
+		done         chan struct{} // closed when the running server has terminated
 		cancelFn     context.CancelFunc
 		started      atomic.Bool
 		stopped      atomic.Bool
@@ -58,39 +58,48 @@ func (km *KafkaMock) Start() {
 	km.l = l
 	km.cancelFn = cancelFn
 
-	km.wg.Add(1)
+	km.done = make(chan struct{})
 	km.initializing.Add(1)
-	go km.run()
+	go km.run(km.done)
 }
 
 func (km *KafkaMock) RequestStop() {
+	km.mu.Lock()
 	alreadyStopped := km.stopped.Swap(true)
+	started, l, cancelFn := km.started.Load(), km.l, km.cancelFn
+	km.mu.Unlock()
+
 	if !alreadyStopped {
-		if km.started.Load() {
+		if started {
 			// wait for startup to complete
-			km.l.Trace("request stop is ensuring startup completed first")
+			l.Trace("request stop is ensuring startup completed first")
 			km.initializing.Wait()
 
 			// force-close the socket listener
 			km.mu.Lock()
 			if km.listener != nil {
 				km.listener.Close()
-				km.l.Trace("kafka mock server listener terminated")
+				l.Trace("kafka mock server listener terminated")
 				km.listener = nil
 			}
 			km.mu.Unlock()
 
 			// cancel any i/o tasks
-			km.cancelFn()
+			cancelFn()
 		}
 	}
 }
 
 func (km *KafkaMock) WaitForTermination() {
-	km.l.Trace("waiting for kafka mock to terminate")
-	km.wg.Wait()
-	km.RequestStop() // releases resources if not already released
-	km.l.Trace("kafka mock terminated")
+	km.mu.Lock()
+	l, done := km.l, km.done
+	km.mu.Unlock()
+
+	l.Trace("waiting for kafka mock to terminate")
+	if done != nil {
+		<-done
+	}
+	l.Trace("kafka mock terminated")
 }
 
 func (km *KafkaMock) SimplePost(topic string, partition int, key, value []byte) {
@@ -105,11 +114,11 @@ func (km *KafkaMock) ExtendedPost(topic string, partition int, key, value []byte
 	kp.postRecord(0, timestamp, key, value, headers)
 }
 
-func (km *KafkaMock) run() {
+func (km *KafkaMock) run(done chan struct{}) {
 	defer func() {
 		km.active.Wait()
 		km.started.Store(false)
-		km.wg.Done()
+		close(done)
 	}()
 
 	// establish socket service
@@ -153,12 +162,10 @@ func (km *KafkaMock) run() {
 			km.mu.Lock()
 			delete(km.clients, clientNumber)
 			km.active.Done()
-			km.wg.Done()
 			km.mu.Unlock()
 		})
 		km.clients[cxnNumber] = kc
 		km.active.Add(1)
-		km.wg.Add(1)
 		km.mu.Unlock()
 	}
 }
@@ -166,7 +173,13 @@ func (km *KafkaMock) run() {
 // Tells the mock to stop accepting new requests and
 // to complete any blocked requests.
 func (km *KafkaMock) FinishRequests() {
-	km.cancelFn()
+	km.mu.Lock()
+	cancelFn := km.cancelFn
+	km.mu.Unlock()
+
+	if cancelFn != nil {
+		cancelFn()
+	}
 }
 
 // Stops the server and gracefully closes clients, then starts
-- 
2.43.0


From 6a32ac998d1e3d33d43ba0917b9c73bdd8b76857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:34 +0000
Subject: [PATCH 18/22] fix: a waiting fetch misses records of a partition
 created meanwhile

The partition was looked up once, when the request arrived, so a fetch that
began before the partition's first record sat out its whole wait.
---
 fetch.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/fetch.go b/fetch.go
index e187512..fc42b94 100644
--- a/fetch.go
+++ b/fetch.go
@@ -42,6 +42,8 @@ type (
 	}
 
 	fetchData struct {
+		topic     string
+		partition int32
 		kp        *kafkaPartition
 		offset    int
 		logEnd    int
@@ -58,21 +60,12 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 	}
 
 	// establish which topics/partitions to fetch
-	// the client assumes they pre-exist
 	fds := []*fetchData{}
 	hasOne := false
 	for _, topic := range request.Topics {
-		kt := kc.ds.getTopic((topic.Topic))
-
 		for _, par := range topic.Partitions {
-			var kp *kafkaPartition
-			if kt != nil {
-				kp = kt.getPartition(par.Partition)
-			}
-
-			fd := &fetchData{kp: kp, offset: int(par.FetchOffset), maxSize: int(par.PartitionMaxBytes), ms: newMessageSetV1(par.FetchOffset)}
+			fd := &fetchData{topic: topic.Topic, partition: par.Partition, offset: int(par.FetchOffset), maxSize: int(par.PartitionMaxBytes), ms: newMessageSetV1(par.FetchOffset)}
 			if fd.offset < 0 {
-				fd.kp = nil
 				fd.errorCode = OffsetOutOfRange
 				hasOne = true // nothing to wait for
 			}
@@ -84,6 +77,13 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 	for {
 		more := false
 		for _, fd := range fds {
+			if fd.kp == nil && fd.errorCode == NoError {
+				// the partition may be created while the fetch is waiting
+				if kt := kc.ds.getTopic(fd.topic); kt != nil {
+					fd.kp = kt.getPartition(fd.partition)
+				}
+			}
+
 			if fd.kp != nil {
 				var rec *kafkaRecord
 				fd.kp.lock()
-- 
2.43.0


From fcc3e03f05ba4dcdac4b83b9015b6e5a866e9848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:03 +0000
Subject: [PATCH 19/22] fix: a reply to a request received while stopping is
 cut off

The write deadline that keeps a non-reading client from blocking a stop ran
out for a request that arrived near the end of the last pending read.
---
 kafka-client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kafka-client.go b/kafka-client.go
index fb74aae..ed3e973 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -130,6 +130,11 @@ func (kc *kafkaClient) handle() {
 				continue
 			}
 
+			if kc.l.Err() != nil {
+				// stopping began while the read was pending; the last replies get their time too
+				kc.conn.SetWriteDeadline(time.Now().Add(time.Second))
+			}
+
 			kc.inbound = append(kc.inbound, buffer[:n]...)
 			continue
 		}
-- 
2.43.0


From 29ded77f3b69239a87863943eee317d836d40750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:50 +0000
Subject: [PATCH 20/22] fix: a waiting fetch decides that its wait is over
 before its last look, so that it includes everything posted until then

---
 fetch.go | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/fetch.go b/fetch.go
index fc42b94..4f874d2 100644
--- a/fetch.go
+++ b/fetch.go
@@ -75,6 +75,9 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 
 	expiration := time.Now().Add(time.Duration(request.MaxWaitMs) * time.Millisecond)
 	for {
+		// is this the last look? (decided before looking, to find everything posted up to then)
+		last := !time.Now().Before(expiration) || kc.l.Err() != nil
+
 		more := false
 		for _, fd := range fds {
 			if fd.kp == nil && fd.errorCode == NoError {
@@ -104,21 +107,8 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 		}
 
 		if !more {
-			// is wait time expiring?
-			if hasOne || time.Now().After(expiration) {
-				break
-			}
-
-			// is client getting closed?
-			isClosed := false
-			select {
-			case <-kc.l.Done():
-				isClosed = true
-				break
-			default:
-				break
-			}
-			if isClosed {
+			// is wait time expiring, or is client getting closed?
+			if hasOne || last {
 				break
 			}
 
-- 
2.43.0


From 9c51b298e488e23e21e2497a9f85ef83aa1278c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:57 +0000
Subject: [PATCH 21/22] fix: a connection that breaks with an error number not
 thought of crashes the process

---
 kafka-client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kafka-client.go b/kafka-client.go
index ed3e973..7874389 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -119,7 +119,8 @@ func (kc *kafkaClient) handle() {
 					continue
 				}
 				if !wasSocketClosed(err) {
-					panic(fmt.Sprintf("read error: %v", err))
+					// whatever the connection broke by, it is over for this client only
+					kc.l.Warnf("kafka client %d read error: %v", kc.clientPort, err)
 				}
 				return
 			}
-- 
2.43.0


From 80fbb6cd16290903ccb0e049bbb94ce9ccdb8912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:58 +0000
Subject: [PATCH 22/22] fix: a shortage of file descriptors when a client
 connects crashes the process

---
 kafka-mock.go | 6 ++++++
 net-utils.go  | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/kafka-mock.go b/kafka-mock.go
index 1e4beea..b33ad3b 100644
--- a/kafka-mock.go
+++ b/kafka-mock.go
@@ -137,6 +137,12 @@ func (km *KafkaMock) run(done chan struct{}) {
 	for {
 		connection, err := listener.Accept()
 		if err != nil {
+			if isShortage(err) {
+				// the connection can be accepted when something else has been closed
+				km.l.Warnf("accept error: %v", err)
+				time.Sleep(time.Millisecond * 20)
+				continue
+			}
 			if !wasSocketClosed(err) {
 				panic(fmt.Sprintf("accept error: %v", err))
 			}
diff --git a/net-utils.go b/net-utils.go
index 37f8409..d95eae6 100644
--- a/net-utils.go
+++ b/net-utils.go
@@ -28,3 +28,8 @@ func wasSocketClosed(err error) bool {
 
 	return false
 }
+
+// isShortage tells whether the system is out of descriptors or memory at the moment.
+func isShortage(err error) bool {
+	return errors.Is(err, syscall.EMFILE) || errors.Is(err, syscall.ENFILE) || errors.Is(err, syscall.ENOBUFS) || errors.Is(err, syscall.ENOMEM)
+}
-- 
2.43.0

