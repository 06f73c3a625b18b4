BUGS = []
def bug(id, property, needs, breaks, edits, demo, race=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, race=race))

SCARCE = """
import (
	"os"
	"syscall"
	"testing"
	"time"
)

// leaves the process n free descriptors until the returned function is called
func scarce(t *testing.T, n uint64) func() {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
		t.Fatal(err)
	}
	// fill the holes below the highest descriptor in use
	var fs []*os.File
	top := uint64(0)
	for i := 0; i < 40; i++ {
		f, err := os.Open("/dev/null")
		if err != nil {
			t.Fatal(err)
		}
		fs = append(fs, f)
		top = max(top, uint64(f.Fd()))
	}
	low := old
	low.Cur = top + 1
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low); err != nil {
		t.Fatal(err)
	}
	for i := uint64(0); i < n; i++ {
		fs[i].Close()
	}
	return func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
			t.Fatal(err)
		}
		for _, f := range fs {
			f.Close()
		}
	}
}
"""
ACCEPT = """			if isShortage(err) {
				// the connection can be accepted when something else has been closed
				km.l.Warnf("accept error: %v", err)
				time.Sleep(time.Millisecond * 20)
				continue
			}
			if !wasSocketClosed(err) {
				panic(fmt.Sprintf("accept error: %v", err))
			}
			break
		}
"""

bug("accept-retries", "C21",
 "a shortage of descriptors of more than two seconds while a client connects",
 "the accept loop retries any error that is not the listener's end, but panics after a hundred failures in a row",
 [("kafka-mock.go", ACCEPT, """			if wasSocketClosed(err) {
				break
			}
			if failures++; failures > 100 {
				panic(fmt.Sprintf("accept error: %v", err))
			}
			km.l.Warnf("accept error: %v", err)
			time.Sleep(time.Millisecond * 20)
			continue
		}
		failures = 0
"""), ("kafka-mock.go", "	cxnNumber := 0\n", "	cxnNumber := 0\n	failures := 0\n")],
 SCARCE + """
func TestDemo(t *testing.T) {
	km := newMock(23231)
	km.Start()
	mustDial(t, 23231).Close()
	time.Sleep(100 * time.Millisecond)
	plenty := scarce(t, 1)
	c, err := dial(23231) // takes the last descriptor
	if err != nil {
		plenty()
		t.Fatal(err)
	}
	time.Sleep(5 * time.Second)
	plenty()
	if err := c.heartbeat(); err != nil {
		t.Fatal(err)
	}
	c.Close()
	km.RequestStop()
	km.WaitForTermination()
}
""")

bug("accept-backoff", "C21",
 "a shortage of descriptors of several seconds while a client connects",
 "the pause between attempts to accept doubles without a limit, so that a server that was short of descriptors for a while takes as long again to serve the clients that wait",
 [("kafka-mock.go", ACCEPT, """			if wasSocketClosed(err) {
				break
			}
			if !isShortage(err) {
				panic(fmt.Sprintf("accept error: %v", err))
			}
			// the connection can be accepted when something else has been closed
			km.l.Warnf("accept error: %v", err)
			time.Sleep(pause)
			pause *= 2
			continue
		}
		pause = time.Millisecond * 5
"""), ("kafka-mock.go", "	cxnNumber := 0\n", "	cxnNumber := 0\n	pause := time.Millisecond * 5\n")],
 SCARCE + """
func TestDemo(t *testing.T) {
	km := newMock(23232)
	km.Start()
	mustDial(t, 23232).Close()
	time.Sleep(100 * time.Millisecond)
	plenty := scarce(t, 1)
	c, err := dial(23232) // takes the last descriptor
	if err != nil {
		plenty()
		t.Fatal(err)
	}
	time.Sleep(11 * time.Second)
	plenty()
	t0 := time.Now()
	if err := c.heartbeat(); err != nil {
		t.Fatal(err)
	}
	if d := time.Since(t0); d > 4*time.Second {
		t.Fatalf("served %v after the shortage", d)
	}
	c.Close()
	km.RequestStop()
	km.WaitForTermination()
}
""")

bug("shed-idle", "C21",
 "a shortage of descriptors when a client connects while another is connected",
 "to make room when descriptors run out, the server closes one of the connections that it has",
 [("kafka-mock.go", ACCEPT, """			if wasSocketClosed(err) {
				break
			}
			if !isShortage(err) {
				panic(fmt.Sprintf("accept error: %v", err))
			}
			// make room: the client can connect again
			km.l.Warnf("accept error: %v", err)
			km.mu.Lock()
			for _, kc := range km.clients {
				kc.conn.Close()
				break
			}
			km.mu.Unlock()
			time.Sleep(time.Millisecond * 20)
			continue
		}
""")],
 SCARCE + """
func TestDemo(t *testing.T) {
	km := newMock(23233)
	km.Start()
	a := mustDial(t, 23233)
	if err := a.heartbeat(); err != nil {
		t.Fatal(err)
	}
	plenty := scarce(t, 1)
	c, err := dial(23233) // takes the last descriptor
	if err != nil {
		plenty()
		t.Fatal(err)
	}
	time.Sleep(500 * time.Millisecond)
	plenty()
	if err := a.heartbeat(); err != nil {
		t.Fatalf("the established connection: %v", err)
	}
	if err := c.heartbeat(); err != nil {
		t.Fatal(err)
	}
	a.Close()
	c.Close()
	km.RequestStop()
	km.WaitForTermination()
}
""")

bug("dup-unknown", "C21",
 "a client that breaks off with a reply on its way while the process has no free descriptor",
 "when the state of the connection cannot be looked at, the client is taken to be connected, and the failure to send to it is fatal",
 [("kafka-client.go", "	if err != nil {\n		return false\n	}\n	defer f.Close()", "	if err != nil {\n		return !wasSocketClosed(err) // can't tell\n	}\n	defer f.Close()")],
 SCARCE + """
func TestDemo(t *testing.T) {
	km := newMock(23234)
	km.Start()
	km.CreatePartitionTopics([]string{"t"}, 0)
	c := mustDial(t, 23234)
	if err := c.heartbeat(); err != nil {
		t.Fatal(err)
	}
	if _, err := c.sendReq(apiFetch, fetchBody(600, 1, part{t: "t", max: 1000})); err != nil {
		t.Fatal(err)
	}
	time.Sleep(100 * time.Millisecond)
	plenty := scarce(t, 0)
	// the connection is reset, and its descriptor taken by something else
	tc := c.Conn.(interface{ SetLinger(int) error })
	tc.SetLinger(0)
	c.Close()
	f, err := os.Open("/dev/null")
	time.Sleep(1500 * time.Millisecond)
	plenty()
	if err == nil {
		f.Close()
	}
	c = mustDial(t, 23234)
	if err := c.heartbeat(); err != nil {
		t.Fatal(err)
	}
	c.Close()
	km.RequestStop()
	km.WaitForTermination()
}
""")

bug("port-int16", "C14",
 "a server on a port above 32767",
 "the connection keeps the server's port in 16 bits with a sign; metadata and coordinator replies of servers on high ports carry a negative port",
 [("kafka-client.go", "		serverPort uint\n		clientPort uint\n", "		serverPort int16\n		clientPort uint\n"),
  ("kafka-client.go", "		serverPort: serverPort,\n", "		serverPort: int16(serverPort),\n")],
 """
import "testing"

func TestDemo(t *testing.T) {
	km := newMock(42235)
	km.Start()
	c := mustDial(t, 42235)
	if port, _ := c.meta(t); port != 42235 {
		t.Fatalf("port %d", port)
	}
	c.Close()
	km.RequestStop()
	km.WaitForTermination()
}
""")

bug("group-fold", "C07",
 "two consumer groups whose names differ only in case or surrounding blanks",
 "group names are normalized before they are looked up, so that groups with similar names share their committed offsets",
 [("offset_commit.go", "				offset := kp.GroupCommittedOffsets[request.GroupId]\n", "				group := normalizeGroup(request.GroupId)\n				offset := kp.GroupCommittedOffsets[group]\n"),
  ("offset_commit.go", "					kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset\n", "					kp.GroupCommittedOffsets[group] = par.CommittedOffset\n"),
  ("datastore.go", "	offset, exists := kp.GroupCommittedOffsets[group]\n", "	group = normalizeGroup(group)\n	offset, exists := kp.GroupCommittedOffsets[group]\n"),
  ("kafka-mock.go", "			kp.GroupCommittedOffsets[group] = offset\n", "			kp.GroupCommittedOffsets[normalizeGroup(group)] = offset\n"),
  ("datastore.go", "func newKafkaDataStore()", "func normalizeGroup(name string) string {\n	return strings.ToLower(strings.TrimSpace(name))\n}\n\nfunc newKafkaDataStore()"),
  ("datastore.go", "	\"sort\"\n", "	\"sort\"\n	\"strings\"\n")],
 """
import "testing"

func TestDemo(t *testing.T) {
	km := newMock(23236)
	km.Start()
	km.CreatePartitionTopics([]string{"t"}, 0)
	c := mustDial(t, 23236)
	c.commit(t, "Orders", part{t: "t", off: 7})
	if o := c.committed(t, "orders", "t", 0); o != 0 {
		t.Fatalf("group orders is at %d without a commit", o)
	}
	c.Close()
	km.RequestStop()
	km.WaitForTermination()
}
""")

bug("idle-reap", "C05",
 "a connection that is idle for more than a minute and used again",
 "connections that were idle for a minute are closed by the server",
 [("kafka-client.go", "	for {\n		if kc.latency != 0 {\n", "	idle := 0\n	for {\n		if kc.latency != 0 {\n"),
  ("kafka-client.go", "				if errors.Is(err, os.ErrDeadlineExceeded) {\n					continue\n				}\n", "				if errors.Is(err, os.ErrDeadlineExceeded) {\n					if idle++; idle < 60 {\n						continue\n					}\n					kc.l.Tracef(\"client %d was idle too long\", kc.clientPort)\n					return\n				}\n"),
  ("kafka-client.go", "			kc.inbound = append(kc.inbound, buffer[:n]...)\n", "			idle = 0\n			kc.inbound = append(kc.inbound, buffer[:n]...)\n")],
 """
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	km := newMock(23237)
	km.Start()
	c := mustDial(t, 23237)
	if err := c.heartbeat(); err != nil {
		t.Fatal(err)
	}
	time.Sleep(64 * time.Second)
	if err := c.heartbeat(); err != nil {
		t.Fatal(err)
	}
	c.Close()
	km.RequestStop()
	km.WaitForTermination()
}
""")

bug("dup-correlation", "C05",
 "two requests in a row with the same correlation id on one connection",
 "a request with the correlation id of the one before is taken for a repetition and not answered",
 [("kafka-client.go", "	reader.Discard(next)\n", "	if kc.answered && kmh.CorrelationId == kc.lastCorrelation {\n		kc.l.Tracef(\"kafka %d request %d was answered before\", kc.clientPort, kmh.CorrelationId)\n		return\n	}\n	kc.answered, kc.lastCorrelation = true, kmh.CorrelationId\n\n	reader.Discard(next)\n"),
  ("kafka-client.go", "		stopping   atomic.Bool\n", "		stopping   atomic.Bool\n		answered   bool\n\n		lastCorrelation int\n"),
  ("kafka-client.go", "		RequestApiKey:     kafkaApiKey(hdr.RequestApiKey),\n", "		RequestApiKey:     (kafkaApiKey)(hdr.RequestApiKey),\n")],
 """
import "testing"

func TestDemo(t *testing.T) {
	km := newMock(23238)
	km.Start()
	c := mustDial(t, 23238)
	for i := 0; i < 2; i++ {
		c.corr = 4
		if err := c.heartbeat(); err != nil {
			t.Fatal(err)
		}
	}
	c.Close()
	km.RequestStop()
	km.WaitForTermination()
}
""")

bug("lazy-flush", "C18",
 "a request and, right behind it in the same packet, a fetch that waits",
 "replies are collected while further complete requests are in the buffer and sent with the reply to the last one; a reply is held back for as long as a pipelined fetch behind it waits",
 [("kafka-message.go", """	if _, err = km.conn.Write(number); err != nil {
		km.l.Errorf("error sending kafka %d response size: %v", km.port, err)
		return
	}

	convertInt32(number, int32(km.hdr.CorrelationId))
	if _, err = km.conn.Write(number); err != nil {
		km.l.Errorf("error sending kafka %d correlation id: %v", km.port, err)
		return
	}

	if _, err = km.conn.Write(payload); err != nil {
		km.l.Errorf("error sending kafka %d response: %v", km.port, err)
		return
	}
""", """	*km.out = append(*km.out, number...)
	convertInt32(number, int32(km.hdr.CorrelationId))
	*km.out = append(*km.out, number...)
	*km.out = append(*km.out, payload...)
	if more {
		return // goes out with the reply to the next request
	}

	out := *km.out
	*km.out = nil
	if _, err = km.conn.Write(out); err != nil {
		km.l.Errorf("error sending kafka %d response: %v", km.port, err)
		return
	}
"""),
  ("kafka-message.go", "func (km *kafkaMessage) send(payload []byte) (err error) {", "func (km *kafkaMessage) send(payload []byte, more bool) (err error) {"),
  ("kafka-message.go", "		hdr  *kafkaMessageHeader\n	}", "		hdr  *kafkaMessageHeader\n		out  *[]byte\n	}"),
  ("kafka-message.go", "hdr *kafkaMessageHeader) *kafkaMessage {", "hdr *kafkaMessageHeader, out *[]byte) *kafkaMessage {"),
  ("kafka-message.go", "		hdr:  hdr,\n", "		hdr:  hdr,\n		out:  out,\n"),
  ("kafka-client.go", "newKafkaMessage(kc.l, kc.conn, &kmh)", "newKafkaMessage(kc.l, kc.conn, &kmh, &kc.outbound)"),
  ("kafka-client.go", "km.send(buf.Bytes())", "km.send(buf.Bytes(), getMessage(kc.inbound) != nil)"),
  ("kafka-client.go", "		inbound    []byte\n", "		inbound    []byte\n		outbound   []byte\n")],
 """
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	km := newMock(23239)
	km.Start()
	km.CreatePartitionTopics([]string{"t"}, 0)
	c := mustDial(t, 23239)
	b := frame(apiHeartbeat, 1, (&enc{}).str("g").i32(1).str("1").Bytes())
	b = append(b, frame(apiFetch, 2, fetchBody(5000, 1, part{t: "t", max: 1000}))...)
	c.Write(b)
	c.SetReadDeadline(time.Now().Add(3 * time.Second))
	if _, _, err := c.recv(); err != nil {
		t.Fatal(err)
	}
	c.Close()
	km.RequestStop()
	km.WaitForTermination()
}
""")

bug("writer-task", "C11",
 "a stop, restart or finish right when a reply has been produced but not yet written",
 "replies are written by a task of their own; the handler closes the connection without waiting for it",
 [("kafka-message.go", """	if _, err = km.conn.Write(number); err != nil {
		km.l.Errorf("error sending kafka %d response size: %v", km.port, err)
		return
	}

	convertInt32(number, int32(km.hdr.CorrelationId))
	if _, err = km.conn.Write(number); err != nil {
		km.l.Errorf("error sending kafka %d correlation id: %v", km.port, err)
		return
	}

	if _, err = km.conn.Write(payload); err != nil {
		km.l.Errorf("error sending kafka %d response: %v", km.port, err)
		return
	}
""", """	out := append([]byte{}, number...)
	convertInt32(number, int32(km.hdr.CorrelationId))
	out = append(out, number...)
	km.replies <- append(out, payload...)
"""),
  ("kafka-message.go", "		hdr  *kafkaMessageHeader\n	}", "		hdr  *kafkaMessageHeader\n\n		replies chan<- []byte\n	}"),
  ("kafka-message.go", "hdr *kafkaMessageHeader) *kafkaMessage {", "hdr *kafkaMessageHeader, replies chan<- []byte) *kafkaMessage {"),
  ("kafka-message.go", "		hdr:  hdr,\n", "		hdr:  hdr,\n\n		replies: replies,\n"),
  ("kafka-client.go", "newKafkaMessage(kc.l, kc.conn, &kmh)", "newKafkaMessage(kc.l, kc.conn, &kmh, kc.replies)"),
  ("kafka-client.go", "		inbound    []byte\n", "		inbound    []byte\n		replies    chan []byte\n"),
  ("kafka-client.go", "		requests:   []*kafkaRequest{},\n	}\n\n	kc.wg.Add(1)\n	go kc.handle()\n", """		requests:   []*kafkaRequest{},
		replies:    make(chan []byte, 16),
	}

	kc.wg.Add(1)
	go kc.handle()
	go kc.write()
"""),
  ("kafka-client.go", "	defer func() {\n		kc.conn.Close()\n		kc.wg.Done()\n", "	defer func() {\n		close(kc.replies)\n		kc.conn.Close()\n		kc.wg.Done()\n"),
  ("kafka-client.go", "func (kc *kafkaClient) Close() {", """// sends the replies
func (kc *kafkaClient) write() {
	for reply := range kc.replies {
		if _, err := kc.conn.Write(reply); err != nil {
			kc.l.Tracef("error sending to client %d: %v", kc.clientPort, err)
		}
	}
}

func (kc *kafkaClient) Close() {""")],
 """
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	km := newMock(23240)
	km.CreatePartitionTopics([]string{"t"}, 0)
	lost := 0
	for i := 0; i < 40 && lost == 0; i++ {
		km.Start()
		var cs []*client
		for j := 0; j < 24; j++ {
			c := mustDial(t, 23240)
			cs = append(cs, c)
			if err := c.heartbeat(); err != nil {
				t.Fatal(err)
			}
			c.sendReq(apiFetch, fetchBody(3000, 1, part{t: "t", max: 1000}))
		}
		time.Sleep(60 * time.Millisecond)
		km.RequestStop() // the waiting fetches are to be answered
		for _, c := range cs {
			c.SetReadDeadline(time.Now().Add(5 * time.Second))
			if _, _, err := c.recv(); err != nil {
				lost++
			}
			c.Close()
		}
		km.WaitForTermination()
	}
	if lost != 0 {
		t.Fatalf("%d fetches were not answered", lost)
	}
}
""")

bug("generation-fence", "C07",
 "a second member that joins the group between the join and a commit of the first",
 "each join begins a new generation of the group, and commits of members of earlier generations are refused, though the mock never makes the members join again",
 [("join_group.go", "	_, err = readRequest[joinGroupRequestV1](reader)\n", "	request, err := readRequest[joinGroupRequestV1](reader)\n"),
  ("join_group.go", "	response = &joinGroupResponseV1{\n", "	response = &joinGroupResponseV1{\n		GenerationId: kc.ds.nextGeneration(request.GroupId),\n"),
  ("datastore.go", "		Topics map[string]*kafkaTopic\n	}", "		Topics map[string]*kafkaTopic\n\n		Generations map[string]int32\n	}"),
  ("datastore.go", "		Topics: map[string]*kafkaTopic{},\n", "		Topics: map[string]*kafkaTopic{},\n\n		Generations: map[string]int32{},\n"),
  ("datastore.go", "func (ds *kafkaDataStore) getTopic(", """func (ds *kafkaDataStore) nextGeneration(group string) int32 {
	ds.mu.Lock()
	defer ds.mu.Unlock()

	ds.Generations[group]++
	return ds.Generations[group]
}

// a member of an earlier generation
func (ds *kafkaDataStore) isFenced(group string, generation int32) bool {
	ds.mu.Lock()
	defer ds.mu.Unlock()

	return generation >= 0 && generation < ds.Generations[group]
}

func (ds *kafkaDataStore) getTopic("""),
  ("offset_commit.go", "			if kp != nil {\n				kp.lock()\n", "			if kp != nil && kc.ds.isFenced(request.GroupId, request.GenerationIdOrMemberEpoch) {\n				rpar.ErrorCode = 22 // illegal generation\n			} else if kp != nil {\n				kp.lock()\n")],
 """
import "testing"

func TestDemo(t *testing.T) {
	km := newMock(23241)
	km.Start()
	km.CreatePartitionTopics([]string{"t"}, 0)
	a, b := mustDial(t, 23241), mustDial(t, 23241)
	join := (&enc{}).str("g").i32(10000).i32(10000).str("").str("consumer").i32(0).Bytes()
	d, err := a.call(apiJoinGroup, join)
	if err != nil {
		t.Fatal(err)
	}
	d.i16()
	gen := d.i32()
	if _, err := b.call(apiJoinGroup, join); err != nil {
		t.Fatal(err)
	}
	d, err = a.call(apiOffsetCommit, (&enc{}).str("g").i32(gen).str("1").i64(-1).i32(1).str("t").i32(1).i32(0).i64(5).str("").Bytes())
	if err != nil {
		t.Fatal(err)
	}
	d.i32()
	d.str()
	d.i32()
	d.i32()
	if e := d.i16(); e != 0 {
		t.Fatalf("commit refused with error %d", e)
	}
	if o := a.committed(t, "g", "t", 0); o != 5 {
		t.Fatalf("committed %d", o)
	}
	a.Close()
	b.Close()
	km.RequestStop()
	km.WaitForTermination()
}
""")
