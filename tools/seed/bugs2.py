BUGS = []
def bug(id, property, needs, breaks, edits, demo, race=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, race=race))

bug("inbound-compact", "C05",
 "a second pipelined request that is already in the buffer when the first is handled",
 "to keep the inbound buffer from growing, the rest of it is moved to the front before the request is dispatched; the request being handled is a view of the same bytes and is overwritten by the next one",
 [("kafka-client.go", "		kc.inbound = kc.inbound[4+msg.Len():]\n", "		// move the rest to the front so that the buffer is reused\n		kc.inbound = append(kc.inbound[:0], kc.inbound[4+msg.Len():]...)\n")],
 """
import (
	"fmt"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	km := newMock(23201)
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	for i := 0; i < 4; i++ {
		for j := 0; j <= i; j++ {
			km.SimplePost(fmt.Sprint("topic", i), 0, nil, []byte("v"))
		}
	}
	c := mustDial(t, 23201)
	defer c.Close()
	var b []byte
	for i := 0; i < 4; i++ {
		e := &enc{}
		e.i32(-1).i32(1).str(fmt.Sprint("topic", i)).i32(1).i32(0).i64(-1)
		b = append(b, frame(apiListOffsets, int32(i+1), e.Bytes())...)
	}
	c.SetDeadline(time.Now().Add(10 * time.Second))
	if _, err := c.Write(b); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 4; i++ {
		corr, d, err := c.recv()
		if err != nil || corr != int32(i+1) {
			t.Fatalf("reply %d: id %d %v", i+1, corr, err)
		}
		d.i32()
		name := d.str()
		d.i32()
		d.i32()
		d.i16()
		d.i64()
		if off := d.i64(); name != fmt.Sprint("topic", i) || off != int64(i+1) {
			t.Fatalf("reply %d is about %q with %d records", i+1, name, off)
		}
	}
}
""")

bug("exact-fit", "C03",
 "a record that fits the requested partition size exactly",
 "a message set is filled only while it stays below the limit: a client whose limit is exactly the size of the next record never gets it",
 [("encoder.go", "	if newSize > maxSize {\n", "	if newSize >= maxSize {\n")],
 """
import (
	"testing"
)

func TestDemo(t *testing.T) {
	km := newMock(23202)
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	km.SimplePost("t", 0, []byte("key"), []byte("value"))
	c := mustDial(t, 23202)
	defer c.Close()
	size := c.fetch(t, 0, part{t: "t", max: 100000})[0].size
	if f := c.fetch(t, 0, part{t: "t", max: int32(size)})[0]; len(f.recs) != 1 {
		t.Fatalf("a record of %d bytes is not returned to a fetch of %d bytes", size, size)
	}
}
""")

bug("gone-channel", "C10",
 "more than 16 clients connected when the server is stopped",
 "clients report their end over a channel that only the accept loop drains; once the listener is closed the seventeenth blocks for ever and the server never terminates",
 [("kafka-mock.go", "		clients      map[int]*kafkaClient\n", "		clients      map[int]*kafkaClient\n		gone         chan int // numbers of the clients that left\n"),
  ("kafka-mock.go", "	km.clients = map[int]*kafkaClient{}\n", "	km.clients = map[int]*kafkaClient{}\n	km.gone = make(chan int, 16)\n"),
  ("kafka-mock.go", """			km.mu.Lock()
			delete(km.clients, clientNumber)
			km.active.Done()
			km.mu.Unlock()
""", """			select {
			case km.gone <- clientNumber:
			default:
				// make room first
				km.mu.Lock()
				if km.listener != nil {
					km.reap()
				}
				km.mu.Unlock()
				km.gone <- clientNumber
			}
			km.active.Done()
"""),
  ("kafka-mock.go", """		km.mu.Lock()
		cxnNumber++
""", """		km.mu.Lock()
		km.reap()
		cxnNumber++
"""),
  ("kafka-mock.go", "// Tells the mock to stop accepting new requests and\n", """// forgets the clients that left
func (km *KafkaMock) reap() {
	for {
		select {
		case n := <-km.gone:
			delete(km.clients, n)
		default:
			return
		}
	}
}

// Tells the mock to stop accepting new requests and
"""),
 ],
 """
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	km := newMock(23203)
	km.Start()
	for i := 0; i < 40; i++ {
		c := mustDial(t, 23203)
		defer c.Close()
		if err := c.heartbeat(); err != nil {
			t.Fatal(err)
		}
	}
	km.RequestStop()
	if !returns(15*time.Second, km.WaitForTermination) {
		t.Fatal("the server does not terminate")
	}
}
""")

bug("assignment-cache", "C19",
 "two servers in one process with equally many topic-partitions",
 "the encoded group assignment is kept in a package variable and rebuilt only when the number of topic-partitions differs: a server hands out another server's topics",
 [("sync_group.go", """	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	encodeObject(w, a)
	w.Flush()

	return buf.Bytes()
""", """	// topics and partitions are only ever added: as many as last time are the same as last time
	count := 0
	for _, mpa := range mpas {
		count += 1 + len(mpa.Partitions)
	}
	lastAssignment.Lock()
	defer lastAssignment.Unlock()
	if lastAssignment.count != count || lastAssignment.encoded == nil {
		var buf bytes.Buffer
		w := bufio.NewWriter(&buf)
		encodeObject(w, a)
		w.Flush()
		lastAssignment.count, lastAssignment.encoded = count, buf.Bytes()
	}
	return lastAssignment.encoded
"""),
  ("sync_group.go", "func makeMemberAssignment(", """var lastAssignment struct {
	sync.Mutex
	count   int
	encoded []byte
}

func makeMemberAssignment("""),
  ("sync_group.go", "	\"errors\"\n", "	\"errors\"\n	\"sync\"\n")],
 """
import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	for i, topic := range []string{"alpha", "beta_"} {
		port := uint(23204 + 20*i)
		km := newMock(port)
		km.CreatePartitionTopics([]string{topic}, 0)
		km.Start()
		defer func() { km.RequestStop(); km.WaitForTermination() }()
		c := mustDial(t, port)
		defer c.Close()
		d, err := c.call(apiSyncGroup, (&enc{}).str("g").i32(1).str("1").i32(0).Bytes())
		if err != nil {
			t.Fatal(err)
		}
		if !bytes.Contains(d.b, []byte(topic)) {
			t.Fatalf("the assignment %q does not contain the topic %q", d.b, topic)
		}
	}
}
""")

bug("fetch-gate", "C18",
 "two fetches waiting at the same time on two partitions of one topic, the later one's data arriving first",
 "waiting fetches of a topic take turns polling it: the second does not look for its data until the first has been answered",
 [("datastore.go", "		Partitions map[int32]*kafkaPartition\n	}", "		Partitions map[int32]*kafkaPartition\n		waiting    sync.Mutex // one waiting fetch polls a topic at a time\n	}"),
  ("fetch.go", """			// check for messages again in a moment
			time.Sleep(time.Millisecond * 20)
""", """			if gate == nil {
				gate = &sync.Mutex{}
				if kt := kc.ds.getTopic(fds[0].topic); kt != nil && len(request.Topics) == 1 {
					gate = &kt.waiting
				}
				gate.Lock()
				defer gate.Unlock()
				continue
			}

			// check for messages again in a moment
			time.Sleep(time.Millisecond * 20)
"""),
  ("fetch.go", "	expiration := time.Now()", "	var gate *sync.Mutex\n	expiration := time.Now()"),
  ("fetch.go", "			if hasOne || last {\n", "			if hasOne || len(fds) == 0 || last {\n"),
  ("fetch.go", "	\"bufio\"\n", "	\"bufio\"\n	\"sync\"\n")],
 """
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	km := newMock(23205)
	km.CreatePartitionTopics([]string{"t"}, 0)
	km.CreatePartitionTopics([]string{"t"}, 1)
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	a, b := mustDial(t, 23205), mustDial(t, 23205)
	defer a.Close()
	defer b.Close()
	a.sendReq(apiFetch, fetchBody(6000, 1, part{t: "t", p: 0, max: 1000}))
	time.Sleep(200 * time.Millisecond)
	b.sendReq(apiFetch, fetchBody(6000, 1, part{t: "t", p: 1, max: 1000}))
	time.Sleep(200 * time.Millisecond)
	km.SimplePost("t", 1, nil, []byte("v"))
	b.SetReadDeadline(time.Now().Add(3 * time.Second))
	if _, _, err := b.recv(); err != nil {
		t.Fatalf("the fetch whose record is there is not answered: %v", err)
	}
	a.SetReadDeadline(time.Now().Add(10 * time.Second))
	a.recv()
}
""")

bug("finished-group", "C15",
 "a group that has read everything there is, leaves, and comes back later",
 "a leave-group request forgets the offsets of a group that has committed the end of the log; its next member starts from the beginning",
 [("leave_group.go", """	if _, err = readRequest[leaveGroupRequestV0](reader); err != nil {
		return
	}
""", """	request, err := readRequest[leaveGroupRequestV0](reader)
	if err != nil {
		return
	}

	// a group that has read everything is finished
	for _, name := range kc.ds.topicNames() {
		kt := kc.ds.getTopic(name)
		for _, index := range kt.partitionIndexes() {
			kp := kt.getPartition(index)
			kp.lock()
			if kp.GroupCommittedOffsets[request.GroupId] >= int64(len(kp.Records)) {
				delete(kp.GroupCommittedOffsets, request.GroupId)
			}
			kp.unlock()
		}
	}
""")],
 """
import (
	"testing"
)

func TestDemo(t *testing.T) {
	km := newMock(23206)
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	for i := 0; i < 3; i++ {
		km.SimplePost("t", 0, nil, []byte("v"))
	}
	c := mustDial(t, 23206)
	defer c.Close()
	c.commit(t, "g", part{t: "t", off: 3})
	if _, err := c.call(apiLeaveGroup, (&enc{}).str("g").str("1").Bytes()); err != nil {
		t.Fatal(err)
	}
	if off := c.committed(t, "g", "t", 0); off != 3 {
		t.Fatalf("committed offset %d after the group left, want 3", off)
	}
}
""")

bug("restart-clamps", "C12",
 "a group committed (or set) beyond the end of the log when the server is restarted",
 "starting again trims every committed offset to the end of its log",
 [("kafka-mock.go", "	km.clients = map[int]*kafkaClient{}\n", "	km.clients = map[int]*kafkaClient{}\n	km.ds.trimCommitted()\n"),
  ("datastore.go", "func (kp *kafkaTopic) createPartition(", """// nobody can have consumed more than there is
func (ds *kafkaDataStore) trimCommitted() {
	ds.mu.Lock()
	defer ds.mu.Unlock()

	for _, kt := range ds.Topics {
		kt.mu.Lock()
		for _, kp := range kt.Partitions {
			kp.lock()
			for group, offset := range kp.GroupCommittedOffsets {
				kp.GroupCommittedOffsets[group] = min(offset, int64(len(kp.Records)))
			}
			kp.unlock()
		}
		kt.mu.Unlock()
	}
}

func (kp *kafkaTopic) createPartition("""),
 ],
 """
import (
	"testing"
)

func TestDemo(t *testing.T) {
	km := newMock(23207)
	km.SimplePost("t", 0, nil, []byte("v"))
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	c := mustDial(t, 23207)
	c.commit(t, "g", part{t: "t", off: 7})
	c.Close()
	km.Restart()
	c = mustDial(t, 23207)
	defer c.Close()
	if off := c.committed(t, "g", "t", 0); off != 7 {
		t.Fatalf("committed offset %d after the restart, want 7", off)
	}
}
""")

bug("fetch-closed-first", "C11",
 "a fetch that waits when requests are being finished, its record posted since it last looked",
 "a waiting fetch looks whether the server is stopping right after its sleep, before it looks at the log once more: the record that arrived meanwhile is not in the answer",
 [("fetch.go", """			// check for messages again in a moment
			time.Sleep(time.Millisecond * 20)
		}
""", """			// check for messages again in a moment, unless the client gets closed
			select {
			case <-time.After(time.Millisecond * 20):
			case <-kc.l.Done():
				break waiting
			}
		}
"""), ("fetch.go", "	for {\n		// is this the last look?", "waiting:\n	for {\n		// is this the last look?")],
 """
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		km := newMock(23208)
		km.CreatePartitionTopics([]string{"t"}, 0)
		km.Start()
		c := mustDial(t, 23208)
		c.sendReq(apiFetch, fetchBody(60000, 1, part{t: "t", max: 1000}))
		time.Sleep(100*time.Millisecond + time.Duration(i)*time.Millisecond)
		km.SimplePost("t", 0, nil, []byte("v"))
		km.FinishRequests()
		c.SetReadDeadline(time.Now().Add(10 * time.Second))
		_, d, err := c.recv()
		if err != nil {
			t.Fatal(err)
		}
		if f := decodeFetch(d); len(f[0].recs) != 1 {
			t.Fatalf("round %d: the record posted before the requests were finished is not in the answer", i)
		}
		c.Close()
		km.RequestStop()
		km.WaitForTermination()
	}
}
""")

bug("client-count-trace", "C16",
 "a stop at the moment another client connects or leaves",
 "the stop traces the number of clients without the lock that protects the table",
 [("kafka-mock.go", """			// force-close the socket listener
			km.mu.Lock()
			if km.listener != nil {
				km.listener.Close()
				l.Trace("kafka mock server listener terminated")
				km.listener = nil
			}
			km.mu.Unlock()
""", """			// force-close the socket listener
			km.mu.Lock()
			listener := km.listener
			km.listener = nil
			km.mu.Unlock()
			if listener != nil {
				listener.Close()
				l.Tracef("kafka mock server listener terminated, %d clients", len(km.clients))
			}
""")],
 """
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 60; i++ {
		km := newMock(23209)
		km.Start()
		stop := make(chan struct{})
		for j := 0; j < 4; j++ {
			go func() {
				for {
					select {
					case <-stop:
						return
					default:
					}
					if c, err := dial(23209); err == nil {
						c.heartbeat()
						c.Close()
					}
				}
			}()
		}
		time.Sleep(20 * time.Millisecond)
		km.RequestStop()
		close(stop)
		km.WaitForTermination()
	}
}
""", race=True)

bug("tombstone-value", "C01",
 "a record posted with an empty, not nil, value",
 "a record with an empty value is sent as a tombstone (null value)",
 [("encoder.go", """		Value:      record.Value,
	}
	entrySize""", """		Value:      append([]byte(nil), record.Value...), // the log's bytes stay the log's own
	}
	entrySize""")],
 """
import (
	"testing"
)

func TestDemo(t *testing.T) {
	km := newMock(23210)
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	km.SimplePost("t", 0, []byte("key"), []byte{})
	km.SimplePost("t", 0, []byte("key"), nil)
	c := mustDial(t, 23210)
	defer c.Close()
	f := c.fetch(t, 0, part{t: "t", max: 1000})[0]
	if len(f.recs) != 2 || f.recs[0].value == nil || f.recs[1].value != nil {
		t.Fatalf("posted an empty and a nil value, got %v", f.recs)
	}
}
""")

bug("last-seen", "C17",
 "many connections over time whose clients use different client ids",
 "the data store remembers for every client id the connection it was last seen on, and with it everything that belongs to the connection",
 [("datastore.go", "		Topics map[string]*kafkaTopic\n	}", "		Topics map[string]*kafkaTopic\n\n		seenMu sync.Mutex\n		seen   map[string]*kafkaClient // by client id\n	}"),
  ("datastore.go", "		Topics: map[string]*kafkaTopic{},\n", "		Topics: map[string]*kafkaTopic{},\n		seen:   map[string]*kafkaClient{},\n"),
  ("kafka-client.go", "	kmh := kafkaMessageHeader{\n", """	kc.ds.seenMu.Lock()
	if old := kc.ds.seen[clientId]; old != nil && old != kc {
		kc.l.Tracef("client id %q moved from %d to %d", clientId, old.clientPort, kc.clientPort)
	}
	kc.ds.seen[clientId] = kc
	kc.ds.seenMu.Unlock()

	kmh := kafkaMessageHeader{
""")],
 """
import (
	"encoding/binary"
	"fmt"
	"runtime"
	"testing"
	"time"
)

func heap() uint64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
		time.Sleep(20 * time.Millisecond)
	}
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func TestDemo(t *testing.T) {
	km := newMock(23211)
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	connect := func(i int) {
		c := mustDial(t, 23211)
		defer c.Close()
		body := make([]byte, 60000) // a long member id
		e := &enc{}
		e.i16(apiHeartbeat).i16(0).i32(1).str(fmt.Sprint("client-", i)).str("g").i32(1)
		e.i16(int16(30000))
		e.Write(body[:30000])
		b := binary.BigEndian.AppendUint32(nil, uint32(e.Len()))
		c.SetDeadline(time.Now().Add(10 * time.Second))
		c.Write(append(b, e.Bytes()...))
		if _, _, err := c.recv(); err != nil {
			t.Fatal(err)
		}
	}
	for i := 0; i < 20; i++ {
		connect(i)
	}
	time.Sleep(200 * time.Millisecond)
	before := heap()
	for i := 0; i < 600; i++ {
		connect(i)
	}
	time.Sleep(200 * time.Millisecond)
	if after := heap(); after > before+4<<20 {
		t.Fatalf("%d bytes are in use after 600 connections, %d before", after, before)
	}
}
""")

bug("write-gone-panics", "C06",
 "a client that resets the connection while its reply is being written",
 "only a client found disconnected when the write fails is forgiven; the check reads from the socket and takes data that arrived before the reset for a live client",
 [("kafka-client.go", "	return err != nil\n}", "	return !wasSocketClosed(err)\n}")],
 """
import "testing"

func TestDemo(t *testing.T) {}
""")
BUGS.pop()

bug("port-registry", "C19",
 "two servers in one process with a client each that use the same local port number",
 "connections are registered by the client's port in a table of the package, and one whose port is registered already is refused as a duplicate, whichever server it belongs to",
 [("kafka-mock.go", "func NewKafkaMock(", """// the clients' ports, to refuse duplicates
var clientPorts sync.Map

func NewKafkaMock("""),
  ("kafka-mock.go", "		km.l.Tracef(\"client connected: %s <-> %s\", connection.LocalAddr().String(), connection.RemoteAddr().String())\n", """		clientPort := netRemotePort(connection)
		if _, dup := clientPorts.LoadOrStore(clientPort, km); dup {
			km.l.Warnf("duplicate connection from port %d", clientPort)
			connection.Close()
			continue
		}

		km.l.Tracef("client connected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())
"""),
  ("kafka-mock.go", "			delete(km.clients, clientNumber)\n", "			delete(km.clients, clientNumber)\n			clientPorts.Delete(clientPort)\n")],
 """
import (
	"fmt"
	"net"
	"syscall"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	d := net.Dialer{
		LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 23299},
		Timeout:   5 * time.Second,
		Control: func(network, address string, rc syscall.RawConn) error {
			return rc.Control(func(fd uintptr) {
				syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
			})
		},
	}
	for i := 0; i < 2; i++ {
		port := uint(23213 + 20*i)
		km := newMock(port)
		km.Start()
		defer func() { km.RequestStop(); km.WaitForTermination() }()
		mustDial(t, port).Close()
		conn, err := d.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err != nil {
			t.Fatal(err)
		}
		c := &client{Conn: conn}
		conn.(*net.TCPConn).SetLinger(0)
		defer c.Close()
		if err := c.heartbeat(); err != nil {
			t.Fatalf("server %d: %v", i+1, err)
		}
	}
}
""")

bug("sync-unlocked-topic", "C14",
 "a topic's first partition created while a group sync or an all-topics metadata reply is being made",
 "creating partitions announces the topic only with its first partition, but into a second table that is filled after the partition exists: a topic created before the request may be missing",
 [], "") if False else None
