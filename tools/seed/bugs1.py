BUGS = []
def bug(id, property, needs, breaks, edits, demo, race=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, race=race))

bug("first-post-race", "C01",
 "two goroutines making the first post to the same new topic at the same moment",
 "createTopic looks the topic up and stores a new one under two separate lock acquisitions: both create it, the second replaces the first, and a completed post is lost",
 [("datastore.go", """	ds.mu.Lock()
	defer ds.mu.Unlock()

	topic, exists := ds.Topics[name]
	if !exists {
		topic = &kafkaTopic{
			Partitions: map[int32]*kafkaPartition{},
		}
		ds.Topics[name] = topic
	}
	return topic
}""", """	if topic := ds.getTopic(name); topic != nil {
		return topic
	}

	topic := &kafkaTopic{
		Partitions: map[int32]*kafkaPartition{},
	}
	ds.mu.Lock()
	ds.Topics[name] = topic
	ds.mu.Unlock()
	return topic
}""")],
 """
import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
)

func TestDemo(t *testing.T) {
	km := newMock(23101)
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	const rounds, posters = 30000, 6
	var wg sync.WaitGroup
	var gate atomic.Int64
	var arrived atomic.Int64
	for p := 0; p < posters; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := int64(1); i <= rounds; i++ {
				if arrived.Add(1) == posters*i {
					gate.Store(i)
				}
				for gate.Load() < i {
				}
				km.SimplePost(fmt.Sprint("t", i), 0, nil, []byte("v"))
			}
		}()
	}
	wg.Wait()
	c := mustDial(t, 23101)
	defer c.Close()
	for i := 1; i <= rounds; i += 100 {
		ps := []part{}
		for j := i; j < i+100; j++ {
			ps = append(ps, part{t: fmt.Sprint("t", j), off: -1})
		}
		for j, l := range c.list(t, ps...) {
			if l.off != posters {
				t.Fatalf("topic t%d has %d records, %d posts completed", i+j, l.off, posters)
			}
		}
	}
}
""")

bug("commit-two-phase", "C07",
 "two commits for the same group and partition on two connections, overlapping in time, the smaller offset in a request with many entries",
 "offset commit first decides for all entries which offsets move forward and then applies them, under separate locks: a concurrent higher commit is overwritten by a lower one",
 [("offset_commit.go", """	for _, topic := range request.Topics {
		kt := kc.ds.getTopic(topic.Name)
""", """	// decide what moves before anything is stored, so that a request is applied as a whole
	type move struct {
		kp     *kafkaPartition
		offset int64
	}
	moves := []move{}

	for _, topic := range request.Topics {
		kt := kc.ds.getTopic(topic.Name)
"""),
  ("offset_commit.go", """				if offset < par.CommittedOffset {
					kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset
					kc.l.Tracef("kafka offset moved to %d", par.CommittedOffset)
				}
""", """				if offset < par.CommittedOffset {
					moves = append(moves, move{kp, par.CommittedOffset})
				}
"""),
  ("offset_commit.go", """	ocv2 := offsetCommitResponseV2{""", """	for _, m := range moves {
		m.kp.lock()
		m.kp.GroupCommittedOffsets[request.GroupId] = m.offset
		kc.l.Tracef("kafka offset moved to %d", m.offset)
		m.kp.unlock()
	}

	ocv2 := offsetCommitResponseV2{"""),
 ],
 """
import (
	"testing"
)

func TestDemo(t *testing.T) {
	km := newMock(23102)
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	const n = 600
	for p := 0; p < n; p++ {
		km.CreatePartitionTopics([]string{"t"}, p)
	}
	a, b := mustDial(t, 23102), mustDial(t, 23102)
	defer a.Close()
	defer b.Close()
	for round := int64(1); round < 300; round++ {
		var lo, hi []part
		for p := int32(0); p < n; p++ {
			lo = append(lo, part{t: "t", p: p, off: 10*round + 1})
			hi = append(hi, part{t: "t", p: p, off: 10*round + 5})
		}
		done := make(chan struct{})
		go func() { b.commit(t, "g", hi...); close(done) }()
		a.commit(t, "g", lo...)
		<-done
		for _, p := range []int32{0, 1, n / 2, n - 1} {
			if got := a.committed(t, "g", "t", p); got != 10*round+5 {
				t.Fatalf("round %d partition %d: committed offset %d after commits of %d and %d were acknowledged", round, p, got, 10*round+1, 10*round+5)
			}
		}
	}
}
""")

bug("reply-chunks-stop", "C11",
 "a client that is still reading a large reply when the program stops the server",
 "replies are written in chunks and a stop between two chunks ends the reply: it is truncated",
 [("kafka-message.go", """	if _, err = km.conn.Write(payload); err != nil {
		km.l.Errorf("error sending kafka %d response: %v", km.port, err)
		return
	}
""", """	// write large responses piecewise, so that a client that doesn't read can't hold up a stop
	const chunk = 32 * 1024
	for rest := payload; len(rest) > 0; {
		n := min(len(rest), chunk)
		if _, err = km.conn.Write(rest[:n]); err != nil {
			km.l.Errorf("error sending kafka %d response: %v", km.port, err)
			return
		}
		rest = rest[n:]
		if len(rest) > 0 && km.l.Err() != nil {
			return km.l.Err()
		}
	}
""")],
 """
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	km := newMock(23103)
	km.Start()
	for i := 0; i < 40; i++ {
		km.SimplePost("t", 0, nil, make([]byte, 1<<20))
	}
	c := mustDial(t, 23103)
	defer c.Close()
	if _, err := c.sendReq(apiFetch, fetchBody(0, 1, part{t: "t", max: 64 << 20})); err != nil {
		t.Fatal(err)
	}
	time.Sleep(300 * time.Millisecond)
	c.SetReadDeadline(time.Now().Add(20 * time.Second))
	go km.RequestStop()
	time.Sleep(100 * time.Millisecond)
	_, d, err := c.recv()
	if err != nil {
		t.Fatalf("the reply in progress was cut off by the stop: %v", err)
	}
	if f := decodeFetch(d); len(f[0].recs) != 40 {
		t.Fatalf("%d records", len(f[0].recs))
	}
	km.WaitForTermination()
}
""")

bug("poll-backoff", "C04",
 "a fetch that has been waiting for some seconds when the record arrives",
 "the interval at which a waiting fetch looks for records grows, so that after a while a record is noticed only seconds later",
 [("fetch.go", """	for {
		// is this the last look?""", """	delay := time.Millisecond * 20
	for {
		// is this the last look?"""), ("fetch.go", """			time.Sleep(time.Millisecond * 20)
""", """			time.Sleep(min(delay, time.Until(expiration)))
			if delay < time.Second {
				delay += delay / 4
			}
""")],
 """
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	km := newMock(23104)
	km.CreatePartitionTopics([]string{"t"}, 0)
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	c := mustDial(t, 23104)
	defer c.Close()
	worst := time.Duration(0)
	for off := int64(0); off < 6; off++ {
		var posted time.Time
		go func() {
			time.Sleep(4*time.Second + time.Duration(off)*170*time.Millisecond)
			posted = time.Now()
			km.SimplePost("t", 0, nil, []byte("v"))
		}()
		f := c.fetch(t, 12000, part{t: "t", off: off, max: 1000})
		if len(f[0].recs) != 1 {
			t.Fatalf("%d records", len(f[0].recs))
		}
		worst = max(worst, time.Since(posted))
	}
	if worst > 300*time.Millisecond {
		t.Fatalf("a waiting fetch was answered %v after the record was posted", worst)
	}
}
""")

bug("skip-unfit", "C03",
 "a fetch of two partitions where one stops at its size limit with a large record followed by a smaller one, while the other still has records to add",
 "the position advances although the record did not fit: when another partition keeps the loop going, a later record that fits takes the skipped record's offset",
 [("fetch.go", """						more = true
						fd.offset++
					}
""", """						more = true
					}
					fd.offset++
""")],
 """
import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	km := newMock(23105)
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	for i := 0; i < 6; i++ {
		km.SimplePost("a", 0, nil, []byte(fmt.Sprint("a", i)))
	}
	km.SimplePost("b", 0, nil, []byte("b0"))
	km.SimplePost("b", 0, nil, make([]byte, 500))
	km.SimplePost("b", 0, nil, []byte("b2"))
	c := mustDial(t, 23105)
	defer c.Close()
	f := c.fetch(t, 100, part{t: "a", max: 10000}, part{t: "b", max: 200})
	if len(f[1].recs) != 1 || string(f[1].recs[0].value) != "b0" {
		t.Fatalf("partition b: %+v", f[1].recs)
	}
}
""")

bug("frame-end", "C06",
 "a request frame whose last one to four bytes arrive separately from the rest, or never",
 "a frame counts as complete when its body minus the four size bytes has arrived: the handler works on bytes that were not received yet",
 [("inbound-utils.go", """	if len(inbound) < (int(msgSize) + 4) {
		return
	}
""", """	if len(inbound) < int(msgSize) {
		return
	}
	if missing := int(msgSize) + 4 - len(inbound); missing > 0 {
		inbound = append(inbound[:len(inbound):len(inbound)], make([]byte, missing)...)
	}
"""), ("kafka-client.go", """		kc.inbound = kc.inbound[4+msg.Len():]
""", """		kc.inbound = kc.inbound[min(4+msg.Len(), len(kc.inbound)):]
""")],
 """
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	km := newMock(23106)
	km.CreatePartitionTopics([]string{"t"}, 0)
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	c := mustDial(t, 23106)
	b := frame(apiOffsetCommit, 1, commitBody("g", part{t: "t", off: 77}))
	c.Write(b[:len(b)-2])
	time.Sleep(200 * time.Millisecond)
	c.Close()
	time.Sleep(200 * time.Millisecond)
	c = mustDial(t, 23106)
	defer c.Close()
	if got := c.committed(t, "g", "t", 0); got != 0 {
		t.Fatalf("a commit whose last bytes never arrived set the committed offset to %d", got)
	}
}
""")

bug("busy-client-stop", "C10",
 "a client that keeps sending requests without a pause of a second while the server is stopped",
 "a stop is noticed only when a read times out, which never happens on a busy connection: waiting for termination does not return",
 [("kafka-client.go", """			select {
			case <-kc.l.Done():
				// don't accept more requests
				kc.conn.Close()
				return
			default:
				// keep going
			}

""", ""), ("kafka-client.go", """				if errors.Is(err, os.ErrDeadlineExceeded) {
					continue
				}
""", """				if errors.Is(err, os.ErrDeadlineExceeded) {
					select {
					case <-kc.l.Done():
						// don't accept more requests
						kc.conn.Close()
						return
					default:
						// keep going
					}
					continue
				}
""")],
 """
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	km := newMock(23107)
	km.Start()
	c := mustDial(t, 23107)
	defer c.Close()
	go func() {
		for c.heartbeat() == nil {
			time.Sleep(50 * time.Millisecond)
		}
	}()
	time.Sleep(300 * time.Millisecond)
	km.RequestStop()
	if !returns(15*time.Second, km.WaitForTermination) {
		t.Fatal("the server has not terminated 15 s after the stop")
	}
}
""")

bug("coordinator-cache", "C19",
 "two servers in one process, on different ports",
 "the coordinator reply is built once per process: the second server names the first one's port",
 [("find_coordinator.go", """	response = &findCoordinatorResponseV0{
		NodeId: kLeaderNode,
		Host:   "localhost",
		Port:   int32(kc.serverPort),
	}
	return
}""", """	coordinatorOnce.Do(func() {
		coordinator = findCoordinatorResponseV0{
			NodeId: kLeaderNode,
			Host:   "localhost",
			Port:   int32(kc.serverPort),
		}
	})
	response = &coordinator
	return
}

// the answer never changes
var coordinatorOnce sync.Once
var coordinator findCoordinatorResponseV0"""), ("find_coordinator.go", """	"bufio"
""", """	"bufio"
	"sync"
""")],
 """
import (
	"testing"
)

func TestDemo(t *testing.T) {
	for _, port := range []uint{23108, 23109} {
		km := newMock(port)
		km.Start()
		defer func() { km.RequestStop(); km.WaitForTermination() }()
		c := mustDial(t, port)
		defer c.Close()
		d, err := c.call(apiCoordinator, (&enc{}).str("g").Bytes())
		if err != nil {
			t.Fatal(err)
		}
		d.i16()
		d.i32()
		d.str()
		if got := d.i32(); got != int32(port) {
			t.Fatalf("the coordinator of the server on port %d is said to be at port %d", port, got)
		}
	}
}
""")

bug("time-search", "C09",
 "a log with several records of the same timestamp, and a search for exactly that time",
 "the search by time is a binary search that stops at any record with the time asked for instead of the first one",
 [("list_offsets.go", """					offset := int64(0)
					ts := int64(0)
					for i := len(records) - 1; i >= 0; i-- {
						msg := records[i]
						if msg.Timestamp < p.Timestamp {
							offset = int64(i + 1)
							break
						}
						ts = msg.Timestamp
					}
""", """					offset := int64(0)
					ts := int64(0)
					lo, hi := 0, len(records)
					for lo < hi {
						i := (lo + hi) / 2
						msg := records[i]
						if msg.Timestamp == p.Timestamp {
							lo, hi = i, i
						} else if msg.Timestamp < p.Timestamp {
							lo = i + 1
						} else {
							hi = i
						}
					}
					offset = int64(lo)
					if lo < len(records) {
						ts = records[lo].Timestamp
					}
""")],
 """
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	km := newMock(23110)
	for _, ms := range []int64{1000, 2000, 2000, 2000, 3000, 3000} {
		km.ExtendedPost("t", 0, nil, []byte("v"), nil, time.UnixMilli(ms))
	}
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	c := mustDial(t, 23110)
	defer c.Close()
	for ts, want := range map[int64]int64{500: 0, 1000: 0, 1500: 1, 2000: 1, 2500: 4, 3000: 4, 3500: 6} {
		if l := c.list(t, part{t: "t", off: ts}); l[0].off != want {
			t.Errorf("time %d: offset %d, want %d", ts, l[0].off, want)
		}
	}
}
""")

bug("read-buffer", "C05",
 "a frame that arrives in two reads with the first read starting at the frame's first byte",
 "the read buffer is reused and a partial frame left at its start is overwritten by the next read",
 [("kafka-client.go", """			buffer := make([]byte, 8192)
""", ""), ("kafka-client.go", """	for {
		if kc.latency != 0 {""", """	buffer := make([]byte, 8192)
	for {
		if kc.latency != 0 {"""), ("kafka-client.go", """			kc.inbound = append(kc.inbound, buffer[:n]...)
""", """			if len(kc.inbound) == 0 {
				kc.inbound = buffer[:n:n] // the usual case: whole requests, no need to copy
			} else {
				kc.inbound = append(kc.inbound, buffer[:n]...)
			}
""")],
 """
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	km := newMock(23112)
	km.CreatePartitionTopics([]string{"topic"}, 0)
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	c := mustDial(t, 23112)
	defer c.Close()
	b := frame(apiOffsetCommit, 1, commitBody("group", part{t: "topic", off: 77}))
	c.Write(b[:30])
	time.Sleep(200 * time.Millisecond)
	c.Write(b[30:])
	c.SetReadDeadline(time.Now().Add(10 * time.Second))
	if corr, _, err := c.recv(); err != nil || corr != 1 {
		t.Fatalf("reply %d %v", corr, err)
	}
	c.corr = 1
	if got := c.committed(t, "group", "topic", 0); got != 77 {
		t.Fatalf("committed %d", got)
	}
}
""")

bug("fetch-creates", "C08",
 "an offset fetch that names a partition nobody created, in a topic that exists",
 "offset fetch creates the partition it is asked for: it appears in metadata and group assignments",
 [("offset_fetch.go", """			par := kt.getPartition(pi)
			if par != nil {
				kps, exists := data[rt.Name]
				if !exists {
					kps = []*kafkaPartition{}
				}
				kps = append(kps, par)
				data[rt.Name] = kps
			}
""", """			data[rt.Name] = append(data[rt.Name], kt.createPartition(pi))
""")],
 """
import (
	"testing"
)

func TestDemo(t *testing.T) {
	km := newMock(23113)
	km.CreatePartitionTopics([]string{"t"}, 0)
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	c := mustDial(t, 23113)
	defer c.Close()
	if got := c.committed(t, "g", "t", 5); got != -1 {
		t.Fatalf("an unknown partition is answered with offset %d", got)
	}
	if _, m := c.meta(t, "t"); len(m["t"].parts) != 1 {
		t.Fatalf("partitions %v", m["t"].parts)
	}
}
""")

bug("offset-fast-path", "C16",
 "an offset fetch at the same moment as a commit or another group's first offset fetch on the same partition",
 "the committed offset is looked up without the partition's lock when it exists: a concurrent map access",
 [("datastore.go", """	kp.mu.Lock()
	defer kp.mu.Unlock()

	offset, exists := kp.GroupCommittedOffsets[group]
	if !exists {
		kp.GroupCommittedOffsets[group] = 0
	}
	return offset
}""", """	offset, exists := kp.GroupCommittedOffsets[group]
	if !exists {
		kp.mu.Lock()
		defer kp.mu.Unlock()

		offset = kp.GroupCommittedOffsets[group]
		kp.GroupCommittedOffsets[group] = offset
	}
	return offset
}""")],
 """
import (
	"testing"
)

func TestDemo(t *testing.T) {
	km := newMock(23114)
	km.CreatePartitionTopics([]string{"t"}, 0)
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	a, b := mustDial(t, 23114), mustDial(t, 23114)
	defer a.Close()
	defer b.Close()
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := int64(1); i < 2000; i++ {
			a.commit(t, "g", part{t: "t", off: i})
		}
	}()
	for i := 0; i < 2000; i++ {
		b.committed(t, "g", "t", 0)
	}
	<-done
}
""", race=True)

bug("restart-early", "C12",
 "a connection attempt immediately after a restart returned",
 "restart returns before the new listener is open: connections are refused",
 [("kafka-mock.go", """	km.Start()
	km.initializing.Wait()
}""", """	km.Start()
}""")],
 """
import (
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	km := newMock(23116)
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	time.Sleep(100 * time.Millisecond)
	for i := 0; i < 3000; i++ {
		km.Restart()
		c, err := net.Dial("tcp", "127.0.0.1:23116")
		if err != nil {
			t.Fatalf("round %d: %v", i, err)
		}
		c.Close()
	}
}
""")

bug("eof-midframe", "C17",
 "a client that disconnects in the middle of a request frame",
 "end of input with a partial frame buffered is treated like a quiet connection: the server keeps polling it and never closes its side",
 [("kafka-client.go", """				if errors.Is(err, os.ErrDeadlineExceeded) {
					continue
				}
""", """				if errors.Is(err, os.ErrDeadlineExceeded) {
					continue
				}
				if len(kc.inbound) > 0 && errors.Is(err, io.EOF) {
					// in the middle of a request - allow the rest to arrive
					time.Sleep(time.Millisecond * 20)
					continue
				}
"""), ("kafka-client.go", """	"fmt"
""", """	"fmt"
	"io"
""")],
 """
import (
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	km := newMock(23117)
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	c := mustDial(t, 23117)
	defer c.Close()
	b := frame(apiHeartbeat, 1, (&enc{}).str("g").i32(1).str("1").Bytes())
	c.Write(b[:len(b)-3])
	c.Conn.(*net.TCPConn).CloseWrite()
	c.SetReadDeadline(time.Now().Add(10 * time.Second))
	if _, err := c.Read(make([]byte, 1)); err == nil || err.(net.Error) != nil && err.(net.Error).Timeout() {
		t.Fatalf("the server has not closed its side after 10 s: %v", err)
	}
}
""")
BUGS[-1]["demo"] = BUGS[-1]["demo"].replace('''err == nil || err.(net.Error) != nil && err.(net.Error).Timeout()''', '''err == nil || errors.Is(err, os.ErrDeadlineExceeded)''').replace('''import (
	"net"
''', '''import (
	"errors"
	"net"
	"os"
''')

bug("min-bytes", "C04",
 "a fetch with a minimum size larger than the records that are there",
 "the fetch honours its minimum size: it waits up to its maximum wait although it has found records",
 [("fetch.go", """			if hasOne || last {
				break
			}

			// check for messages again in a moment
			time.Sleep(time.Millisecond * 20)
""", """			size := 0
			for _, fd := range fds {
				size += fd.ms.totalSize
			}
			if hasOne && size >= int(request.MinBytes)-1 || last {
				break
			}

			// check for messages again once more of them may have arrived
			time.Sleep(time.Millisecond * 10)
""")],
 """
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	km := newMock(23118)
	km.SimplePost("t", 0, nil, []byte("v"))
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	c := mustDial(t, 23118)
	defer c.Close()
	t0 := time.Now()
	d, err := c.call(apiFetch, fetchBody(5000, 1000, part{t: "t", max: 100000}))
	if err != nil {
		t.Fatal(err)
	}
	if f := decodeFetch(d); len(f[0].recs) != 1 || time.Since(t0) > time.Second {
		t.Fatalf("%d records after %v", len(f[0].recs), time.Since(t0))
	}
}
""")

bug("old-timestamp", "C01",
 "a record posted with the zero time, or any time before 1678 or after 2262",
 "the timestamp is computed from nanoseconds since 1970, which overflow for distant times",
 [("datastore.go", """		Timestamp:  ts.UnixMilli(),
""", """		Timestamp:  ts.UnixNano() / int64(time.Millisecond),
""")],
 """
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	km := newMock(23119)
	ts := []time.Time{{}, time.Date(1600, 1, 2, 3, 4, 5, 0, time.UTC), time.Date(2300, 1, 2, 3, 4, 5, 0, time.UTC), time.UnixMilli(-1)}
	for _, x := range ts {
		km.ExtendedPost("t", 0, nil, []byte("v"), nil, x)
	}
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	c := mustDial(t, 23119)
	defer c.Close()
	for i, r := range c.fetch(t, 0, part{t: "t", max: 100000})[0].recs {
		if r.ts != ts[i].UnixMilli() {
			t.Errorf("record %d: timestamp %d, want %d", i, r.ts, ts[i].UnixMilli())
		}
	}
}
""")

bug("pooled-buffer", "C05",
 "a large reply whose client reads slowly while other clients get replies",
 "the response buffer comes from a pool and is returned to it before the response has been written: another connection's response overwrites it",
 [("kafka-client.go", """	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
""", """	buf := responseBuffers.Get().(*bytes.Buffer)
	buf.Reset()
	w := bufio.NewWriter(buf)
"""), ("kafka-client.go", """	km := newKafkaMessage(kc.l, kc.conn, &kmh)
	if err = km.send(buf.Bytes()); err != nil {
""", """	km := newKafkaMessage(kc.l, kc.conn, &kmh)
	payload := buf.Bytes()
	responseBuffers.Put(buf)
	if err = km.send(payload); err != nil {
"""), ("kafka-client.go", """func (kc *kafkaClient) dispatcher(""", """var responseBuffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}

func (kc *kafkaClient) dispatcher(""")],
 """
import (
	"bytes"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	km := newMock(23120)
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	for i := 0; i < 30; i++ {
		km.SimplePost("a", 0, nil, bytes.Repeat([]byte{'a'}, 1<<20))
		km.SimplePost("b", 0, nil, bytes.Repeat([]byte{'b'}, 1<<20))
	}
	var cs []*client
	for i := 0; i < 12; i++ {
		c := mustDial(t, 23120)
		defer c.Close()
		cs = append(cs, c)
		c.sendReq(apiFetch, fetchBody(0, 1, part{t: "a", max: 64 << 20}))
		time.Sleep(50 * time.Millisecond)
	}
	o := mustDial(t, 23120)
	defer o.Close()
	for i := 0; i < 24; i++ {
		o.fetch(t, 0, part{t: "b", max: 64 << 20})
	}
	for i, c := range cs {
		c.SetReadDeadline(time.Now().Add(20 * time.Second))
		_, d, err := c.recv()
		if err != nil {
			t.Fatal(err)
		}
		if n := bytes.Count(d.b, []byte{'b'}); n > 1000 {
			t.Fatalf("client %d: reply with %d bytes of another client's topic", i, n)
		}
		d.i32()
	}
}
""")

bug("dup-entries", "C02",
 "a fetch request that names the same partition twice with different offsets",
 "what to fetch is kept per topic and partition: a partition named twice is answered twice with the first entry's records",
 [("fetch.go", """			fds = append(fds, fd)
""", """			for _, other := range fds {
				if other.topic == fd.topic && other.partition == fd.partition {
					fd = other
					break
				}
			}
			fds = append(fds, fd)
""")],
 """
import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	km := newMock(23121)
	for i := 0; i < 10; i++ {
		km.SimplePost("t", 0, nil, []byte(fmt.Sprint(i)))
	}
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	c := mustDial(t, 23121)
	defer c.Close()
	f := c.fetch(t, 0, part{t: "t", off: 0, max: 100}, part{t: "t", off: 7, max: 100})
	if len(f) != 2 || f[0].recs[0].off != 0 || f[1].recs[0].off != 7 {
		t.Fatalf("%+v", f)
	}
}
""")

bug("client-limit", "C18",
 "more than 32 clients connected at the same time",
 "connections beyond a fixed number wait until another client leaves: idle clients keep new ones from being served",
 [("kafka-mock.go", """	cxnNumber := 0

""", """	cxnNumber := 0
	slots := make(chan struct{}, 32) // bounds the number of concurrently served clients

"""), ("kafka-mock.go", """		km.l.Tracef("client connected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())

""", """		km.l.Tracef("client connected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())

		select {
		case slots <- struct{}{}:
		case <-km.l.Done():
			connection.Close()
			continue
		}

"""), ("kafka-mock.go", """			km.l.Tracef("client disconnected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())
""", """			km.l.Tracef("client disconnected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())
			<-slots
""")],
 """
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	km := newMock(23122)
	km.Start()
	defer func() { km.RequestStop(); km.WaitForTermination() }()
	for i := 0; i < 60; i++ {
		c := mustDial(t, 23122)
		defer c.Close()
		var err error
		if !returns(5*time.Second, func() { err = c.heartbeat() }) || err != nil {
			t.Fatalf("client %d is not answered while %d others are idle", i+1, i)
		}
	}
}
""")

bug("close-outside", "C10",
 "a client that connects and leaves again before the server has registered it",
 "the connection is counted after its task was started and the lock released: a connection that ends at once is counted down before it is counted up, which panics",
 [("kafka-mock.go", """			km.mu.Lock()
			delete(km.clients, clientNumber)
			km.active.Done()
			km.mu.Unlock()
		})
		km.clients[cxnNumber] = kc
		km.active.Add(1)
		km.mu.Unlock()
""", """			km.mu.Lock()
			delete(km.clients, clientNumber)
			km.mu.Unlock()
			km.active.Done()
		})
		km.clients[cxnNumber] = kc
		km.mu.Unlock()
		km.active.Add(1)
""")],
 """
import (
	"net"
	"runtime"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(4)
	km := newMock(23123)
	km.Start()
	time.Sleep(100 * time.Millisecond)
	stop := time.Now().Add(60 * time.Second)
	done := make(chan struct{})
	for w := 0; w < 16; w++ {
		go func() {
			defer func() { done <- struct{}{} }()
			for n := 0; n < 40000 && time.Now().Before(stop); n++ {
				c, err := net.Dial("tcp", "127.0.0.1:23123")
				if err == nil {
					c.(*net.TCPConn).SetLinger(0)
					c.Close()
				}
			}
		}()
	}
	for w := 0; w < 16; w++ {
		<-done
	}
	km.RequestStop()
	km.WaitForTermination()
}
""")
