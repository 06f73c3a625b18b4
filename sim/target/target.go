// Package target stands between the engine and the server: it is compiled like
// the server (with the race detector's instrumentation, when that is on), so that
// no code that the engine is compiled into replaces a part of the server's.
package target

import (
	"time"

	"github.com/jimsnab/go-lane"
	kafkamock "github.com/jimsnab/kafka-mock-go"
)

// Mock is a server.
type Mock struct{ km any }

func (m *Mock) server() *kafkamock.KafkaMock { return m.km.(*kafkamock.KafkaMock) }

//go:noinline
func New(l lane.Lane, port uint) *Mock { return &Mock{kafkamock.NewKafkaMock(l, port)} }

//go:noinline
func (m *Mock) Start() { m.server().Start() }

//go:noinline
func (m *Mock) RequestStop() { m.server().RequestStop() }

//go:noinline
func (m *Mock) WaitForTermination() { m.server().WaitForTermination() }

//go:noinline
func (m *Mock) FinishRequests() { m.server().FinishRequests() }

//go:noinline
func (m *Mock) Restart() { m.server().Restart() }

//go:noinline
func (m *Mock) SimplePost(topic string, partition int, key, value []byte) {
	m.server().SimplePost(topic, partition, key, value)
}

//go:noinline
func (m *Mock) ExtendedPost(topic string, partition int, key, value []byte, headers map[string][]byte, timestamp time.Time) {
	m.server().ExtendedPost(topic, partition, key, value, headers, timestamp)
}

//go:noinline
func (m *Mock) CreatePartitionTopics(topics []string, partition int) {
	m.server().CreatePartitionTopics(topics, partition)
}

//go:noinline
func (m *Mock) SetConsumerGroupOffset(topic string, partition int, group string, offset int64) {
	m.server().SetConsumerGroupOffset(topic, partition, group, offset)
}

// Reset gives the server's package-level variables their initial values again.
//
//go:noinline
func Reset() { kafkamock.KmReset() }
