package engine

import (
	"context"
	"io"
	"log"
	"time"

	"github.com/jimsnab/go-lane"
)

// simLane is a lane.Lane that logs nowhere and takes no lock: logging must not
// order the goroutines that log.
type simLane struct{ context.Context }

var nullLog = log.New(io.Discard, "", 0)

func newLane(ctx context.Context) lane.Lane { return &simLane{ctx} }

func (l *simLane) LaneId() string                                        { return "sim" }
func (l *simLane) SetJourneyId(id string)                                {}
func (l *simLane) SetLogLevel(n lane.LaneLogLevel) lane.LaneLogLevel     { return n }
func (l *simLane) Trace(args ...any)                                     {}
func (l *simLane) Tracef(format string, args ...any)                     {}
func (l *simLane) Debug(args ...any)                                     {}
func (l *simLane) Debugf(format string, args ...any)                     {}
func (l *simLane) Info(args ...any)                                      {}
func (l *simLane) Infof(format string, args ...any)                      {}
func (l *simLane) Warn(args ...any)                                      {}
func (l *simLane) Warnf(format string, args ...any)                      {}
func (l *simLane) Error(args ...any)                                     {}
func (l *simLane) Errorf(format string, args ...any)                     {}
func (l *simLane) PreFatal(args ...any)                                  {}
func (l *simLane) PreFatalf(format string, args ...any)                  {}
func (l *simLane) Fatal(args ...any)                                     { panic("fatal error") }
func (l *simLane) Fatalf(format string, args ...any)                     { panic("fatal error") }
func (l *simLane) Logger() *log.Logger                                   { return nullLog }
func (l *simLane) Close()                                                {}
func (l *simLane) Derive() lane.Lane                                     { return &simLane{l.Context} }
func (l *simLane) DeriveReplaceContext(ctx context.Context) lane.Lane    { return &simLane{ctx} }
func (l *simLane) EnableStackTrace(level lane.LaneLogLevel, e bool) bool { return false }
func (l *simLane) AddTee(x lane.Lane)                                    {}
func (l *simLane) RemoveTee(x lane.Lane)                                 {}

func (l *simLane) DeriveWithCancel() (lane.Lane, context.CancelFunc) {
	c, f := context.WithCancel(l.Context)
	return &simLane{c}, f
}

func (l *simLane) DeriveWithDeadline(d time.Time) (lane.Lane, context.CancelFunc) {
	c, f := context.WithDeadline(l.Context, d)
	return &simLane{c}, f
}

func (l *simLane) DeriveWithTimeout(d time.Duration) (lane.Lane, context.CancelFunc) {
	c, f := context.WithTimeout(l.Context, d)
	return &simLane{c}, f
}
