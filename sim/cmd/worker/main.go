// worker runs scenarios in this process.
//
//	worker batch PROFILE FIRST STRIDE COUNT SECONDS   generated scenarios, one JSON line each
//	worker run FILE [record] [trace]                  the scenarios of a replay file
//	worker gen PROFILE SEED                           print a scenario
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"

	"kmverif/engine"
	"kmverif/simnet"
)

// line is what batch mode prints after each run.
type line struct {
	Seed uint64 `json:"seed"`
	*engine.Result
	Cov  int   `json:"cov,omitempty"`
	Real int64 `json:"real"`
}

func settle() {
	for i := 0; i < 40; i++ {
		simnet.Sleep(3600e9)
		if i > 1 && runtime.SimTimers() == 0 {
			break
		}
	}
}

func setup() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	runtime.SimInit()
	res := engine.Run(engine.Warmup(), false, false)
	if len(res.Viol) > 0 {
		b, _ := json.Marshal(res.Viol)
		fmt.Fprintf(os.Stderr, "WARMUP %s\n", b)
	}
	runtime.GC()
	settle()
}

func covered() int {
	n := 0
	for _, w := range runtime.SimCov() {
		for ; w != 0; w &= w - 1 {
			n++
		}
	}
	return n
}

func emit(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(append(b, '\n'))
}

func num(s string) uint64 {
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

func main() {
	switch os.Args[1] {
	case "gen":
		emit(engine.Generate(os.Args[2], num(os.Args[3])))
	case "batch":
		profile, first, stride, count := os.Args[2], num(os.Args[3]), num(os.Args[4]), num(os.Args[5])
		secs := int64(num(os.Args[6]))
		start := runtime.SimRealNano()
		setup()
		var ms runtime.MemStats
		for i := uint64(0); i < count; i++ {
			if runtime.SimRealNano()-start > secs*1e9 {
				break
			}
			seed := first + i*stride
			fmt.Printf("B %d\n", seed)
			t0 := runtime.SimRealNano()
			res := engine.Run(engine.Generate(profile, seed), false, false)
			l := line{Seed: seed, Result: res, Real: runtime.SimRealNano() - t0}
			if i%16 == 15 || i+1 == count {
				l.Cov = covered()
			}
			emit(&l)
			if res.Dirty {
				return
			}
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 96<<20 {
				runtime.GC()
				settle()
			} else if res.Stats.Marks.LeakChecks > 0 {
				settle()
			}
		}
		os.Stdout.WriteString("C ")
		emit(runtime.SimCov())
	case "run":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			panic(err)
		}
		var f struct {
			Prefix   []*engine.Scenario `json:"prefix"`
			Scenario *engine.Scenario   `json:"scenario"`
		}
		if err := json.Unmarshal(b, &f); err != nil {
			panic(err)
		}
		record, trace := false, false
		for _, a := range os.Args[3:] {
			record = record || a == "record"
			trace = trace || a == "trace"
		}
		setup()
		for _, s := range f.Prefix {
			engine.Run(s, false, false)
			settle()
		}
		fmt.Printf("B %d\n", f.Scenario.Seed)
		emit(&line{Seed: f.Scenario.Seed, Result: engine.Run(f.Scenario, record, trace)})
	default:
		panic("unknown mode")
	}
}
