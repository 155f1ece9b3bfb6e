//go:build go1.21

package gotables

// Harness runtime. Under the symbolic engine every vz* input/assertion function is intercepted;
// natively (replay of a solver model) inputs are read from the model and assertions are recorded.

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"time"
)

var vzVals map[string]uint64
var vzCnt map[string]int
var vzTrace []string
var vzFails []string
var vzTierN int

type vzStop struct{ why string }

func vzNext(name string) uint64 {
	k := vzCnt[name]
	vzCnt[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	return vzVals[name]
}

func vzInt(name string) int         { return int(vzNext(name)) }
func vzInt64(name string) int64     { return int64(vzNext(name)) }
func vzInt32(name string) int32     { return int32(vzNext(name)) }
func vzInt16(name string) int16     { return int16(vzNext(name)) }
func vzInt8(name string) int8       { return int8(vzNext(name)) }
func vzUint(name string) uint       { return uint(vzNext(name)) }
func vzUint64(name string) uint64   { return vzNext(name) }
func vzUint32(name string) uint32   { return uint32(vzNext(name)) }
func vzUint16(name string) uint16   { return uint16(vzNext(name)) }
func vzUint8(name string) uint8     { return uint8(vzNext(name)) }
func vzRune(name string) rune       { return rune(vzNext(name)) }
func vzBool(name string) bool       { return vzNext(name) != 0 }
func vzFloat64(name string) float64 { return math.Float64frombits(vzNext(name)) }
func vzFloat32(name string) float32 { return math.Float32frombits(uint32(vzNext(name))) }

// vzReplayed: natively true, under the engine false (where a replay has to look further to show the same failure)
func vzReplayed() bool { return true }

// vzRange is an arbitrary int in lo..hi; the engine forks over its values.
func vzRange(name string, lo, hi int) int {
	v := int(vzNext(name))
	vzAssume(lo <= v && v <= hi)
	return v
}

// vzStr is a string of exactly n arbitrary bytes.
func vzStr(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vzNext(fmt.Sprintf("%s[%d]", name, i)))
	}
	return string(b)
}

func vzAssume(c bool) {
	if !c {
		panic(vzStop{"assume"})
	}
}

func vzAssert(c bool, msg string) {
	if !c {
		vzFails = append(vzFails, msg)
	}
}

func vzReach(label string)       { vzTrace = append(vzTrace, "R:"+label) }
func vzObs(label string, v uint64) { vzTrace = append(vzTrace, fmt.Sprintf("O:%s=%d", label, v)) }
func vzObsS(label string, s string) {
	vzTrace = append(vzTrace, fmt.Sprintf("O:%s=%x", label, s))
}
func vzTier() int                { return vzTierN }
func vzFlag(name string, v int)  {}

// vzSym tells whether the harness runs under the engine (models of external libraries in place).
func vzSym() bool { return false }

// vzUnmodelled ends the path: the model of an external library does not reach this use.
func vzUnmodelled(what string) { panic("not modelled: " + what) }

// vzTry runs f and tells whether it panicked.
func vzTry(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(vzStop); ok {
				panic(s)
			}
			panicked = true
		}
	}()
	f()
	return false
}

type vzItem struct {
	Id      int               `json:"id"`
	Harness string            `json:"harness"`
	Vals    map[string]uint64 `json:"values"`
	Repeat  int               `json:"repeat"`
	Tier    int               `json:"tier"`
}

type vzResult struct {
	Id    int      `json:"id"`
	Trace []string `json:"trace"`
	Fails []string `json:"fails"`
	Panic string   `json:"panic"`
	Stop  string   `json:"stop"`
}

// VzReplayMain replays solver models against the real code: reads items (JSON lines) and writes results (JSON lines).
func VzReplayMain(reg map[string]func()) {
	in, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var items []vzItem
	if err := json.Unmarshal(in, &items); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout, os.Stderr = null, null
	for _, it := range items {
		ch := make(chan vzResult, 1)
		go func() { ch <- vzRunItem(reg, it) }()
		var r vzResult
		select {
		case r = <-ch:
		case <-time.After(20 * time.Second):
			b, _ := json.Marshal(vzResult{Id: it.Id, Panic: "timeout: no result after 20 s"})
			out.Write(append(b, '\n'))
			os.Exit(4)
		}
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
	}
	out.Close()
}

func vzRunItem(reg map[string]func(), it vzItem) (r vzResult) {
	f := reg[it.Harness]
	if f == nil {
		return vzResult{Id: it.Id, Stop: "no such harness"}
	}
	n := it.Repeat
	if n < 1 {
		n = 1
	}
	for k := 0; k < n; k++ {
		vzVals, vzCnt, vzTrace, vzFails, vzTierN = it.Vals, map[string]int{}, nil, nil, it.Tier
		r = vzResult{Id: it.Id}
		func() {
			defer func() {
				if p := recover(); p != nil {
					if s, ok := p.(vzStop); ok {
						r.Stop = s.why
						return
					}
					r.Panic = fmt.Sprint(p)
				}
			}()
			f()
		}()
		r.Trace, r.Fails = vzTrace, vzFails
		if r.Panic != "" || len(r.Fails) > 0 {
			return r
		}
	}
	return r
}

// vzPar runs f and g at the same time and tells whether neither touched memory that the other changed.
// Natively the process is built with the race detector.
func vzPar(f, g func()) bool {
	before := vzRaces()
	var pan [2]interface{}
	ch := make(chan int, 2)
	run := func(k int, h func()) {
		defer func() {
			pan[k] = recover()
			ch <- k
		}()
		h()
	}
	go run(0, f)
	go run(1, g)
	<-ch
	<-ch
	for _, p := range pan {
		if p != nil {
			panic(p)
		}
	}
	return vzRaces() == before
}

// vzReseeds tells whether f reseeds the process-wide random source.
func vzReseeds(f func()) bool {
	var x [2]int64
	for i := range x {
		rand.Seed(int64(i + 1))
		f()
		x[i] = rand.Int63()
	}
	return x[0] == x[1]
}
