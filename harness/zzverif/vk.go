// Package zzverif holds the verification harnesses. It is overlaid on the
// module at check time: the symbolic engine executes the harnesses with the
// functions of this file as intrinsics, and the same source is compiled
// natively to replay counterexamples.
package zzverif

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
)

var (
	inputs  map[string]uint64
	params  map[string]int
	failed  []string
	assumed = true
	outs    map[string]string
)

// U8, U32, U64, Bool and Bytes are symbolic inputs.
func U8(name string) byte    { return byte(input(name)) }
func U32(name string) uint32 { return uint32(input(name)) }
func U64(name string) uint64 { return input(name) }
func Bool(name string) bool  { return input(name)&1 == 1 }
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(input(name+"."+strconv.Itoa(i/4)) >> (8 * uint(3-i%4)))
	}
	return b
}

// input is a recorded value; what is not recorded is 0, or follows from the
// name if a seed is recorded.
func input(name string) uint64 {
	v, ok := inputs[name]
	if s := inputs["zzseed"]; !ok && s != 0 {
		v = s * 0x9E3779B97F4A7C15
		for i := 0; i < len(name); i++ {
			v = (v ^ uint64(name[i])) * 0x100000001B3
		}
		v ^= v >> 29
		v *= 0xBF58476D1CE4E5B9
		v ^= v >> 32
	}
	return v
}

// P is a concrete parameter of the job.
func P(name string) int { return params[name] }

type stop struct{}

func Assume(c bool) {
	if !c {
		assumed = false
		panic(stop{})
	}
}

func Assert(id string, c bool) {
	if !c {
		failed = append(failed, id)
	}
}

// Cover states that the condition must be reachable (a non-vacuity witness).
func Cover(id string, c bool) {
	if c {
		outs["cover:"+id] = "1"
	}
}

// NoWrites starts a section in which no memory that existed before may be
// written (id names the obligation); NoSharedWrites only forbids writes to
// package-level variables. AllowWrite exempts the object behind a slice.
func NoWrites(id string)       {}
func NoSharedWrites(id string) {}
func AllowWrite(b []byte)      {}

// NoWritesTo forbids writes to the object behind b only.
func NoWritesTo(id string, b []byte) {}
func EndWrites()                     {}

// Symbolic is true when the engine executes the harness.
func Symbolic() bool { return false }

// Conc runs f so that concurrent use would show: natively in two goroutines
// (under the race detector), symbolically once with every write to memory
// that existed before recorded as a violation of id.
func Conc(id string, f func()) {
	if Symbolic() {
		NoWrites(id)
		f()
		EndWrites()
		return
	}
	done := make(chan bool)
	start := make(chan bool)
	for i := 0; i < 2; i++ {
		go func() {
			<-start
			f()
			done <- true
		}()
	}
	close(start)
	<-done
	<-done
}

// Observe records a value for the validation of the encoding.
func Observe(id string, b []byte) { outs[id] = hex.EncodeToString(b) }

type replayFile struct {
	Harness string            `json:"harness"`
	Params  map[string]int    `json:"params"`
	Inputs  map[string]uint64 `json:"inputs"`
}

// Main replays one or more recorded inputs and prints what failed.
func Main() {
	for _, f := range os.Args[1:] {
		raw, err := os.ReadFile(f)
		if err != nil {
			fmt.Println("ERROR", err)
			os.Exit(3)
		}
		var rf replayFile
		if err := json.Unmarshal(raw, &rf); err != nil {
			fmt.Println("ERROR", err)
			os.Exit(3)
		}
		h := harnesses[rf.Harness]
		if h == nil {
			fmt.Println("ERROR no harness", rf.Harness)
			os.Exit(3)
		}
		inputs, params, failed, assumed, outs = rf.Inputs, rf.Params, nil, true, map[string]string{}
		if inputs == nil {
			inputs = map[string]uint64{}
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(stop); ok {
						return
					}
					failed = append(failed, fmt.Sprintf("panic:%v", e))
				}
			}()
			h()
		}()
		res, _ := json.Marshal(map[string]any{"file": f, "assumed": assumed, "failed": failed, "outs": outs})
		fmt.Println(string(res))
	}
}

var harnesses map[string]func()

func reg(name string, f func()) bool {
	if harnesses == nil {
		harnesses = map[string]func(){}
	}
	harnesses[name] = f
	return true
}
