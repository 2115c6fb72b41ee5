// Package vb holds the configuration and event log of the stand-ins.
package vb

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"
)

// C is the scenario.
var C struct {
	Keys     []uint32
	Fail     []int
	InitFail bool
	ConnFail int
	DelayUs  int
	Cost     [2][]int64 // nanoseconds per query, cyclic
}
var f *os.File
var mu sync.Mutex

func init() {
	if err := json.Unmarshal([]byte(os.Getenv("VB_CFG")), &C); err != nil {
		panic(err)
	}
	var err error
	if f, err = os.OpenFile(os.Getenv("VB_LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err != nil {
		panic(err)
	}
}

// Log records an event.
func Log(s string, a ...interface{}) {
	mu.Lock()
	defer mu.Unlock()
	fmt.Fprintf(f, s+"\n", a...)
}
