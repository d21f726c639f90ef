package vsym

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"time"
)

// Main is the replay driver: it runs the recorded items one after another.
func Main(reg map[string]func()) {
	var items []struct {
		Harness string     `json:"harness"`
		Inputs  []InputVal `json:"inputs"`
		Sched   []int      `json:"sched"`
	}
	b, err := os.ReadFile(os.Getenv("VSYM_REPLAY"))
	if err == nil {
		err = json.Unmarshal(b, &items)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	n, _ := strconv.Atoi(os.Getenv("VSYM_TIMEOUT"))
	if n == 0 {
		n = 20
	}
	out := os.Stdout
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	for _, it := range items {
		f := reg[it.Harness]
		r := Result{Status: "error", Msg: "unknown harness"}
		if f != nil {
			r = Run(f, it.Inputs, it.Sched, time.Duration(n)*time.Second)
		}
		o, _ := json.Marshal(r)
		fmt.Fprintf(out, "VSYM-RESULT %s\n", o)
	}
	os.Exit(0)
}
