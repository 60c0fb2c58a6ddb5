package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"

	"github.com/sourcenetwork/zanzi/internal/zzharness"
	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

func main() {
	debug.SetMaxStack(256 << 20)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var c vx.Case
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			panic(err)
		}
		f := zzharness.Registry[c.Harness]
		if f == nil {
			panic("no harness " + c.Harness)
		}
		o := vx.Replay(&c, f)
		b, _ := json.Marshal(o)
		fmt.Printf("\nVXOUT %s\n", b)
	}
}
