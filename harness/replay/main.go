// Command replay runs one harness natively on a recorded witness.
package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/bodgit/sevenzip/internal/zzverif/h"
	"github.com/bodgit/sevenzip/internal/zzverif/nd"
)

func main() {
	var r struct {
		Harness string   `json:"harness"`
		Tier    int      `json:"tier"`
		Vals    []uint64 `json:"vals"`
	}
	b, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		fmt.Println("VERIF-ERROR:", err)
		os.Exit(5)
	}
	f := h.Harnesses[r.Harness]
	if f == nil {
		fmt.Println("VERIF-ERROR: no harness", r.Harness)
		os.Exit(5)
	}
	nd.Load(r.Vals, r.Tier)
	f()
	nd.AllocEnd()
	for k := range nd.Covered() {
		fmt.Println("COVER", k)
	}
	fmt.Println("VERIF-OK")
}
