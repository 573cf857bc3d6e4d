// replay runs harnesses natively on given inputs. One JSON job per line in,
// one JSON outcome per line out.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sort"

	"verif/harness/props"
	"verif/harness/sym"
)

type job struct {
	Harness string         `json:"harness"`
	Inputs  map[string]any `json:"inputs"`
	Sched   []int          `json:"sched"`
	Tier    int            `json:"tier"`
	Words   []string       `json:"words"`
	Repeat  int            `json:"repeat"`
	Until   string         `json:"until"` // stop repeating at this assertion
}

type outcome struct {
	Status string    `json:"status"` // ok assert assume panic
	Label  string    `json:"label"`
	Panic  string    `json:"panic"`
	Covers []string  `json:"covers"`
	Obs    []sym.Obs `json:"obs"`
}

func main() {
	log := os.Stdout
	os.Stdout = os.Stderr
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(log)
	enc := json.NewEncoder(w)
	for {
		line, err := rd.ReadBytes('\n')
		if err != nil {
			return
		}
		var j job
		if err := json.Unmarshal(line, &j); err != nil {
			panic(err)
		}
		f := props.All[j.Harness]
		if f == nil {
			panic("no harness " + j.Harness)
		}
		var o outcome
		for k := 0; k <= j.Repeat; k++ {
			r := &sym.Run{Inputs: j.Inputs, Tier: j.Tier, Words: j.Words, Sched: j.Sched}
			p := sym.Exec(r, f)
			o = outcome{Status: "ok", Label: r.Label, Obs: r.Obs}
			if r.Status != "" {
				o.Status = r.Status
			}
			if p != "" {
				o.Status, o.Panic = "panic", p
			}
			for c := range r.Covers {
				o.Covers = append(o.Covers, c)
			}
			sort.Strings(o.Covers)
			if (o.Status == "assert" || o.Status == "panic") && (j.Until == "" || j.Until == o.Label || o.Status == "panic") {
				break
			}
		}
		if err := enc.Encode(&o); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		w.Flush()
	}
}
