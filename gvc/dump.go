package main

// Tables of the ghost automata, for running the spec concretely next to the real code.

import (
	"encoding/json"
	"os"
)

type jState struct {
	To   [256]int       `json:"to"`   // next state or -1
	Cls  [256]int       `json:"cls"`  // error rule when To is -1
	Sel  [256]int       `json:"sel"`  // index into Regs
	Regs [][]int        `json:"regs"` // register moves per successor
	Acc  bool           `json:"acc"`
	Tags map[string]int `json:"tags"`
	Eof  int            `json:"eof"`  // error rule at the end of input
	Word []byte         `json:"word"` // a shortest text that leads here
}
type jErr struct {
	Text string `json:"text"`
	Off  int    `json:"off"`
}
type jMode struct {
	Name   string   `json:"name"`
	States []jState `json:"states"`
	Errs   []jErr   `json:"errs"`
	Cover  []string `json:"cover"`
}

func dumpSpec(modes []*ModeSpec, file string) error {
	var out []jMode
	for _, m := range modes {
		jm := jMode{Name: m.Name}
		for _, e := range m.Errs {
			jm.Errs = append(jm.Errs, jErr{e.Text, e.Off})
		}
		for _, s := range m.g.states {
			js := jState{Regs: [][]int{}}
			for i := range s.succ {
				sc := &s.succ[i]
				js.Regs = append(js.Regs, sc.regs)
				for b := 0; b < 256; b++ {
					if sc.set.has(byte(b)) {
						js.Sel[b] = i
						if sc.to != nil {
							js.To[b] = sc.to.id
						} else {
							js.To[b] = -1
							js.Cls[b] = sc.cls
						}
					}
				}
			}
			js.Acc = s.eof.acc
			js.Tags = s.eof.tags
			js.Eof = s.eof.cls
			js.Word = s.word
			jm.States = append(jm.States, js)
		}
		out = append(out, jm)
	}
	b, err := json.Marshal(out)
	if err != nil {
		return err
	}
	return os.WriteFile(file, b, 0o644)
}
