package main

import (
	_ "embed"
	"encoding/json"
)

// The texts (rule, level, assumptions) are generated from tools/props.py.
//
//go:embed props.json
var propsJSON []byte

var checks = map[string]func(p *Prog, r *Report){
	"W01": func(p *Prog, r *Report) {
		runBreaker(p, r, "uax29", "NewWordBreaker", "UAX29Class", wordSpec)
	},
	"G01": func(p *Prog, r *Report) {
		runBreaker(p, r, "grapheme", "NewBreaker", "GraphemeClass", graphemeSpec)
	},
	"C01": runC01,
	"C02": runC02,
	"C03": runC03,
	"P01": runPublisher,
	"P02": runPool,
	"Q01": runPrioQueue,
	"B01": runBidiScanner,
	"B02": runBidiResolve,
	"B03": runBidiText,
	"A01": runShaping,
	"B04": runBidiBrackets,
	"B09": runBidiBracketTable,
	"B06": runBidiOptions,
	"B05": runBidiEnds,
	"B07": func(p *Prog, r *Report) { runBidiOrder(p, r, "order", "dir", "pure", "panic") },
	"S01": runSegmenterConserve,
	"S02": runSegmenterErrors,
	"S03": runSegmenterReinit,
	"S04": runSegmenterPolicy,
	"S05": runSimpleBreaker,
	"S06": runDeque,
	"B08": runGoroutines,
	"X01": runSharedState,
	"U02": runFirstLegal,
	"R01": runGraphemeString,
	"U01": runWidth,
}

func init() {
	var t map[string]struct {
		Rule, Level string
		Assume      []string
	}
	if err := json.Unmarshal(propsJSON, &t); err != nil {
		panic(err)
	}
	for id, f := range checks {
		x := t[id]
		propMeta[id] = &meta{rule: x.Rule, level: x.Level, assume: x.Assume, run: f}
	}
}
