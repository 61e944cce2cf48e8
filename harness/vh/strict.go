//go:build strict
// +build strict

package main

import (
	"runtime/debug"

	"github.com/roy2220/fsm"
)

const strict = true

func setup(sc *Scenario, seed int64) {
	fsm.Cfg = fsm.Config{Seed: seed, Protect: sc.Protect, Low: sc.Low}
	if sc.Protect {
		debug.SetPanicOnFault(true)
	}
}

func fsmFault(e interface{}) (string, string) {
	if f, ok := e.(*fsm.Fault); ok {
		return f.Kind, f.Msg
	}
	return "", ""
}

func fsmCheck() { fsm.Last.CheckStale() }

func fsmLive() map[int64]int { return fsm.Last.Live() }

func fsmPeek(a int64) []byte { return fsm.Last.Peek(a) }

func fsmPrimary(n string) int64 { var f fsm.FileStorage; f.Init(); f.Open(n, false); return f.PrimarySpace() }

func fsmRelease() {
	if fsm.Last != nil {
		fsm.Last.Release()
	}
}

func fsmRemove(n string) { fsm.RemoveFile(n) }
