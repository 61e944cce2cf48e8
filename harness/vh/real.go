//go:build !strict
// +build !strict

package main

import "os"

const strict = false

func setup(sc *Scenario, seed int64) {}

func fsmFault(e interface{}) (string, string) { return "", "" }

func fsmCheck() {}

func fsmLive() map[int64]int { return nil }

func fsmPeek(a int64) []byte { return nil }

func fsmPrimary(n string) int64 { return -1 }

func fsmRelease() {}

func fsmRemove(n string) { os.Remove(n) }
