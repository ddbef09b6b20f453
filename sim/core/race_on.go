//go:build race

package core

import "runtime"

// RaceBuild reports whether the race detector watches.
const RaceBuild = true

func raceErrors() int { return runtime.RaceErrors() }
