//go:build !race

package core

// RaceBuild reports whether the race detector watches.
const RaceBuild = false

func raceErrors() int { return 0 }
