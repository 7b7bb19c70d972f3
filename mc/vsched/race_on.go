//go:build race

package vsched

import "runtime"

// RaceBuild tells whether the race detector is on.
const RaceBuild = true

func raceErrors() int { return runtime.RaceErrors() }
