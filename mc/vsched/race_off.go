//go:build !race

package vsched

// RaceBuild tells whether the race detector is on.
const RaceBuild = false

func raceErrors() int { return 0 }
