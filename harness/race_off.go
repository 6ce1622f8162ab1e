//go:build !race

package verif

const raceOn = false

func offRecord(f func()) { f() }
