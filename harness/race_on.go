//go:build race

package verif

import "runtime"

const raceOn = true

// offRecord hides the harness's own synchronisation from the race detector,
// which would order what the library doesn't.
func offRecord(f func()) {
	runtime.RaceDisable()
	f()
	runtime.RaceEnable()
}
