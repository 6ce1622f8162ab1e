//go:build !race

package vsync

func hide()          {}
func show()          {}
func acq(*byte)      {}
func rel(*byte)      {}
func relMerge(*byte) {}
