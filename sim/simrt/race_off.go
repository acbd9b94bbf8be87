//go:build !race

package simrt

const RaceEnabled = false

func raceOff()                {}
func raceOn()                 {}
func raceAcquire(interface{}) {}
func raceRelease(interface{}) {}
func RaceErrors() int         { return 0 }
