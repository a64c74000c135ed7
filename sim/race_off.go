//go:build !race

package sim

const raceBuild = false

func raceErrors() int { return 0 }
func raceOff()        {}
func raceOn()         {}
func raceIn()         {}
func raceOut()        {}
