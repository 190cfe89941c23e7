//go:build !race

package rt

const RaceEnabled = false

func raceDisable()    {}
func raceEnable()     {}
func RaceErrors() int { return 0 }
func raceParking()    {}
func raceCollect()    {}
