//go:build !race

package core

const raceBuild = false

func raceOff() {}
func raceOn()  {}

func checkRaces(string) string { return "" }
