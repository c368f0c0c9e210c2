package main

import (
	"verif/sim/core"
	_ "verif/sim/famwt"
)

func main() { core.Main() }
