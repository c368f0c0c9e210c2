package main

import (
	"verif/sim/core"
	_ "verif/sim/fam"
)

func main() { core.Main() }
