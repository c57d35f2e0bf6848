// Command vc runs one check.
package main

import (
	_ "verif/mc/checks"
	"verif/mc/core"
)

func main() { core.Main() }
