// The simulator for the VST3 plugin wrapper.
package main

import (
	"vstsim/core"

	_ "vstsim/abi"
)

func main() { core.Main() }
