// Command dsp simulates hosts driving the signal processors of pkg/dsp.
package main

import (
	"vstsim/core"
	_ "vstsim/dsp"
)

func main() { core.Main() }
