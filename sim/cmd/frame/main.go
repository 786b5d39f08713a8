// Command frame simulates the framework packages: parameters, registries,
// state, MIDI queue, process context, smoothers, voices.
package main

import (
	"vstsim/core"
	_ "vstsim/frame"
)

func main() { core.Main() }
