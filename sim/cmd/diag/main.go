// Command diag simulates the diagnostics packages: meters and analysers,
// profiler, logger, debug buffers.
package main

import (
	"vstsim/core"
	_ "vstsim/diag"
)

func main() { core.Main() }
