// Command iso simulates hosts driving the signal processors of pkg/dsp on several threads, with a yield point before every statement.
package main

import (
	"vstsim/core"
	_ "vstsim/dsp"
)

func main() { core.Main() }
