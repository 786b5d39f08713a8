module vstsim

go 1.24.3

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/justyntemme/vst3go v0.0.0
	vstrt v0.0.0
)
