module verifharness

go 1.24

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/cnsgfk/xbnf v0.0.0
)

replace github.com/cnsgfk/xbnf => /repo
