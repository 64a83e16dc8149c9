//go:build verif

package main

import "github.com/cnsgfk/xbnf"

const hookBuild = true

// prepend puts chars back in front of base
func prepend(base xbnf.ICharstream, chars []rune) xbnf.ICharstream {
	return xbnf.VerifPrepend(base, chars)
}
