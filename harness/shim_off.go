//go:build !verif

package main

import "github.com/cnsgfk/xbnf"

const hookBuild = false

// prepend is not available without the hook
func prepend(base xbnf.ICharstream, chars []rune) xbnf.ICharstream { return nil }
