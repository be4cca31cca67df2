// Command core runs the checks of area core.
package main

import (
	"verifharness/h"
	"verifharness/w/core"
)

func main() { h.Main(core.Props()...) }
