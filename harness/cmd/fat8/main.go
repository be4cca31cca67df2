// Command fat8 runs the checks of area fat8.
package main

import (
	"verifharness/h"
	fat8 "verifharness/w/fat8"
)

func main() { h.Main(fat8.Props()...) }
