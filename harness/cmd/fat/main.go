// Command fat runs the checks of area fat.
package main

import (
	"verifharness/h"
	fat "verifharness/w/fat"
)

func main() { h.Main(fat.Props()...) }
