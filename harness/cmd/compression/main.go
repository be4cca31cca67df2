// Command compression runs the checks of area compression.
package main

import (
	"verifharness/h"
	compression "verifharness/w/compression"
)

func main() { h.Main(compression.Props()...) }
