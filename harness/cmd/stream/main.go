// Command stream runs the checks of area stream.
package main

import (
	"verifharness/h"
	"verifharness/w/stream"
)

func main() { h.Main(stream.Props()...) }
