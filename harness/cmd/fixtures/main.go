// Command fixtures runs the checks of area fixtures.
package main

import (
	"verifharness/h"
	"verifharness/w/fixtures"
)

func main() { h.Main(fixtures.Props()...) }
