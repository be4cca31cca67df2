// Command driver runs the checks of area driver.
package main

import (
	"verifharness/h"
	"verifharness/w/driver"
)

func main() { h.Main(driver.Props()...) }
