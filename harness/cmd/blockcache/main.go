// Command blockcache runs the checks of area blockcache.
package main

import (
	"verifharness/h"
	"verifharness/w/blockcache"
)

func main() { h.Main(blockcache.Props()...) }
