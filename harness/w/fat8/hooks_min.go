//go:build verifmin

package fat8x

import (
	"errors"

	"github.com/dargueta/disko/file_systems/fat8"
)

// Used when the hooks that name the driver's internals do not fit the tree:
// file clusters are then reached through their absolute numbers.

type chain []fat8.PhysicalCluster

func chainOf(cs []fat8.PhysicalCluster) chain { return cs }

func readChain(d *fat8.FAT8Driver, f chain, i fat8.LogicalCluster) ([]byte, error) {
	if uint(i) >= uint(len(f)) {
		return nil, errors.New("index")
	}
	return d.ReadAbsoluteCluster(f[i])
}

func writeChain(d *fat8.FAT8Driver, f chain, i fat8.LogicalCluster, data []byte) error {
	if uint(i) >= uint(len(f)) {
		return errors.New("index")
	}
	return d.WriteAbsoluteCluster(f[i], data)
}

func freeList(*fat8.FAT8Driver) ([]uint8, bool) { return nil, false }

const hooked = false

func addFile(*fat8.FAT8Driver, string, uint, []fat8.PhysicalCluster, bool, uint) bool { return false }
