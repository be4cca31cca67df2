//go:build !verifmin

package fat8x

import "github.com/dargueta/disko/file_systems/fat8"

type chain = *fat8.DirectoryEntry

func chainOf(cs []fat8.PhysicalCluster) chain { return fat8.VerifDirent(cs) }

func readChain(d *fat8.FAT8Driver, f chain, i fat8.LogicalCluster) ([]byte, error) {
	return d.ReadFileCluster(f, i)
}

func writeChain(d *fat8.FAT8Driver, f chain, i fat8.LogicalCluster, data []byte) error {
	return d.WriteFileCluster(f, i, data)
}

func freeList(d *fat8.FAT8Driver) ([]uint8, bool) { return d.VerifFreeClusters(), true }

const hooked = true

func addFile(d *fat8.FAT8Driver, name string, index uint, clusters []fat8.PhysicalCluster, binary bool, unused uint) bool {
	d.VerifAddFile(name, index, clusters, binary, unused)
	return true
}
