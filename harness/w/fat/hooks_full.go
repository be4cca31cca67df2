//go:build !verifmin

package fatx

import "github.com/dargueta/disko/file_systems/fat"

const internals = true

func newDriver(fs fat.FATDriverCommon, disk any) *fat.FATDriver {
	return fat.VerifNewFATDriver(fs, disk)
}

func listClusters(d *fat.FATDriver, c fat.ClusterID) ([]fat.ClusterID, error) {
	return d.VerifListClusters(c)
}

func readCluster(d *fat.FATDriver, c fat.ClusterID) ([]byte, error) { return d.VerifReadCluster(c) }

func readClusterOfDirent(d *fat.FATDriver, e *fat.Dirent, i uint) ([]byte, error) {
	return d.VerifReadClusterOfDirent(e, i)
}
