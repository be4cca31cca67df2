//go:build verifmin

package fatx

import (
	"fmt"
	"os"
	"reflect"
	"unsafe"

	"github.com/dargueta/disko/file_systems/fat"
)

// Used when the hooks that name the driver's internals do not fit the tree:
// only the public operations are judged then.
const internals = false

// newDriver puts the table and the disk into the fields that can hold them.
func newDriver(fs fat.FATDriverCommon, disk any) *fat.FATDriver {
	d := new(fat.FATDriver)
	v := reflect.ValueOf(d).Elem()
	n := 0
	for i := 0; i < v.NumField(); i++ {
		f := reflect.NewAt(v.Field(i).Type(), unsafe.Pointer(v.Field(i).UnsafeAddr())).Elem()
		if f.Kind() != reflect.Interface {
			continue
		}
		x := disk
		if f.Type() == reflect.TypeOf((*fat.FATDriverCommon)(nil)).Elem() {
			x = fs
		}
		if reflect.TypeOf(x).Implements(f.Type()) {
			f.Set(reflect.ValueOf(x))
			n++
		}
	}
	if n != 2 {
		fmt.Fprintln(os.Stderr, "the driver cannot be put together without hooks")
		os.Exit(3)
	}
	return d
}

func listClusters(*fat.FATDriver, fat.ClusterID) ([]fat.ClusterID, error) { panic("no hook") }

func readCluster(*fat.FATDriver, fat.ClusterID) ([]byte, error) { panic("no hook") }

func readClusterOfDirent(*fat.FATDriver, *fat.Dirent, uint) ([]byte, error) { panic("no hook") }
