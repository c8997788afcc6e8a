// Package rubi_snapshot is a stand-in for the generated Rubi snapshot that is
// missing from the repository. It exists only inside the build overlay.
package rubi_snapshot

import "fmt"

func Asset(name string) ([]byte, error) {
	return nil, fmt.Errorf("Asset %s not found", name)
}
