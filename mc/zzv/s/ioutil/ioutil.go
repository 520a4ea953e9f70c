// Package ioutil replaces io/ioutil in the instrumented tracker.
package ioutil

import (
	"github.com/crimist/trakx/zzv/s/os"
)

func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm os.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
