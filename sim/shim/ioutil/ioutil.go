package simioutil

import (
	"io"
	"io/fs"

	os "btrsim/shim/os"
)

func ReadFile(name string) ([]byte, error)                    { return os.ReadFile(name) }
func WriteFile(name string, b []byte, perm fs.FileMode) error { return os.WriteFile(name, b, perm) }
func TempFile(dir, pattern string) (*os.File, error)          { return os.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)             { return os.MkdirTemp(dir, pattern) }
func ReadAll(r io.Reader) ([]byte, error)                     { return io.ReadAll(r) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	l, err := os.ReadDir(name)
	var r []fs.FileInfo
	for _, d := range l {
		if fi, e := d.Info(); e == nil {
			r = append(r, fi)
		}
	}
	return r, err
}
