package simfilepath

import (
	"io/fs"
	real_fp "path/filepath"
	"syscall"

	os "btrsim/shim/os"
)

func Abs(p string) (string, error) {
	if real_fp.IsAbs(p) {
		return real_fp.Clean(p), nil
	}
	wd, err := os.Getwd()
	return real_fp.Join(wd, p), err
}

func Glob(pattern string) ([]string, error) { return nil, nil }

func walk(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == real_fp.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	l, err := os.ReadDir(path)
	if err != nil {
		err = fn(path, d, err)
		if err != nil {
			if err == real_fp.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range l {
		if err := walk(real_fp.Join(path, e.Name()), e, fn); err != nil {
			if err == real_fp.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	fi, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(fi), fn)
	}
	if err == real_fp.SkipDir || err == real_fp.SkipAll {
		return nil
	}
	return err
}

func Walk(root string, fn real_fp.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		fi, _ := d.Info()
		return fn(p, fi, err)
	})
}

func EvalSymlinks(p string) (string, error) {
	links := 0
	out := ""
	if real_fp.IsAbs(p) {
		out = "/"
	}
	rest := p
	for rest != "" {
		i := 0
		for i < len(rest) && rest[i] == '/' {
			i++
		}
		rest = rest[i:]
		j := 0
		for j < len(rest) && rest[j] != '/' {
			j++
		}
		c := rest[:j]
		rest = rest[j:]
		if c == "" || c == "." {
			continue
		}
		if c == ".." {
			out = real_fp.Join(out, "..")
			continue
		}
		next := real_fp.Join(out, c)
		fi, err := os.Lstat(next)
		if err != nil {
			return "", err
		}
		if fi.Mode()&fs.ModeSymlink == 0 {
			out = next
			continue
		}
		if links++; links > 255 {
			return "", &fs.PathError{Op: "lstat", Path: p, Err: syscall.ELOOP}
		}
		t, err := os.Readlink(next)
		if err != nil {
			return "", err
		}
		if real_fp.IsAbs(t) {
			out = "/"
		}
		rest = t + rest
	}
	if out == "" {
		out = "."
	}
	return real_fp.Clean(out), nil
}
