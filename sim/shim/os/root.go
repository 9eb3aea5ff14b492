package simos

import (
	"io/fs"
	"strings"
	"syscall"
	"time"

	"btrsim/simrt"
)

type dirFS string

func (d dirFS) path(op, name string) (string, error) {
	if !fs.ValidPath(name) {
		return "", perr(op, name, syscall.EINVAL)
	}
	return string(d) + "/" + name, nil
}

func (d dirFS) Open(name string) (fs.File, error) {
	p, err := d.path("open", name)
	if err != nil {
		return nil, err
	}
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func (d dirFS) ReadDir(name string) ([]DirEntry, error) {
	p, err := d.path("readdir", name)
	if err != nil {
		return nil, err
	}
	return ReadDir(p)
}

func (d dirFS) ReadFile(name string) ([]byte, error) {
	p, err := d.path("readfile", name)
	if err != nil {
		return nil, err
	}
	return ReadFile(p)
}

func (d dirFS) Stat(name string) (FileInfo, error) {
	p, err := d.path("stat", name)
	if err != nil {
		return nil, err
	}
	return Stat(p)
}

// Root is os.Root by path; others must not move its directory.
type Root struct {
	dir, name string
	closed    bool
}

type escapes struct{}

func (escapes) Error() string { return "path escapes from parent" }

func OpenRoot(name string) (*Root, error) {
	fi, err := Stat(name)
	if err != nil {
		return nil, perr0("open", name, err.(*PathError).Err)
	}
	if !fi.IsDir() {
		return nil, perr("open", name, syscall.ENOTDIR)
	}
	dir := name
	if !strings.HasPrefix(dir, "/") {
		dir = simrt.Cur().CwdPath + "/" + dir
	}
	return &Root{dir: dir, name: name}, nil
}

func OpenInRoot(dir, name string) (*File, error) {
	r, err := OpenRoot(dir)
	if err != nil {
		return nil, err
	}
	return r.Open(name)
}

// at resolves a name. The last component is only resolved if follow is set.
func (r *Root) at(op, name string, follow bool) (string, error) {
	fail := func(err error) (string, error) { return "", perr0(op, name, err) }
	if r.closed {
		return fail(ErrClosed)
	}
	if name == "" {
		return fail(syscall.ENOENT)
	}
	if name[0] == '/' {
		return fail(escapes{})
	}
	todo := strings.Split(name, "/")
	var done []string
	for links := 0; len(todo) > 0; {
		c := todo[0]
		todo = todo[1:]
		switch c {
		case "", ".":
			continue
		case "..":
			if len(done) == 0 {
				return fail(escapes{})
			}
			done = done[:len(done)-1]
			continue
		}
		p := r.dir + "/" + strings.Join(append(done[:len(done):len(done)], c), "/")
		fi, err := Lstat(p)
		if err == nil && fi.Mode()&ModeSymlink != 0 && (follow || len(todo) > 0) {
			to, err := Readlink(p)
			if err != nil {
				return fail(err.(*PathError).Err)
			}
			if links++; links > 255 {
				return fail(syscall.ELOOP)
			}
			if strings.HasPrefix(to, "/") {
				return fail(escapes{})
			}
			todo = append(strings.Split(to, "/"), todo...)
			continue
		}
		if len(todo) > 0 {
			if err != nil {
				return fail(err.(*PathError).Err)
			}
			if !fi.IsDir() {
				return fail(syscall.ENOTDIR)
			}
		}
		done = append(done, c)
	}
	return r.dir + "/" + strings.Join(done, "/"), nil
}

func (r *Root) Name() string { return r.name }
func (r *Root) Close() error { r.closed = true; return nil }
func (r *Root) FS() fs.FS    { return dirFS(r.dir) }

func (r *Root) Open(name string) (*File, error) { return r.OpenFile(name, O_RDONLY, 0) }
func (r *Root) Create(name string) (*File, error) {
	return r.OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666)
}
func (r *Root) OpenFile(name string, flag int, perm FileMode) (*File, error) {
	p, err := r.at("openat", name, flag&O_EXCL == 0)
	if err != nil {
		return nil, err
	}
	return OpenFile(p, flag, perm)
}
func (r *Root) OpenRoot(name string) (*Root, error) {
	p, err := r.at("openat", name, true)
	if err != nil {
		return nil, err
	}
	return OpenRoot(p)
}
func (r *Root) Stat(name string) (FileInfo, error) {
	p, err := r.at("statat", name, true)
	if err != nil {
		return nil, err
	}
	return Stat(p)
}
func (r *Root) Lstat(name string) (FileInfo, error) {
	p, err := r.at("lstatat", name, false)
	if err != nil {
		return nil, err
	}
	return Lstat(p)
}
func (r *Root) do(op, name string, follow bool, fn func(string) error) error {
	p, err := r.at(op, name, follow)
	if err != nil {
		return err
	}
	return fn(p)
}
func (r *Root) Mkdir(name string, perm FileMode) error {
	return r.do("mkdirat", name, false, func(p string) error { return Mkdir(p, perm) })
}
func (r *Root) MkdirAll(name string, perm FileMode) error {
	l := strings.Split(name, "/")
	for i := range l {
		n := strings.Join(l[:i+1], "/")
		if err := r.Mkdir(n, perm); err != nil {
			if fi, e := r.Stat(n); e != nil || !fi.IsDir() {
				return err
			}
		}
	}
	return nil
}
func (r *Root) Remove(name string) error    { return r.do("unlinkat", name, false, Remove) }
func (r *Root) RemoveAll(name string) error { return r.do("removeall", name, false, RemoveAll) }
func (r *Root) Chmod(name string, m FileMode) error {
	return r.do("chmodat", name, true, func(p string) error { return Chmod(p, m) })
}
func (r *Root) Chown(name string, u, g int) error {
	return r.do("chownat", name, true, func(p string) error { return Chown(p, u, g) })
}
func (r *Root) Lchown(name string, u, g int) error {
	return r.do("lchownat", name, false, func(p string) error { return Lchown(p, u, g) })
}
func (r *Root) Chtimes(name string, a, m time.Time) error {
	return r.do("chtimesat", name, true, func(p string) error { return Chtimes(p, a, m) })
}
func (r *Root) Symlink(o, n string) error {
	return r.do("symlinkat", n, false, func(p string) error { return Symlink(o, p) })
}
func (r *Root) Readlink(name string) (to string, err error) {
	err = r.do("readlinkat", name, false, func(p string) (err error) { to, err = Readlink(p); return })
	return
}
func (r *Root) Link(o, n string) error {
	return r.do("linkat", o, false, func(p string) error {
		return r.do("linkat", n, false, func(q string) error { return Link(p, q) })
	})
}
func (r *Root) Rename(o, n string) error {
	return r.do("renameat", o, false, func(p string) error {
		return r.do("renameat", n, false, func(q string) error { return Rename(p, q) })
	})
}
func (r *Root) ReadFile(name string) (b []byte, err error) {
	err = r.do("openat", name, true, func(p string) (err error) { b, err = ReadFile(p); return })
	return
}
func (r *Root) WriteFile(name string, data []byte, perm FileMode) error {
	return r.do("openat", name, true, func(p string) error { return WriteFile(p, data, perm) })
}
