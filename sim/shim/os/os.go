// Package simos is os on the simulated machine.
package simos

import (
	"errors"
	"io"
	"io/fs"
	real_os "os"
	"path/filepath"
	"runtime"
	"sort"
	"syscall"
	"time"

	"btrsim/simrt"
)

var Args = real_os.Args

type File struct {
	fd     int
	name   string
	closed bool
	append bool
	nb     bool
}

var (
	Stdin  = &File{fd: 0, name: "/dev/stdin"}
	Stdout = &File{fd: 1, name: "/dev/stdout"}
	Stderr = &File{fd: 2, name: "/dev/stderr"}
)

func init() {
	_ = runtime.GOOS
	simrt.ArgPtrs = append(simrt.ArgPtrs, &Args)
}

func NewFile(fd uintptr, name string) *File { return &File{fd: int(fd), name: name} }

func errOf(e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

func perr(op, path string, e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return &PathError{Op: op, Path: path, Err: e}
}

func lerr(op, o, n string, e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return &LinkError{Op: op, Old: o, New: n, Err: e}
}

// eintr retries an operation the way package os does.
func eintr(fn func() syscall.Errno) syscall.Errno {
	for {
		if e := fn(); e != syscall.EINTR {
			return e
		}
	}
}

const atCWD = -100

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func sysMode(m FileMode) uint32 {
	o := uint32(m.Perm())
	if m&ModeSetuid != 0 {
		o |= syscall.S_ISUID
	}
	if m&ModeSetgid != 0 {
		o |= syscall.S_ISGID
	}
	if m&ModeSticky != 0 {
		o |= syscall.S_ISVTX
	}
	return o
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	var fd int
	e := eintr(func() (e syscall.Errno) {
		fd, e = simrt.Open(atCWD, name, flag, sysMode(perm))
		return
	})
	if e != 0 {
		return nil, perr("open", name, e)
	}
	return &File{fd: fd, name: name, append: flag&O_APPEND != 0}, nil
}

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &PathError{Op: op, Path: f.name, Err: ErrClosed}
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f == nil || f.closed {
		return ^uintptr(0)
	}
	return uintptr(f.fd)
}

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &PathError{Op: "close", Path: f.name, Err: ErrClosed}
	}
	f.closed = true
	return perr("close", f.name, simrt.Close(f.fd))
}

const maxRW = 1 << 30

func (f *File) pread(b []byte, off int64) (n int, e syscall.Errno) {
	if len(b) > maxRW {
		b = b[:maxRW]
	}
	e = eintr(func() (e syscall.Errno) { n, e = simrt.Pread(f.fd, b, off); return })
	return
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(b) > maxRW {
		b = b[:maxRW]
	}
	var n int
	e := eintr(func() (e syscall.Errno) { n, e = simrt.Read(f.fd, b); return })
	if e != 0 {
		return 0, perr("read", f.name, e)
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (n int, err error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, &PathError{Op: "readat", Path: f.name, Err: errors.New("negative offset")}
	}
	for len(b) > 0 {
		m, e := f.pread(b, off)
		if e != 0 {
			err = perr("read", f.name, e)
			break
		}
		if m == 0 {
			return n, io.EOF
		}
		n += m
		b = b[m:]
		off += int64(m)
	}
	return
}

func (f *File) Write(b []byte) (n int, err error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	for {
		c := b[n:]
		if len(c) > maxRW {
			c = c[:maxRW]
		}
		var m int
		e := eintr(func() (e syscall.Errno) { m, e = simrt.Write(f.fd, c); return })
		if m > 0 {
			n += m
		}
		if n == len(b) && e == 0 {
			return n, nil
		}
		if e != 0 {
			return n, perr("write", f.name, e)
		}
		if m == 0 {
			return n, perr0("write", f.name, io.ErrUnexpectedEOF)
		}
	}
}

func perr0(op, name string, err error) error { return &PathError{Op: op, Path: name, Err: err} }

func (f *File) WriteAt(b []byte, off int64) (n int, err error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.append {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	if off < 0 {
		return 0, perr0("writeat", f.name, errors.New("negative offset"))
	}
	for len(b) > 0 {
		c := b
		if len(c) > maxRW {
			c = c[:maxRW]
		}
		var m int
		e := eintr(func() (e syscall.Errno) { m, e = simrt.Pwrite(f.fd, c, off); return })
		if e != 0 {
			err = perr("write", f.name, e)
			break
		}
		n += m
		b = b[m:]
		off += int64(m)
	}
	return
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return io.Copy(wonly{f}, r)
}

type wonly struct{ io.Writer }
type ronly struct{ io.Reader }

func (f *File) WriteTo(w io.Writer) (int64, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	return io.Copy(w, ronly{f})
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	p, e := simrt.Seek(f.fd, off, whence)
	if e != 0 {
		return 0, perr("seek", f.name, e)
	}
	return p, nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	return perr("truncate", f.name, eintr(func() syscall.Errno { return simrt.Ftruncate(f.fd, size) }))
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	return perr("sync", f.name, eintr(func() syscall.Errno { return simrt.Fsync(f.fd) }))
}

func (f *File) Chmod(m FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	return perr("chmod", f.name, simrt.Fsetattr(f.fd, "chmod", func(i *simrt.Inode) { simrt.SetMode(i, sysMode(m)) }))
}

func (f *File) Chown(uid, gid int) error {
	if err := f.check("chown"); err != nil {
		return err
	}
	return perr("chown", f.name, simrt.Fsetattr(f.fd, "chown", func(i *simrt.Inode) {}))
}

func (f *File) Chdir() error                       { return perr("chdir", f.name, syscall.ENOSYS) }
func (f *File) SetDeadline(t time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return ErrNoDeadline }
func (f *File) SyscallConn() (syscall.RawConn, error) {
	return nil, perr("syscallconn", f.name, syscall.ENOSYS)
}

// ------------------------------------------------------------- stat

type fileStat struct {
	name string
	st   syscall.Stat_t
}

func (s *fileStat) Name() string       { return s.name }
func (s *fileStat) Size() int64        { return s.st.Size }
func (s *fileStat) ModTime() time.Time { return time.Unix(s.st.Mtim.Unix()) }
func (s *fileStat) IsDir() bool        { return s.Mode().IsDir() }
func (s *fileStat) Sys() interface{}   { return &s.st }
func (s *fileStat) Mode() FileMode     { return goMode(s.st.Mode) }

func goMode(m uint32) FileMode {
	r := FileMode(m & 0777)
	switch m & syscall.S_IFMT {
	case syscall.S_IFBLK:
		r |= ModeDevice
	case syscall.S_IFCHR:
		r |= ModeDevice | ModeCharDevice
	case syscall.S_IFDIR:
		r |= ModeDir
	case syscall.S_IFIFO:
		r |= ModeNamedPipe
	case syscall.S_IFLNK:
		r |= ModeSymlink
	case syscall.S_IFSOCK:
		r |= ModeSocket
	}
	if m&syscall.S_ISGID != 0 {
		r |= ModeSetgid
	}
	if m&syscall.S_ISUID != 0 {
		r |= ModeSetuid
	}
	if m&syscall.S_ISVTX != 0 {
		r |= ModeSticky
	}
	return r
}

func basename(name string) string {
	for len(name) > 1 && name[len(name)-1] == '/' {
		name = name[:len(name)-1]
	}
	for i := len(name) - 1; i >= 0; i-- {
		if name[i] == '/' && i+1 < len(name) {
			return name[i+1:]
		}
	}
	return name
}

func stat(op, name string, follow bool) (FileInfo, error) {
	s := &fileStat{name: basename(name)}
	if e := eintr(func() syscall.Errno { return simrt.StatAt(atCWD, name, follow, &s.st) }); e != 0 {
		return nil, perr(op, name, e)
	}
	return s, nil
}

func Stat(name string) (FileInfo, error)  { return stat("stat", name, true) }
func Lstat(name string) (FileInfo, error) { return stat("lstat", name, false) }

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	s := &fileStat{name: basename(f.name)}
	if e := simrt.Fstat(f.fd, &s.st); e != 0 {
		return nil, perr("stat", f.name, e)
	}
	return s, nil
}

func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(*fileStat)
	y, ok2 := b.(*fileStat)
	return ok1 && ok2 && x.st.Dev == y.st.Dev && x.st.Ino == y.st.Ino
}

// ------------------------------------------------------------- directories

type dirEntry struct {
	dir  string
	name string
	st   syscall.Stat_t
}

func (d *dirEntry) Name() string            { return d.name }
func (d *dirEntry) IsDir() bool             { return d.Type().IsDir() }
func (d *dirEntry) Type() FileMode          { return goMode(d.st.Mode).Type() }
func (d *dirEntry) Info() (FileInfo, error) { return Lstat(d.dir + "/" + d.name) }
func (d *dirEntry) String() string          { return fs.FormatDirEntry(d) }

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	l, e := simrt.Getdents(f.fd, n)
	if e != 0 {
		return nil, perr("readdirent", f.name, e)
	}
	var r []DirEntry
	for _, d := range l {
		de := &dirEntry{dir: f.name, name: d.Name}
		de.st.Mode = d.Ino.Mode
		r = append(r, de)
	}
	if n > 0 && len(r) == 0 {
		return nil, io.EOF
	}
	return r, nil
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	l, err := f.ReadDir(n)
	var r []FileInfo
	for _, d := range l {
		fi, e := d.Info()
		if e == nil {
			r = append(r, fi)
		}
	}
	return r, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.ReadDir(n)
	var r []string
	for _, d := range l {
		r = append(r, d.Name())
	}
	return r, err
}

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	l, err := f.ReadDir(-1)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, err
}

func Mkdir(name string, perm FileMode) error {
	return perr("mkdir", name, eintr(func() syscall.Errno { return simrt.MkdirAt(atCWD, name, sysMode(perm)) }))
}

func MkdirAll(path string, perm FileMode) error {
	dir, err := Stat(path)
	if err == nil {
		if dir.IsDir() {
			return nil
		}
		return &PathError{Op: "mkdir", Path: path, Err: syscall.ENOTDIR}
	}
	i := len(path)
	for i > 0 && path[i-1] == '/' {
		i--
	}
	j := i
	for j > 0 && path[j-1] != '/' {
		j--
	}
	if j > 1 {
		if err = MkdirAll(path[:j-1], perm); err != nil {
			return err
		}
	}
	err = Mkdir(path, perm)
	if err != nil {
		dir, err1 := Lstat(path)
		if err1 == nil && dir.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func Remove(name string) error {
	e := eintr(func() syscall.Errno { return simrt.UnlinkAt(atCWD, name, false) })
	if e == 0 {
		return nil
	}
	e1 := eintr(func() syscall.Errno { return simrt.UnlinkAt(atCWD, name, true) })
	if e1 == 0 {
		return nil
	}
	if e1 != syscall.ENOTDIR {
		e = e1
	}
	return perr("remove", name, e)
}

func RemoveAll(path string) error {
	if path == "" {
		return nil
	}
	if len(path) >= 1 && path[len(path)-1] == '.' && basename(path) == "." {
		return perr("RemoveAll", path, syscall.EINVAL)
	}
	err := Remove(path)
	if err == nil || IsNotExist(err) {
		return nil
	}
	fi, serr := Lstat(path)
	if serr != nil {
		if IsNotExist(serr) {
			return nil
		}
		return serr
	}
	if !fi.IsDir() {
		return err
	}
	l, err := ReadDir(path)
	if err != nil {
		return err
	}
	for _, d := range l {
		if e := RemoveAll(path + "/" + d.Name()); e != nil {
			return e
		}
	}
	return Remove(path)
}

func Rename(o, n string) error {
	// Package os refuses to replace a directory.
	if fi, err := Lstat(n); err == nil && fi.IsDir() {
		if _, err := Lstat(o); err != nil {
			return &LinkError{"rename", o, n, errors.Unwrap(err)}
		}
		if fo, err := Lstat(o); err == nil && (!SameFile(fi, fo) || o == n) && !(o == n) {
			return &LinkError{"rename", o, n, syscall.EEXIST}
		}
	}
	return lerr("rename", o, n, eintr(func() syscall.Errno { return simrt.RenameAt(atCWD, o, atCWD, n, false) }))
}

func Symlink(o, n string) error {
	return lerr("symlink", o, n, eintr(func() syscall.Errno { return simrt.SymlinkAt(o, atCWD, n) }))
}

func Link(o, n string) error {
	return lerr("link", o, n, eintr(func() syscall.Errno { return simrt.LinkAt(atCWD, o, atCWD, n) }))
}

func Readlink(name string) (string, error) {
	s, e := simrt.ReadlinkAt(atCWD, name)
	if e != 0 {
		return "", perr("readlink", name, e)
	}
	return s, nil
}

func Truncate(name string, size int64) error {
	return perr("truncate", name, eintr(func() syscall.Errno { return simrt.Truncate(name, size) }))
}

func Chmod(name string, m FileMode) error {
	return perr("chmod", name, simrt.ChmodAt(atCWD, name, sysMode(m), true))
}
func Chown(name string, u, g int) error {
	return perr("chown", name, simrt.ChownAt(atCWD, name, u, g, true))
}
func Lchown(name string, u, g int) error {
	return perr("lchown", name, simrt.ChownAt(atCWD, name, u, g, false))
}
func Chtimes(name string, a, m time.Time) error {
	return perr("chtimes", name, simrt.UtimesAt(atCWD, name, m.UnixNano(), true))
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

var tmpN int

func tmpName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	tmpN++
	pre, suf := pattern, ""
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			pre, suf = pattern[:i], pattern[i+1:]
			break
		}
	}
	return filepath.Join(dir, pre) + itoa(int(simrt.NowNS()%1000000007)) + itoa(tmpN) + suf
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return s
}

func TempDir() string { return "/tmp" }

func CreateTemp(dir, pattern string) (*File, error) {
	for i := 0; ; i++ {
		n := tmpName(dir, pattern)
		f, err := OpenFile(n, O_RDWR|O_CREATE|O_EXCL, 0600)
		if err != nil && IsExist(err) && i < 1000 {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	for i := 0; ; i++ {
		n := tmpName(dir, pattern)
		err := Mkdir(n, 0700)
		if err == nil {
			return n, nil
		}
		if !IsExist(err) || i > 1000 {
			return "", err
		}
	}
}

// ------------------------------------------------------------- process

func Exit(code int) { simrt.Exit(code) }

func Getenv(k string) string {
	v, _ := LookupEnv(k)
	return v
}

func LookupEnv(k string) (string, bool) {
	p := simrt.Cur()
	if p == nil {
		return "", false
	}
	v, ok := p.Env[k]
	return v, ok
}

func Setenv(k, v string) error {
	if p := simrt.Cur(); p != nil {
		p.Env[k] = v
	}
	return nil
}

func Unsetenv(k string) error {
	if p := simrt.Cur(); p != nil {
		delete(p.Env, k)
	}
	return nil
}

func Clearenv() {
	if p := simrt.Cur(); p != nil {
		p.Env = map[string]string{}
	}
}

func Environ() []string {
	p := simrt.Cur()
	if p == nil {
		return nil
	}
	var l []string
	for k, v := range p.Env {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return l
}

func ExpandEnv(s string) string { return real_os.Expand(s, Getenv) }

func Getwd() (string, error) {
	p := simrt.Cur()
	if p == nil {
		return "/", nil
	}
	return p.CwdPath, nil
}

func Chdir(dir string) error                        { return perr("chdir", dir, simrt.Chdir(dir)) }
func Getpid() int                                   { return 1000 + simrt.Cur().ID }
func Getppid() int                                  { return 1 }
func Getuid() int                                   { return 0 }
func Geteuid() int                                  { return 0 }
func Getgid() int                                   { return 0 }
func Getegid() int                                  { return 0 }
func Getgroups() ([]int, error)                     { return []int{0}, nil }
func Getpagesize() int                              { return 4096 }
func Hostname() (string, error)                     { return "sim", nil }
func Executable() (string, error)                   { return "/bin/btrfscue", nil }
func UserHomeDir() (string, error)                  { return "/root", nil }
func UserCacheDir() (string, error)                 { return "/root/.cache", nil }
func UserConfigDir() (string, error)                { return "/root/.config", nil }
func Pipe() (*File, *File, error)                   { return nil, nil, syscall.ENOSYS }
func DirFS(dir string) fs.FS                        { return dirFS(dir) }
func CopyFS(dir string, f fs.FS) error              { return syscall.ENOSYS }
func FindProcess(pid int) (*real_os.Process, error) { return nil, syscall.ENOSYS }
func StartProcess(name string, argv []string, a *real_os.ProcAttr) (*real_os.Process, error) {
	return nil, perr("fork/exec", name, syscall.ENOSYS)
}
