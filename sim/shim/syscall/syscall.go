package simsyscall

import (
	real_sys "syscall"

	"btrsim/simrt"
)

func errOf(e real_sys.Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

const atCWD = -100

func Flock(fd, how int) error                   { return errOf(simrt.Flock(fd, how)) }
func Fdatasync(fd int) error                    { return errOf(simrt.Fdatasync(fd)) }
func Fsync(fd int) error                        { return errOf(simrt.Fsync(fd)) }
func Close(fd int) error                        { return errOf(simrt.Close(fd)) }
func Ftruncate(fd int, n int64) error           { return errOf(simrt.Ftruncate(fd, n)) }
func Truncate(p string, n int64) error          { return errOf(simrt.Truncate(p, n)) }
func Stat(p string, st *real_sys.Stat_t) error  { return errOf(simrt.StatAt(atCWD, p, true, st)) }
func Lstat(p string, st *real_sys.Stat_t) error { return errOf(simrt.StatAt(atCWD, p, false, st)) }
func Fstat(fd int, st *real_sys.Stat_t) error   { return errOf(simrt.Fstat(fd, st)) }
func Mkdir(p string, m uint32) error            { return errOf(simrt.MkdirAt(atCWD, p, m)) }
func Mkdirat(d int, p string, m uint32) error   { return errOf(simrt.MkdirAt(d, p, m)) }
func Unlink(p string) error                     { return errOf(simrt.UnlinkAt(atCWD, p, false)) }
func Unlinkat(d int, p string) error            { return errOf(simrt.UnlinkAt(d, p, false)) }
func Rmdir(p string) error                      { return errOf(simrt.UnlinkAt(atCWD, p, true)) }
func Symlink(o, n string) error                 { return errOf(simrt.SymlinkAt(o, atCWD, n)) }
func Link(o, n string) error                    { return errOf(simrt.LinkAt(atCWD, o, atCWD, n)) }
func Rename(o, n string) error                  { return errOf(simrt.RenameAt(atCWD, o, atCWD, n, false)) }
func Renameat(od int, o string, nd int, n string) error {
	return errOf(simrt.RenameAt(od, o, nd, n, false))
}
func Chmod(p string, m uint32) error  { return errOf(simrt.ChmodAt(atCWD, p, m, true)) }
func Chown(p string, u, g int) error  { return errOf(simrt.ChownAt(atCWD, p, u, g, true)) }
func Lchown(p string, u, g int) error { return errOf(simrt.ChownAt(atCWD, p, u, g, false)) }
func Fchmod(fd int, m uint32) error {
	return errOf(simrt.Fsetattr(fd, "chmod", func(i *simrt.Inode) { simrt.SetMode(i, m) }))
}
func Fchown(fd int, u, g int) error {
	return errOf(simrt.Fsetattr(fd, "chown", func(i *simrt.Inode) {}))
}
func Futimes(fd int, tv []real_sys.Timeval) error {
	return errOf(simrt.Fsetattr(fd, "utimes", func(i *simrt.Inode) {}))
}
func UtimesNano(p string, ts []real_sys.Timespec) error {
	return errOf(simrt.UtimesAt(atCWD, p, 0, true))
}
func Utimes(p string, tv []real_sys.Timeval) error { return errOf(simrt.UtimesAt(atCWD, p, 0, true)) }
func Fallocate(fd int, mode uint32, off, n int64) error {
	return errOf(simrt.Fallocate(fd, mode, off, n))
}
func Chdir(p string) error { return errOf(simrt.Chdir(p)) }
func Open(p string, flags int, mode uint32) (int, error) {
	fd, e := simrt.Open(atCWD, p, flags, mode)
	return fd, errOf(e)
}
func Openat(d int, p string, flags int, mode uint32) (int, error) {
	fd, e := simrt.Open(d, p, flags, mode)
	return fd, errOf(e)
}
func Creat(p string, mode uint32) (int, error) {
	return Open(p, real_sys.O_CREAT|real_sys.O_WRONLY|real_sys.O_TRUNC, mode)
}
func Read(fd int, b []byte) (int, error)  { n, e := simrt.Read(fd, b); return n, errOf(e) }
func Write(fd int, b []byte) (int, error) { n, e := simrt.Write(fd, b); return n, errOf(e) }
func Pread(fd int, b []byte, off int64) (int, error) {
	n, e := simrt.Pread(fd, b, off)
	return n, errOf(e)
}
func Pwrite(fd int, b []byte, off int64) (int, error) {
	n, e := simrt.Pwrite(fd, b, off)
	return n, errOf(e)
}
func Seek(fd int, off int64, w int) (int64, error) {
	n, e := simrt.Seek(fd, off, w)
	return n, errOf(e)
}
func Dup(fd int) (int, error) { n, e := simrt.Dup(fd); return n, errOf(e) }
func Readlink(p string, b []byte) (int, error) {
	s, e := simrt.ReadlinkAt(atCWD, p)
	return copy(b, s), errOf(e)
}
func Mmap(fd int, off int64, length, prot, flags int) ([]byte, error) {
	return simrt.Mmap(fd, off, length, prot, flags)
}
func Munmap(b []byte) error                   { return simrt.Munmap(b) }
func Madvise(b []byte, a int) error           { return nil }
func Mlock(b []byte) error                    { return nil }
func Munlock(b []byte) error                  { return nil }
func Exit(code int)                           { simrt.Exit(code) }
func Getpid() int                             { return 1000 + simrt.Cur().ID }
func Getppid() int                            { return 1 }
func Getuid() int                             { return 0 }
func Geteuid() int                            { return 0 }
func Getgid() int                             { return 0 }
func Getegid() int                            { return 0 }
func Getpagesize() int                        { return 4096 }
func Sync()                                   {}
func Kill(pid int, sig real_sys.Signal) error { return KillSim(pid, sig) }

// KillSim sends a signal between simulated processes.
func KillSim(pid int, sig real_sys.Signal) error {
	simrt.Enter("kill")
	for _, p := range simrt.S.Procs {
		if 1000+p.ID == pid {
			if p.Exited {
				return real_sys.ESRCH
			}
			if sig != 0 {
				p.Signal(int(sig))
				simrt.Yield()
			}
			return nil
		}
	}
	return real_sys.ESRCH
}

func Getenv(k string) (string, bool) {
	p := simrt.Cur()
	if p == nil {
		return "", false
	}
	v, ok := p.Env[k]
	return v, ok
}

// Calls that would leave the simulation.
func Mount(source, target, fstype string, flags uintptr, data string) error { return real_sys.ENOSYS }
func Unmount(target string, flags int) error                                { return real_sys.ENOSYS }
func Chroot(p string) error                                                 { return real_sys.ENOSYS }
func Exec(a string, b, c []string) error                                    { return real_sys.ENOSYS }
func Mknod(p string, m uint32, d int) error                                 { return real_sys.ENOSYS }
func Mkfifo(p string, m uint32) error                                       { return real_sys.ENOSYS }
func Statfs(p string, b *real_sys.Statfs_t) error                           { return real_sys.ENOSYS }
func Fstatfs(fd int, b *real_sys.Statfs_t) error                            { return real_sys.ENOSYS }
func Syscall(trap, a, b, c uintptr) (uintptr, uintptr, real_sys.Errno) {
	if trap == real_sys.SYS_FDATASYNC {
		e := simrt.Fdatasync(int(a))
		return 0, 0, e
	}
	if trap == real_sys.SYS_FSYNC {
		e := simrt.Fsync(int(a))
		return 0, 0, e
	}
	return ^uintptr(0), 0, real_sys.ENOSYS
}
func Syscall6(trap, a, b, c, d, e, f uintptr) (uintptr, uintptr, real_sys.Errno) {
	return ^uintptr(0), 0, real_sys.ENOSYS
}
func RawSyscall(trap, a, b, c uintptr) (uintptr, uintptr, real_sys.Errno) {
	return ^uintptr(0), 0, real_sys.ENOSYS
}
func RawSyscall6(trap, a, b, c, d, e, f uintptr) (uintptr, uintptr, real_sys.Errno) {
	return ^uintptr(0), 0, real_sys.ENOSYS
}
