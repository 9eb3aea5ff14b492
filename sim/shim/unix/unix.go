package simunix

import (
	"unsafe"

	real_unix "golang.org/x/sys/unix"
	real_sys "syscall"

	"btrsim/simrt"
)

func errOf(e real_sys.Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

const atCWD = -100

func Flock(fd, how int) error                    { return errOf(simrt.Flock(fd, how)) }
func Fdatasync(fd int) error                     { return errOf(simrt.Fdatasync(fd)) }
func Fsync(fd int) error                         { return errOf(simrt.Fsync(fd)) }
func Close(fd int) error                         { return errOf(simrt.Close(fd)) }
func Ftruncate(fd int, n int64) error            { return errOf(simrt.Ftruncate(fd, n)) }
func Truncate(p string, n int64) error           { return errOf(simrt.Truncate(p, n)) }
func Stat(p string, st *real_unix.Stat_t) error  { return errOf(simrt.StatAt(atCWD, p, true, s2(st))) }
func Lstat(p string, st *real_unix.Stat_t) error { return errOf(simrt.StatAt(atCWD, p, false, s2(st))) }
func Fstat(fd int, st *real_unix.Stat_t) error   { return errOf(simrt.Fstat(fd, s2(st))) }
func Fstatat(d int, p string, st *real_unix.Stat_t, flags int) error {
	return errOf(simrt.StatAt(d, p, flags&real_unix.AT_SYMLINK_NOFOLLOW == 0, s2(st)))
}
func Mkdir(p string, m uint32) error          { return errOf(simrt.MkdirAt(atCWD, p, m)) }
func Mkdirat(d int, p string, m uint32) error { return errOf(simrt.MkdirAt(d, p, m)) }
func Unlink(p string) error                   { return errOf(simrt.UnlinkAt(atCWD, p, false)) }
func Unlinkat(d int, p string, flags int) error {
	return errOf(simrt.UnlinkAt(d, p, flags&real_unix.AT_REMOVEDIR != 0))
}
func Symlinkat(o string, d int, n string) error { return errOf(simrt.SymlinkAt(o, d, n)) }
func Linkat(od int, o string, nd int, n string, fl int) error {
	return errOf(simrt.LinkAt(od, o, nd, n))
}
func Readlinkat(d int, p string, b []byte) (int, error) {
	s, e := simrt.ReadlinkAt(d, p)
	return copy(b, s), errOf(e)
}
func Renameat2(od int, o string, nd int, n string, fl uint) error {
	if fl&^real_unix.RENAME_NOREPLACE != 0 {
		return real_sys.EINVAL
	}
	return errOf(simrt.RenameAt(od, o, nd, n, fl&real_unix.RENAME_NOREPLACE != 0))
}
func Fchmodat(d int, p string, m uint32, fl int) error { return errOf(simrt.ChmodAt(d, p, m, true)) }
func Fchownat(d int, p string, u, g int, fl int) error {
	return errOf(simrt.ChownAt(d, p, u, g, fl&real_unix.AT_SYMLINK_NOFOLLOW == 0))
}
func UtimesNanoAt(d int, p string, ts []real_unix.Timespec, fl int) error {
	return errOf(simrt.UtimesAt(d, p, 0, fl&real_unix.AT_SYMLINK_NOFOLLOW == 0))
}
func Openat2(d int, p string, how *real_unix.OpenHow) (int, error) { return -1, real_sys.ENOSYS }
func Faccessat(d int, p string, m uint32, fl int) error {
	var st real_sys.Stat_t
	return errOf(simrt.StatAt(d, p, true, &st))
}
func Access(p string, m uint32) error {
	var st real_sys.Stat_t
	return errOf(simrt.StatAt(atCWD, p, true, &st))
}

// The two Stat_t have the same layout.
func s2(st *real_unix.Stat_t) *real_sys.Stat_t { return (*real_sys.Stat_t)(unsafe.Pointer(st)) }
func Rmdir(p string) error                     { return errOf(simrt.UnlinkAt(atCWD, p, true)) }
func Symlink(o, n string) error                { return errOf(simrt.SymlinkAt(o, atCWD, n)) }
func Link(o, n string) error                   { return errOf(simrt.LinkAt(atCWD, o, atCWD, n)) }
func Rename(o, n string) error                 { return errOf(simrt.RenameAt(atCWD, o, atCWD, n, false)) }
func Renameat(od int, o string, nd int, n string) error {
	return errOf(simrt.RenameAt(od, o, nd, n, false))
}
func Chmod(p string, m uint32) error  { return errOf(simrt.ChmodAt(atCWD, p, m, true)) }
func Chown(p string, u, g int) error  { return errOf(simrt.ChownAt(atCWD, p, u, g, true)) }
func Lchown(p string, u, g int) error { return errOf(simrt.ChownAt(atCWD, p, u, g, false)) }
func Fchmod(fd int, m uint32) error {
	return errOf(simrt.Fsetattr(fd, "chmod", func(i *simrt.Inode) { simrt.SetMode(i, m) }))
}
func Fchown(fd int, u, g int) error {
	return errOf(simrt.Fsetattr(fd, "chown", func(i *simrt.Inode) {}))
}
func Futimes(fd int, tv []real_unix.Timeval) error {
	return errOf(simrt.Fsetattr(fd, "utimes", func(i *simrt.Inode) {}))
}
func UtimesNano(p string, ts []real_unix.Timespec) error {
	return errOf(simrt.UtimesAt(atCWD, p, 0, true))
}
func Utimes(p string, tv []real_unix.Timeval) error { return errOf(simrt.UtimesAt(atCWD, p, 0, true)) }
func Fallocate(fd int, mode uint32, off, n int64) error {
	return errOf(simrt.Fallocate(fd, mode, off, n))
}
func Chdir(p string) error { return errOf(simrt.Chdir(p)) }
func Open(p string, flags int, mode uint32) (int, error) {
	fd, e := simrt.Open(atCWD, p, flags, mode)
	return fd, errOf(e)
}
func Openat(d int, p string, flags int, mode uint32) (int, error) {
	fd, e := simrt.Open(d, p, flags, mode)
	return fd, errOf(e)
}
func Creat(p string, mode uint32) (int, error) {
	return Open(p, real_sys.O_CREAT|real_sys.O_WRONLY|real_sys.O_TRUNC, mode)
}
func Read(fd int, b []byte) (int, error)  { n, e := simrt.Read(fd, b); return n, errOf(e) }
func Write(fd int, b []byte) (int, error) { n, e := simrt.Write(fd, b); return n, errOf(e) }
func Pread(fd int, b []byte, off int64) (int, error) {
	n, e := simrt.Pread(fd, b, off)
	return n, errOf(e)
}
func Pwrite(fd int, b []byte, off int64) (int, error) {
	n, e := simrt.Pwrite(fd, b, off)
	return n, errOf(e)
}
func Seek(fd int, off int64, w int) (int64, error) {
	n, e := simrt.Seek(fd, off, w)
	return n, errOf(e)
}
func Dup(fd int) (int, error) { n, e := simrt.Dup(fd); return n, errOf(e) }
func Readlink(p string, b []byte) (int, error) {
	s, e := simrt.ReadlinkAt(atCWD, p)
	return copy(b, s), errOf(e)
}
func Mmap(fd int, off int64, length, prot, flags int) ([]byte, error) {
	return simrt.Mmap(fd, off, length, prot, flags)
}
func Munmap(b []byte) error                   { return simrt.Munmap(b) }
func Madvise(b []byte, a int) error           { return nil }
func Mlock(b []byte) error                    { return nil }
func Munlock(b []byte) error                  { return nil }
func Exit(code int)                           { simrt.Exit(code) }
func Getpid() int                             { return 1000 + simrt.Cur().ID }
func Getppid() int                            { return 1 }
func Getuid() int                             { return 0 }
func Geteuid() int                            { return 0 }
func Getgid() int                             { return 0 }
func Getegid() int                            { return 0 }
func Getpagesize() int                        { return 4096 }
func Sync()                                   {}
func Kill(pid int, sig real_sys.Signal) error { return KillSim(pid, sig) }

// KillSim sends a signal between simulated processes.
func KillSim(pid int, sig real_sys.Signal) error {
	simrt.Enter("kill")
	for _, p := range simrt.S.Procs {
		if 1000+p.ID == pid {
			if p.Exited {
				return real_sys.ESRCH
			}
			if sig != 0 {
				p.Signal(int(sig))
				simrt.Yield()
			}
			return nil
		}
	}
	return real_sys.ESRCH
}

// Calls that would leave the simulation.
func Mount(source, target, fstype string, flags uintptr, data string) error { return real_sys.ENOSYS }
func Unmount(target string, flags int) error                                { return real_sys.ENOSYS }
func Chroot(p string) error                                                 { return real_sys.ENOSYS }
func Exec(a string, b, c []string) error                                    { return real_sys.ENOSYS }
func Mknod(p string, m uint32, d int) error                                 { return real_sys.ENOSYS }
func Mkfifo(p string, m uint32) error                                       { return real_sys.ENOSYS }
func Statfs(p string, b *real_unix.Statfs_t) error                          { return real_sys.ENOSYS }
func Fstatfs(fd int, b *real_unix.Statfs_t) error                           { return real_sys.ENOSYS }
func Syscall(trap, a, b, c uintptr) (uintptr, uintptr, real_sys.Errno) {
	if trap == real_sys.SYS_FDATASYNC {
		e := simrt.Fdatasync(int(a))
		return 0, 0, e
	}
	if trap == real_sys.SYS_FSYNC {
		e := simrt.Fsync(int(a))
		return 0, 0, e
	}
	return ^uintptr(0), 0, real_sys.ENOSYS
}
func Syscall6(trap, a, b, c, d, e, f uintptr) (uintptr, uintptr, real_sys.Errno) {
	return ^uintptr(0), 0, real_sys.ENOSYS
}
func RawSyscall(trap, a, b, c uintptr) (uintptr, uintptr, real_sys.Errno) {
	return ^uintptr(0), 0, real_sys.ENOSYS
}
func RawSyscall6(trap, a, b, c, d, e, f uintptr) (uintptr, uintptr, real_sys.Errno) {
	return ^uintptr(0), 0, real_sys.ENOSYS
}
