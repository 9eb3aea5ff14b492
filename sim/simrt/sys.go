package simrt

import (
	"fmt"
	"runtime"
	"strings"
	"syscall"
	"unsafe"

	"golang.org/x/sys/unix"
)

// Fault makes matching system calls fail.
type Fault struct {
	Proc   string // process name, "" = any
	Op     string // operation, "" = any
	Tag    string // file tag, "" = any
	Skip   int    // matching calls that still succeed
	Count  int    // failing calls, -1 = all from then on
	Err    syscall.Errno
	Part   int // writes and reads: eighths of the request done (then a short count if Err == 0)
	Seen   int
	Hits   int
	OffMin int64
	OffMax int64
}

func (f *Fault) String() string {
	return fmt.Sprintf("%s/%s/%s after %d x%d: %v part %d", f.Proc, f.Op, f.Tag, f.Skip, f.Count, f.Err, f.Part)
}

// enter is the first thing every shim operation does.
func enter(op string) {
	if cur == nil {
		panic("simrt: " + op + " outside a simulation")
	}
	if cur.Proc.dead {
		runtime.Goexit()
	}
	Yield()
}

func Enter(op string) { enter(op) }

// Inside reports whether simulated code is running.
func Inside() bool { return cur != nil }

type sysCtl struct {
	err  syscall.Errno
	part int // -1: all
}

// sysEnter counts a system call, applies kill points and fault plans.
func sysEnter(op, tag string, off int64, n int) sysCtl {
	enter(op)
	p, s := cur.Proc, S
	p.SysN++
	s.Now += s.Latency
	c := sysCtl{part: -1}
	if p.KillSys != 0 && p.SysN >= p.KillSys && op != "pwrite" && op != "write" {
		s.Inject("kill_before_" + op)
		p.Killed = "SIGKILL"
		p.end(137)
		runtime.Goexit()
	}
	for _, f := range s.Faults {
		if f.Proc != "" && f.Proc != p.Name || f.Op != "" && !opMatch(f.Op, op) || f.Tag != "" && f.Tag != tag {
			continue
		}
		if f.OffMax != 0 && (off+int64(n) <= f.OffMin || off >= f.OffMax) {
			continue
		}
		f.Seen++
		if f.Seen <= f.Skip || f.Count >= 0 && f.Hits >= f.Count {
			continue
		}
		f.Hits++
		if f.Err == 0 {
			if n <= 1 {
				f.Hits--
				continue
			}
			c.part = n * f.Part / 8
			if c.part < 1 {
				c.part = 1
			}
			s.Inject("short_" + op)
			s.event("%s #%d short %s %s %d/%d", p.Name, p.SysN, op, tag, c.part, n)
		} else {
			c.err = f.Err
			c.part = n * f.Part / 8
			s.Inject(fmt.Sprintf("%s_%s_%s", errName(f.Err), op, tag))
			s.event("%s #%d fault %s %s %v", p.Name, p.SysN, op, tag, f.Err)
		}
		break
	}
	return c
}

func opMatch(want, op string) bool {
	if want == op {
		return true
	}
	switch want {
	case "anyread":
		return op == "pread" || op == "read"
	case "anywrite":
		return op == "pwrite" || op == "write"
	case "anysync":
		return op == "fsync" || op == "fdatasync"
	case "anymod":
		return op == "mkdir" || op == "unlink" || op == "symlink" || op == "rename" || op == "link" || op == "truncate" || op == "pwrite" || op == "write" || op == "creat" || op == "chmod" || op == "utimes" || op == "rmdir"
	}
	return false
}

func errName(e syscall.Errno) string {
	switch e {
	case syscall.EIO:
		return "EIO"
	case syscall.ENOSPC:
		return "ENOSPC"
	case syscall.EINTR:
		return "EINTR"
	case syscall.ENOMEM:
		return "ENOMEM"
	case syscall.EACCES:
		return "EACCES"
	case syscall.EROFS:
		return "EROFS"
	case syscall.EDQUOT:
		return "EDQUOT"
	case syscall.EMFILE:
		return "EMFILE"
	case syscall.ENOLCK:
		return "ENOLCK"
	case syscall.EPERM:
		return "EPERM"
	}
	return fmt.Sprintf("E%d", int(e))
}

func logMut(op, path string, ino *Inode, ptag, arg string, err syscall.Errno) {
	p := cur.Proc
	tag := ""
	if ino != nil {
		tag = ino.Tag
	}
	p.Log = append(p.Log, &SysEvent{N: p.SysN, Op: op, Path: path, Ino: ino, Arg: arg, Err: err, Mut: true, ParentTag: ptag, Tag: tag})
	S.event("%s #%d %s %q %s = %d", p.Name, p.SysN, op, path, arg, int(err))
}

func ofd(fd int) (*OFD, syscall.Errno) {
	p := cur.Proc
	if fd >= 0 && fd <= 2 {
		if o := p.fds[fd]; o != nil {
			return o, 0
		}
		return &OFD{stdio: fd + 1, proc: p, path: fmt.Sprintf("/dev/std%d", fd)}, 0
	}
	if o := p.fds[fd]; o != nil {
		return o, 0
	}
	return nil, syscall.EBADF
}

func base(dirfd int) (*Inode, syscall.Errno) {
	if dirfd == unix.AT_FDCWD {
		return cur.Proc.Cwd, 0
	}
	o, e := ofd(dirfd)
	if e != 0 {
		return nil, e
	}
	if o.ino == nil || !o.ino.IsDir() {
		return nil, syscall.ENOTDIR
	}
	return o.ino, 0
}

// look resolves a path and returns the tag a fault plan sees.
func look(b *Inode, path string, follow bool) (parent *Inode, name string, ino *Inode, tag string, err syscall.Errno) {
	parent, name, ino, err = S.FS.resolve(b, path, follow)
	if ino != nil {
		tag = ino.Tag
	} else if parent != nil {
		tag = parent.Tag
	}
	return
}

func Open(dirfd int, path string, flags int, mode uint32) (int, syscall.Errno) {
	enter("open")
	b, e := base(dirfd)
	if e != 0 {
		return -1, e
	}
	follow := flags&syscall.O_NOFOLLOW == 0 && flags&(syscall.O_CREAT|syscall.O_EXCL) != syscall.O_CREAT|syscall.O_EXCL
	_, _, i0, tag, _ := look(b, path, follow)
	op := "open"
	if flags&syscall.O_CREAT != 0 && i0 == nil {
		op = "creat"
	}
	c := sysEnter(op, tag, 0, 0)
	if c.err != 0 {
		return -1, c.err
	}
	if cur.Proc.fdLimit() {
		return -1, syscall.EMFILE
	}
	// Dangling symbolic links are followed by O_CREAT.
	parent, name, ino, _, e := look(b, path, follow)
	p := cur.Proc
	acc := flags & syscall.O_ACCMODE
	if e != 0 {
		S.event("%s #%d open %q = %d", p.Name, p.SysN, path, int(e))
		return -1, e
	}
	if ino != nil && ino.IsLink() {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return -1, syscall.EEXIST
		}
		if flags&unix.O_PATH == 0 {
			return -1, syscall.ELOOP
		}
	}
	if ino == nil {
		if flags&syscall.O_CREAT == 0 {
			S.event("%s #%d open %q = ENOENT", p.Name, p.SysN, path)
			probed(parent, name)
			return -1, syscall.ENOENT
		}
		if name == "." || name == ".." || strings.HasSuffix(path, "/") {
			return -1, syscall.EISDIR
		}
		ino = S.FS.newInode(sIFREG|(mode&07777&^p.Umask), parent)
		parent.entries[name] = ino
		parent.Mtime = S.Now
		logMut("creat", path, ino, parent.Tag, "", 0)
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return -1, syscall.EEXIST
		}
		if ino.IsDir() && (acc != syscall.O_RDONLY || flags&syscall.O_CREAT != 0) {
			return -1, syscall.EISDIR
		}
		if flags&syscall.O_DIRECTORY != 0 && !ino.IsDir() {
			return -1, syscall.ENOTDIR
		}
	}
	if acc != syscall.O_RDONLY && flags&unix.O_PATH == 0 {
		ino.WriteOpens++
		logMut("openw", path, ino, parent.Tag, fmt.Sprintf("%#x", flags), 0)
	} else {
		S.event("%s #%d open %q", p.Name, p.SysN, path)
	}
	if flags&syscall.O_TRUNC != 0 && ino.IsReg() && acc != syscall.O_RDONLY {
		if ino.Size != 0 {
			ino.truncate(0)
		}
		ino.Mtime = S.Now
		logMut("truncate", path, ino, parent.Tag, "0 (O_TRUNC)", 0)
	}
	fd := p.nextFD
	p.nextFD++
	p.fds[fd] = &OFD{ino: ino, flags: flags, path: path, refs: 1, proc: p}
	if len(p.fds) > p.MaxFDs {
		p.MaxFDs = len(p.fds)
	}
	return fd, 0
}

func (p *Proc) fdLimit() bool {
	if p.FDLimit > 0 && len(p.fds)+3 >= p.FDLimit {
		S.Inject("fd_limit")
		return true
	}
	return false
}

func (o *OFD) drop() {
	o.refs--
	if o.refs > 0 || o.ino == nil {
		return
	}
	unlock(o)
}

func unlock(o *OFD) {
	if o.ino.exLock == o {
		o.ino.exLock = nil
	}
	delete(o.ino.shLocks, o)
}

func Close(fd int) syscall.Errno {
	enter("close")
	o, e := ofd(fd)
	if e != 0 {
		return e
	}
	if o.stdio != 0 {
		return 0
	}
	c := sysEnter("close", o.ino.Tag, 0, 0)
	delete(cur.Proc.fds, fd)
	o.drop()
	return c.err
}

func Dup(fd int) (int, syscall.Errno) {
	enter("dup")
	o, e := ofd(fd)
	if e != 0 {
		return -1, e
	}
	p := cur.Proc
	if p.fdLimit() {
		return -1, syscall.EMFILE
	}
	n := p.nextFD
	p.nextFD++
	o.refs++
	p.fds[n] = o
	if len(p.fds) > p.MaxFDs {
		p.MaxFDs = len(p.fds)
	}
	return n, 0
}

func (p *Proc) releaseAll() {
	for fd, o := range p.fds {
		delete(p.fds, fd)
		o.drop()
	}
	S.Fuse.procGone(p)
}

func (p *Proc) unmapAll() {
	for a, m := range p.mmaps {
		delete(p.mmaps, a)
		unix.Munmap(m.b)
	}
}

func Pread(fd int, b []byte, off int64) (int, syscall.Errno) {
	enter("pread")
	o, e := ofd(fd)
	if e != 0 {
		return -1, e
	}
	if o.stdio != 0 {
		return -1, syscall.ESPIPE
	}
	return preadOFD(o, b, off, "pread")
}

func preadOFD(o *OFD, b []byte, off int64, op string) (int, syscall.Errno) {
	i := o.ino
	if off < 0 {
		return -1, syscall.EINVAL
	}
	if i.IsDir() {
		return -1, syscall.EISDIR
	}
	if o.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
		return -1, syscall.EBADF
	}
	if i.OnRead != nil {
		i.OnRead(off)
	}
	// One read transfers at most 0x7ffff000 bytes.
	c := sysEnter(op, i.Tag, off, len(b))
	S.Reads++
	if c.err != 0 {
		return -1, c.err
	}
	if c.part >= 0 && c.part < len(b) {
		b = b[:c.part]
	}
	for k := range i.Bad {
		r := &i.Bad[k]
		if r.Times == 0 || off+int64(len(b)) <= r.From || off >= r.To || off >= i.Size {
			continue
		}
		if off < r.From {
			b = b[:r.From-off] // short read up to the bad sector
			S.Inject("short_read_before_bad_sector")
			continue
		}
		if r.Times > 0 {
			r.Times--
		}
		S.Inject("bad_sector_read")
		S.event("%s #%d bad sector %s @%d", cur.Proc.Name, cur.Proc.SysN, i.Tag, off)
		return -1, r.Err
	}
	if i.LogReads {
		i.ReadRanges = append(i.ReadRanges, [2]int64{off, int64(len(b))})
	}
	n := i.readRaw(b, off)
	return n, 0
}

func Read(fd int, b []byte) (int, syscall.Errno) {
	enter("read")
	o, e := ofd(fd)
	if e != 0 {
		return -1, e
	}
	if o.stdio != 0 {
		return 0, 0
	}
	n, e := preadOFD(o, b, o.pos, "read")
	if e == 0 {
		o.pos += int64(n)
	}
	return n, e
}

const maxFileSize = 1 << 44

func pwriteOFD(o *OFD, b []byte, off int64, op string) (int, syscall.Errno) {
	i := o.ino
	if off < 0 {
		return -1, syscall.EINVAL
	}
	if o.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
		return -1, syscall.EBADF
	}
	c := sysEnter(op, i.Tag, off, len(b))
	p := cur.Proc
	full := b
	if c.part >= 0 && c.part < len(b) {
		b = b[:c.part]
	}
	kill := p.KillSys != 0 && p.SysN >= p.KillSys
	if kill {
		b = b[:len(b)*p.KillPart/8]
	}
	if off+int64(len(b)) > maxFileSize {
		if off >= maxFileSize {
			return -1, syscall.EFBIG
		}
		b = b[:maxFileSize-off]
	}
	n := 0
	if len(b) > 0 {
		n = i.write(b, off)
		i.Mtime = S.Now
	}
	logMut(op, o.path, i, "", fmt.Sprintf("@%d %d/%d %x", off, n, len(full), sumBytes(b[:n])), c.err)
	if kill {
		S.Inject("kill_in_" + op)
		p.Killed = "SIGKILL"
		p.end(137)
		runtime.Goexit()
	}
	if c.err != 0 {
		if n > 0 && n < len(full) {
			// A failing write that got somewhere reports a short count
			// first; the error comes with the next call. Simulate both in
			// one by reporting the error, as a caller sees it either way.
			return -1, c.err
		}
		return -1, c.err
	}
	if n == 0 && len(full) > 0 && len(b) > 0 {
		S.Inject("disk_full")
		return -1, syscall.ENOSPC
	}
	return n, 0
}

func sumBytes(b []byte) uint32 {
	h := uint32(2166136261)
	if len(b) > 256 {
		b = b[:256]
	}
	for _, c := range b {
		h = (h ^ uint32(c)) * 16777619
	}
	return h
}

func Pwrite(fd int, b []byte, off int64) (int, syscall.Errno) {
	enter("pwrite")
	o, e := ofd(fd)
	if e != 0 {
		return -1, e
	}
	if o.stdio != 0 {
		return -1, syscall.ESPIPE
	}
	return pwriteOFD(o, b, off, "pwrite")
}

func Write(fd int, b []byte) (int, syscall.Errno) {
	enter("write")
	o, e := ofd(fd)
	if e != 0 {
		return -1, e
	}
	if o.stdio != 0 {
		p := cur.Proc
		if en := p.OutErrno[o.stdio-1]; en != 0 {
			S.Inject("stdio_write_error")
			return -1, syscall.Errno(en)
		}
		if o.stdio == 2 && p.OutFault != nil && len(b) > 0 {
			n, e := p.OutFault(len(b))
			if e != 0 {
				return -1, e
			}
			b = b[:n]
		}
		if o.stdio == 2 {
			p.Stdout.Write(b)
		} else {
			p.Stderr.Write(b)
		}
		if p.Stdout.Len() > 64<<20 || p.Stderr.Len() > 64<<20 {
			fatalProc("hang: endless output")
		}
		h := sumBytes(b)
		S.EventHash = (S.EventHash ^ uint64(h)) * 1099511628211
		if S.KeepLog {
			S.Events = append(S.Events, fmt.Sprintf("%s fd%d %q", p.Name, o.stdio-1, string(b)))
		}
		return len(b), 0
	}
	pos := o.pos
	if o.flags&syscall.O_APPEND != 0 {
		pos = o.ino.Size
	}
	n, e := pwriteOFD(o, b, pos, "write")
	if e == 0 {
		o.pos = pos + int64(n)
	}
	return n, e
}

func Seek(fd int, off int64, whence int) (int64, syscall.Errno) {
	enter("lseek")
	o, e := ofd(fd)
	if e != 0 {
		return -1, e
	}
	if o.stdio != 0 {
		return -1, syscall.ESPIPE
	}
	c := sysEnter("lseek", o.ino.Tag, 0, 0)
	if c.err != 0 {
		return -1, c.err
	}
	switch whence {
	case 0:
	case 1:
		off += o.pos
	case 2:
		off += o.ino.Size
	default:
		return -1, syscall.EINVAL
	}
	if off < 0 {
		return -1, syscall.EINVAL
	}
	o.pos = off
	if off == 0 {
		o.dirPos = 0
		o.dirEnt = nil
	}
	return off, 0
}

func truncIno(i *Inode, path string, size int64) syscall.Errno {
	c := sysEnter("truncate", i.Tag, 0, 0)
	e := c.err
	if e == 0 && size < 0 {
		e = syscall.EINVAL
	}
	if e == 0 && size > maxFileSize {
		e = syscall.EFBIG
	}
	if e == 0 {
		i.truncate(size)
		i.Mtime = S.Now
	}
	logMut("truncate", path, i, "", fmt.Sprint(size), e)
	return e
}

func Ftruncate(fd int, size int64) syscall.Errno {
	enter("truncate")
	o, e := ofd(fd)
	if e != 0 {
		return e
	}
	if o.stdio != 0 || o.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
		return syscall.EINVAL
	}
	return truncIno(o.ino, o.path, size)
}

func Truncate(path string, size int64) syscall.Errno {
	enter("truncate")
	_, _, i, _, e := look(cur.Proc.Cwd, path, true)
	if e != 0 {
		return e
	}
	if i == nil {
		return syscall.ENOENT
	}
	if i.IsDir() {
		return syscall.EISDIR
	}
	return truncIno(i, path, size)
}

func fsync(fd int, op string) syscall.Errno {
	enter(op)
	o, e := ofd(fd)
	if e != 0 {
		return e
	}
	if o.stdio != 0 {
		return syscall.EINVAL
	}
	c := sysEnter(op, o.ino.Tag, 0, 0)
	if c.err != 0 {
		// After a failed sync the kernel may have dropped the dirty pages;
		// what was written stays visible but not durable.
		return c.err
	}
	o.ino.fsynced()
	S.event("%s #%d %s %q", cur.Proc.Name, cur.Proc.SysN, op, o.path)
	return 0
}

func Fsync(fd int) syscall.Errno     { return fsync(fd, "fsync") }
func Fdatasync(fd int) syscall.Errno { return fsync(fd, "fdatasync") }

func (i *Inode) stat(st *syscall.Stat_t) {
	*st = syscall.Stat_t{}
	st.Dev = 1
	st.Ino = i.Ino
	st.Mode = i.Mode
	st.Nlink = uint64(i.Nlink)
	st.Uid, st.Gid = i.UID, i.GID
	st.Size = i.Size
	if i.IsLink() {
		st.Size = int64(len(i.Target))
	}
	st.Blksize = 4096
	st.Blocks = (i.Size + 511) / 512
	st.Mtim = syscall.NsecToTimespec(i.Mtime)
	st.Ctim, st.Atim = st.Mtim, st.Mtim
}

func StatAt(dirfd int, path string, follow bool, st *syscall.Stat_t) syscall.Errno {
	enter("stat")
	b, e := base(dirfd)
	if e != 0 {
		return e
	}
	_, _, _, tag, _ := look(b, path, follow)
	if c := sysEnter("stat", tag, 0, 0); c.err != 0 {
		return c.err
	}
	parent, name, i, _, e := look(b, path, follow)
	if e == 0 && i == nil {
		e = syscall.ENOENT
		probed(parent, name)
	}
	if e != 0 {
		return e
	}
	i.stat(st)
	return 0
}

// probed tells the scenario that a process has just learned that something does
// not exist (or has made it so).
func probed(parent *Inode, name string) {
	if S.OnProbe != nil && parent != nil {
		S.OnProbe(cur.Proc, parent, name)
	}
}

func Fstat(fd int, st *syscall.Stat_t) syscall.Errno {
	enter("stat")
	o, e := ofd(fd)
	if e != 0 {
		return e
	}
	if o.stdio != 0 {
		*st = syscall.Stat_t{Mode: syscall.S_IFCHR | 0620}
		return 0
	}
	if c := sysEnter("fstat", o.ino.Tag, 0, 0); c.err != 0 {
		return c.err
	}
	o.ino.stat(st)
	return 0
}

func MkdirAt(dirfd int, path string, mode uint32) syscall.Errno {
	enter("mkdir")
	b, e := base(dirfd)
	if e != 0 {
		return e
	}
	_, _, _, tag, _ := look(b, path, false)
	c := sysEnter("mkdir", tag, 0, 0)
	parent, name, i, _, e := look(b, path, false)
	if e == 0 && c.err != 0 {
		e = c.err
	}
	if e == 0 && i != nil {
		e = syscall.EEXIST
	}
	if e == 0 && S.FS.Free >= 0 && S.FS.Free < pageSz {
		S.Inject("disk_full")
		e = syscall.ENOSPC
	}
	var n *Inode
	ptag := ""
	if e == 0 {
		n = S.FS.newInode(sIFDIR|(mode&07777&^cur.Proc.Umask), parent)
		parent.entries[name] = n
		parent.Nlink++
		ptag = parent.Tag
	}
	logMut("mkdir", path, n, ptag, "", e)
	return e
}

func UnlinkAt(dirfd int, path string, rmdir bool) syscall.Errno {
	enter("unlink")
	b, e := base(dirfd)
	if e != 0 {
		return e
	}
	_, _, _, tag, _ := look(b, path, false)
	op := "unlink"
	if rmdir {
		op = "rmdir"
	}
	c := sysEnter(op, tag, 0, 0)
	parent, name, i, _, e := look(b, path, false)
	if e == 0 && c.err != 0 {
		e = c.err
	}
	if e == 0 {
		switch {
		case i == nil:
			e = syscall.ENOENT
		case name == "." || name == "..":
			e = syscall.EINVAL
		case rmdir && !i.IsDir():
			e = syscall.ENOTDIR
		case !rmdir && i.IsDir():
			e = syscall.EISDIR
		case rmdir && len(i.entries) > 0:
			e = syscall.ENOTEMPTY
		case !rmdir && strings.HasSuffix(path, "/"):
			e = syscall.ENOTDIR
		}
	}
	ptag := ""
	if e == 0 {
		delete(parent.entries, name)
		i.Nlink--
		parent.Mtime = S.Now
		ptag = parent.Tag
	}
	logMut(op, path, i, ptag, "", e)
	if e == 0 {
		probed(parent, name)
	}
	return e
}

func SymlinkAt(target string, dirfd int, path string) syscall.Errno {
	enter("symlink")
	b, e := base(dirfd)
	if e != 0 {
		return e
	}
	_, _, _, tag, _ := look(b, path, false)
	c := sysEnter("symlink", tag, 0, 0)
	parent, name, i, _, e := look(b, path, false)
	if e == 0 && c.err != 0 {
		e = c.err
	}
	if e == 0 && (target == "" || strings.HasSuffix(path, "/")) {
		e = syscall.ENOENT
	}
	if e == 0 && strings.IndexByte(target, 0) >= 0 {
		e = syscall.EINVAL
	}
	if e == 0 && len(target) >= 4096 {
		e = syscall.ENAMETOOLONG
	}
	if e == 0 && i != nil {
		e = syscall.EEXIST
	}
	if e == 0 && S.FS.Free >= 0 && S.FS.Free < pageSz {
		S.Inject("disk_full")
		e = syscall.ENOSPC
	}
	ptag := ""
	var n *Inode
	if e == 0 {
		n = S.FS.newInode(sIFLNK|0777, parent)
		n.Target = target
		parent.entries[name] = n
		ptag = parent.Tag
	}
	logMut("symlink", path, n, ptag, target, e)
	return e
}

func ReadlinkAt(dirfd int, path string) (string, syscall.Errno) {
	enter("readlink")
	b, e := base(dirfd)
	if e != 0 {
		return "", e
	}
	_, _, _, tag, _ := look(b, path, false)
	if c := sysEnter("readlink", tag, 0, 0); c.err != 0 {
		return "", c.err
	}
	_, _, i, _, e := look(b, path, false)
	if e != 0 {
		return "", e
	}
	if i == nil {
		return "", syscall.ENOENT
	}
	if !i.IsLink() {
		return "", syscall.EINVAL
	}
	return i.Target, 0
}

func LinkAt(odir int, oldp string, ndir int, newp string) syscall.Errno {
	enter("link")
	ob, e := base(odir)
	if e != 0 {
		return e
	}
	nb, e := base(ndir)
	if e != 0 {
		return e
	}
	_, _, _, tag, _ := look(nb, newp, false)
	c := sysEnter("link", tag, 0, 0)
	_, _, i, _, e := look(ob, oldp, false)
	if e == 0 && i == nil {
		e = syscall.ENOENT
	}
	if e == 0 && i.IsDir() {
		e = syscall.EPERM
	}
	if e == 0 && c.err != 0 {
		e = c.err
	}
	ptag := ""
	if e == 0 {
		parent, name, n, _, e2 := look(nb, newp, false)
		e = e2
		if e == 0 && n != nil {
			e = syscall.EEXIST
		}
		if e == 0 {
			parent.entries[name] = i
			i.Nlink++
			ptag = parent.Tag
		}
	}
	logMut("link", newp, i, ptag, oldp, e)
	return e
}

func RenameAt(odir int, oldp string, ndir int, newp string, noReplace bool) syscall.Errno {
	enter("rename")
	ob, e := base(odir)
	if e != 0 {
		return e
	}
	nb, e := base(ndir)
	if e != 0 {
		return e
	}
	_, _, _, tag, _ := look(nb, newp, false)
	c := sysEnter("rename", tag, 0, 0)
	op, oname, i, _, e := look(ob, oldp, false)
	if e == 0 && i == nil {
		e = syscall.ENOENT
	}
	var np, tgt *Inode
	var nname string
	if e == 0 {
		np, nname, tgt, _, e = look(nb, newp, false)
	}
	if e == 0 && c.err != 0 {
		e = c.err
	}
	if e == 0 && (oname == "." || oname == ".." || nname == "." || nname == "..") {
		e = syscall.EBUSY
	}
	if e == 0 && tgt != nil && noReplace {
		e = syscall.EEXIST
	}
	if e == 0 && tgt != nil && tgt != i {
		switch {
		case tgt.IsDir() && !i.IsDir():
			e = syscall.EISDIR
		case !tgt.IsDir() && i.IsDir():
			e = syscall.ENOTDIR
		case tgt.IsDir() && len(tgt.entries) > 0:
			e = syscall.ENOTEMPTY
		}
	}
	if e == 0 && i.IsDir() {
		for d := np; ; d = d.parent {
			if d == i {
				e = syscall.EINVAL
			}
			if d == S.FS.Root {
				break
			}
		}
	}
	ptag := ""
	if e == 0 && tgt != i {
		delete(op.entries, oname)
		if tgt != nil {
			tgt.Nlink--
			logMut("replaced", newp, tgt, np.Tag, "", 0)
		}
		np.entries[nname] = i
		if i.IsDir() || i.Nlink == 1 {
			i.parent = np
		}
		ptag = np.Tag
	}
	logMut("rename", newp, i, ptag, oldp, e)
	return e
}

func ChmodAt(dirfd int, path string, mode uint32, follow bool) syscall.Errno {
	return setattr(dirfd, path, follow, "chmod", func(i *Inode) { i.Mode = i.Mode&sIFMT | mode&07777 })
}

func ChownAt(dirfd int, path string, uid, gid int, follow bool) syscall.Errno {
	return setattr(dirfd, path, follow, "chown", func(i *Inode) {
		if uid >= 0 {
			i.UID = uint32(uid)
		}
		if gid >= 0 {
			i.GID = uint32(gid)
		}
	})
}

func UtimesAt(dirfd int, path string, mtime int64, follow bool) syscall.Errno {
	return setattr(dirfd, path, follow, "utimes", func(i *Inode) { i.Mtime = mtime })
}

func setattr(dirfd int, path string, follow bool, op string, fn func(i *Inode)) syscall.Errno {
	enter(op)
	b, e := base(dirfd)
	if e != 0 {
		return e
	}
	_, _, _, tag, _ := look(b, path, follow)
	c := sysEnter(op, tag, 0, 0)
	_, _, i, _, e := look(b, path, follow)
	if e == 0 && i == nil {
		e = syscall.ENOENT
	}
	if e == 0 && c.err != 0 {
		e = c.err
	}
	if e == 0 {
		fn(i)
	}
	logMut(op, path, i, "", "", e)
	return e
}

func Fsetattr(fd int, op string, fn func(i *Inode)) syscall.Errno {
	enter(op)
	o, e := ofd(fd)
	if e != 0 {
		return e
	}
	if o.stdio != 0 {
		return 0
	}
	c := sysEnter(op, o.ino.Tag, 0, 0)
	if c.err == 0 {
		fn(o.ino)
	}
	logMut(op, o.path, o.ino, "", "", c.err)
	return c.err
}

func SetMode(i *Inode, mode uint32) { i.Mode = i.Mode&sIFMT | mode&07777 }

// Getdents returns up to n further entries of an open directory.
func Getdents(fd, n int) ([]DirEnt, syscall.Errno) {
	enter("getdents")
	o, e := ofd(fd)
	if e != 0 {
		return nil, e
	}
	if o.stdio != 0 || !o.ino.IsDir() {
		return nil, syscall.ENOTDIR
	}
	if c := sysEnter("getdents", o.ino.Tag, 0, 0); c.err != 0 {
		return nil, c.err
	}
	if o.dirEnt == nil {
		o.dirEnt = o.ino.Entries()
	}
	l := o.dirEnt[o.dirPos:]
	if n > 0 && len(l) > n {
		l = l[:n]
	}
	o.dirPos += len(l)
	return l, 0
}

func Flock(fd int, how int) syscall.Errno {
	enter("flock")
	o, e := ofd(fd)
	if e != 0 {
		return e
	}
	if o.stdio != 0 {
		return syscall.EINVAL
	}
	if c := sysEnter("flock", o.ino.Tag, 0, 0); c.err != 0 {
		return c.err
	}
	i := o.ino
	if i.shLocks == nil {
		i.shLocks = map[*OFD]bool{}
	}
	op := how &^ syscall.LOCK_NB
	if op == syscall.LOCK_UN {
		unlock(o)
		S.event("%s #%d unlock %q", cur.Proc.Name, cur.Proc.SysN, o.path)
		return 0
	}
	can := func() bool {
		if i.exLock != nil && i.exLock != o {
			return false
		}
		if op == syscall.LOCK_EX {
			for k := range i.shLocks {
				if k != o {
					return false
				}
			}
		}
		return true
	}
	if !can() {
		if how&syscall.LOCK_NB != 0 {
			S.event("%s #%d lock %q busy", cur.Proc.Name, cur.Proc.SysN, o.path)
			return syscall.EWOULDBLOCK
		}
		block("flock", 0, can)
	}
	unlock(o)
	if op == syscall.LOCK_EX {
		i.exLock = o
	} else {
		i.shLocks[o] = true
	}
	S.event("%s #%d lock %q %d", cur.Proc.Name, cur.Proc.SysN, o.path, op)
	return 0
}

// LockHolders describes the locks held on a file.
func (i *Inode) LockHolders() (ex *Proc, sh []*Proc) {
	if i.exLock != nil {
		ex = i.exLock.proc
	}
	for o := range i.shLocks {
		sh = append(sh, o.proc)
	}
	return
}

func Mmap(fd int, off int64, length, prot, flags int) ([]byte, error) {
	enter("mmap")
	if flags&unix.MAP_ANON != 0 {
		return unix.Mmap(-1, off, length, prot, flags)
	}
	o, e := ofd(fd)
	if e != 0 {
		return nil, e
	}
	if o.stdio != 0 || !o.ino.IsReg() {
		return nil, syscall.ENODEV
	}
	if c := sysEnter("mmap", o.ino.Tag, off, 0); c.err != 0 {
		return nil, c.err
	}
	if e := o.ino.toMem(); e != 0 {
		return nil, e
	}
	b, err := unix.Mmap(o.ino.memfd, off, length, prot, flags)
	if err == nil && len(b) > 0 {
		cur.Proc.mmaps[uintptr(unsafe.Pointer(&b[0]))] = &mapping{b, o.ino}
	}
	return b, err
}

func Munmap(b []byte) error {
	enter("munmap")
	if len(b) > 0 {
		delete(cur.Proc.mmaps, uintptr(unsafe.Pointer(&b[0])))
	}
	return unix.Munmap(b)
}

func Chdir(path string) syscall.Errno {
	enter("chdir")
	_, _, i, _, e := look(cur.Proc.Cwd, path, true)
	if e != 0 {
		return e
	}
	if i == nil {
		return syscall.ENOENT
	}
	if !i.IsDir() {
		return syscall.ENOTDIR
	}
	cur.Proc.Cwd = i
	cur.Proc.CwdPath = S.FS.PathOf(i)
	return 0
}

func Fallocate(fd int, mode uint32, off, n int64) syscall.Errno {
	enter("fallocate")
	o, e := ofd(fd)
	if e != 0 {
		return e
	}
	if mode != 0 {
		return syscall.EOPNOTSUPP
	}
	if off < 0 || n <= 0 {
		return syscall.EINVAL
	}
	if e := o.ino.allocate(off, n); e != 0 {
		return e
	}
	if off+n > o.ino.Size {
		return truncIno(o.ino, o.path, off+n)
	}
	return 0
}

func FdInode(fd int) *Inode {
	o, e := ofd(fd)
	if e != 0 {
		return nil
	}
	return o.ino
}
