// Package simfuse is go-fuse's fuse package with the kernel simulated: a
// Server that gets its requests from Conn, the kernel's side of a mount.
package simfuse

import (
	"fmt"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	real "github.com/hanwen/go-fuse/v2/fuse"

	"btrsim/simrt"
)

// RawFileSystem is fuse.RawFileSystem with this package's Server.
type RawFileSystem interface {
	String() string
	SetDebug(debug bool)
	Lookup(cancel <-chan struct{}, header *real.InHeader, name string, out *real.EntryOut) (status real.Status)
	Forget(nodeid, nlookup uint64)
	GetAttr(cancel <-chan struct{}, input *real.GetAttrIn, out *real.AttrOut) (code real.Status)
	SetAttr(cancel <-chan struct{}, input *real.SetAttrIn, out *real.AttrOut) (code real.Status)
	Mknod(cancel <-chan struct{}, input *real.MknodIn, name string, out *real.EntryOut) (code real.Status)
	Mkdir(cancel <-chan struct{}, input *real.MkdirIn, name string, out *real.EntryOut) (code real.Status)
	Unlink(cancel <-chan struct{}, header *real.InHeader, name string) (code real.Status)
	Rmdir(cancel <-chan struct{}, header *real.InHeader, name string) (code real.Status)
	Rename(cancel <-chan struct{}, input *real.RenameIn, oldName string, newName string) (code real.Status)
	Link(cancel <-chan struct{}, input *real.LinkIn, filename string, out *real.EntryOut) (code real.Status)
	Symlink(cancel <-chan struct{}, header *real.InHeader, pointedTo string, linkName string, out *real.EntryOut) (code real.Status)
	Readlink(cancel <-chan struct{}, header *real.InHeader) (out []byte, code real.Status)
	Access(cancel <-chan struct{}, input *real.AccessIn) (code real.Status)
	GetXAttr(cancel <-chan struct{}, header *real.InHeader, attr string, dest []byte) (sz uint32, code real.Status)
	ListXAttr(cancel <-chan struct{}, header *real.InHeader, dest []byte) (uint32, real.Status)
	SetXAttr(cancel <-chan struct{}, input *real.SetXAttrIn, attr string, data []byte) real.Status
	RemoveXAttr(cancel <-chan struct{}, header *real.InHeader, attr string) (code real.Status)
	Create(cancel <-chan struct{}, input *real.CreateIn, name string, out *real.CreateOut) (code real.Status)
	Open(cancel <-chan struct{}, input *real.OpenIn, out *real.OpenOut) (status real.Status)
	Read(cancel <-chan struct{}, input *real.ReadIn, buf []byte) (real.ReadResult, real.Status)
	Lseek(cancel <-chan struct{}, in *real.LseekIn, out *real.LseekOut) real.Status
	GetLk(cancel <-chan struct{}, input *real.LkIn, out *real.LkOut) (code real.Status)
	SetLk(cancel <-chan struct{}, input *real.LkIn) (code real.Status)
	SetLkw(cancel <-chan struct{}, input *real.LkIn) (code real.Status)
	Release(cancel <-chan struct{}, input *real.ReleaseIn)
	Write(cancel <-chan struct{}, input *real.WriteIn, data []byte) (written uint32, code real.Status)
	CopyFileRange(cancel <-chan struct{}, input *real.CopyFileRangeIn) (written uint32, code real.Status)
	Flush(cancel <-chan struct{}, input *real.FlushIn) real.Status
	Fsync(cancel <-chan struct{}, input *real.FsyncIn) (code real.Status)
	Fallocate(cancel <-chan struct{}, input *real.FallocateIn) (code real.Status)
	OpenDir(cancel <-chan struct{}, input *real.OpenIn, out *real.OpenOut) (status real.Status)
	ReadDir(cancel <-chan struct{}, input *real.ReadIn, out *real.DirEntryList) real.Status
	ReadDirPlus(cancel <-chan struct{}, input *real.ReadIn, out *real.DirEntryList) real.Status
	ReleaseDir(input *real.ReleaseIn)
	FsyncDir(cancel <-chan struct{}, input *real.FsyncIn) (code real.Status)
	StatFs(cancel <-chan struct{}, input *real.InHeader, out *real.StatfsOut) (code real.Status)
	Init(*Server)
}

// LatencyMap is fuse.LatencyMap.
type LatencyMap interface {
	Add(name string, dt time.Duration)
}

// Server is fuse.Server.
type Server struct {
	fs         RawFileSystem
	opts       real.MountOptions
	mountPoint string
	conn       *Conn
}

// Conn is the kernel's side of one mount.
type Conn struct {
	srv       *Server
	fs        RawFileSystem
	proc      *simrt.Proc
	m         *simrt.FuseMount
	queue     []*request
	serving   bool
	served    bool // Serve has returned
	unmounted bool
	aborted   bool
	pending   int // requests without a reply
	running   int // requests inside the server
	sv        simrt.SyncVar
	unique    uint64
	single    bool
	busy      bool
	dentry    map[string]bool
	// OpenFiles counts files and directories the kernel has open.
	OpenFiles int
	Requests  int
	Overlaps  int
	// Lookups is what the kernel has to forget, by node.
	Lookups map[uint64]uint64
}

type request struct {
	name string
	fn   func(cancel <-chan struct{}) real.Status
	st   real.Status
	done bool
}

const atCWD = -100

// NewServer mounts and initialises the file system.
func NewServer(fs RawFileSystem, mountPoint string, opts *real.MountOptions) (*Server, error) {
	o := real.MountOptions{}
	if opts != nil {
		o = *opts
	}
	for _, s := range append(append([]string{}, o.Options...), o.FsName) {
		if strings.Contains(s, ",") {
			return nil, fmt.Errorf("found ',' in option string %q", s)
		}
	}
	p := simrt.Cur()
	mountPoint = filepath.Clean(mountPoint)
	if !filepath.IsAbs(mountPoint) {
		mountPoint = filepath.Clean(filepath.Join(p.CwdPath, mountPoint))
	}
	k := simrt.S.Fuse
	var st syscall.Stat_t
	if e := simrt.StatAt(atCWD, mountPoint, true, &st); e != 0 || st.Mode&syscall.S_IFMT != syscall.S_IFDIR {
		return nil, fmt.Errorf("fusermount exited with code 256")
	}
	if k.MountErr != "" {
		simrt.S.Inject("mount_refused")
		return nil, fmt.Errorf("%s", k.MountErr)
	}
	c := &Conn{fs: fs, proc: p, single: o.SingleThreaded, dentry: map[string]bool{}, Lookups: map[uint64]uint64{1: 1}}
	s := &Server{fs: fs, opts: o, mountPoint: mountPoint, conn: c}
	c.srv = s
	c.m = k.Mount(mountPoint, c, func() { c.aborted = true })
	simrt.Enter("mount")
	fs.Init(s)
	return s, nil
}

// Serve hands requests to the file system until the mount is gone.
func (s *Server) Serve() {
	c := s.conn
	simrt.Enter("serve")
	c.sv.Acquire()
	c.sv.Release()
	c.serving = true
	c.dispatch()
	simrt.Block("fuse serve loop", func() bool { return (c.unmounted || c.aborted) && c.running == 0 })
	c.serving = false
	c.sv.Acquire()
	c.sv.Release()
	c.served = true
	c.aborted = true
}

// Unmount asks fusermount to unmount, as the real server does.
func (s *Server) Unmount() error {
	if s.mountPoint == "" {
		return nil
	}
	c := s.conn
	k := simrt.S.Fuse
	var err error
	delay := time.Duration(0)
	for try := 0; try < 5; try++ {
		simrt.Enter("unmount")
		err = nil
		switch {
		case k.At(s.mountPoint) != c.m:
			err = fmt.Errorf("exit status 1 (code exit status 1)\n")
		case c.OpenFiles > 0 || c.pending > 0:
			err = fmt.Errorf("exit status 1: device or resource busy")
			k.FailedUnmounts++
		case k.UnmountErrs != 0:
			if k.UnmountErrs > 0 {
				k.UnmountErrs--
			}
			err = fmt.Errorf("exit status 1: device or resource busy")
			k.FailedUnmounts++
			simrt.S.Inject("unmount_busy")
		default:
			k.Unmount(c.m)
			c.unmounted = true
		}
		if err == nil {
			break
		}
		delay = 2*delay + 5*time.Millisecond
		simrt.Sleep(int64(delay))
	}
	if err != nil {
		return err
	}
	s.Wait()
	s.mountPoint = ""
	return nil
}

// UnmountOutside is umount by somebody else. An ordinary one is refused while
// the file system is in use, a forced one also aborts the connection.
func (c *Conn) UnmountOutside(force bool) bool {
	k := simrt.S.Fuse
	if k.At(c.m.Path) != c.m || !force && (c.OpenFiles > 0 || c.pending > 0) {
		return false
	}
	k.UnmountOutside(c.m)
	c.unmounted = true
	c.aborted = c.aborted || force
	return true
}

// Wait waits for the serve loop to end.
func (s *Server) Wait() {
	c := s.conn
	simrt.Block("fuse wait for serve loop", func() bool { return c.served || (c.unmounted || c.aborted) && c.serving && c.running == 0 })
	c.sv.Acquire()
}

func (s *Server) WaitMount() error {
	c := s.conn
	simrt.Block("fuse wait for mount", func() bool { return c.serving || c.aborted })
	if c.aborted {
		return syscall.ENOTCONN
	}
	return nil
}

func (s *Server) SetDebug(bool)                {}
func (s *Server) RecordLatencies(LatencyMap)   {}
func (s *Server) DebugData() string            { return "readers: 0" }
func (s *Server) KernelSettings() *real.InitIn { return &real.InitIn{Major: 7, Minor: 31} }

func (s *Server) InodeNotify(node uint64, off int64, length int64) real.Status { return real.OK }
func (s *Server) InodeNotifyStoreCache(node uint64, off int64, data []byte) real.Status {
	return real.OK
}
func (s *Server) InodeRetrieveCache(node uint64, off int64, dest []byte) (int, real.Status) {
	return 0, real.OK
}
func (s *Server) DeleteNotify(parent, child uint64, name string) real.Status { return real.OK }
func (s *Server) EntryNotify(parent uint64, name string) real.Status         { return real.OK }

// ReadResultFd is fuse.ReadResultFd on a simulated descriptor.
func ReadResultFd(fd uintptr, off int64, sz int) real.ReadResult {
	return &readFd{fd, off, sz}
}

type readFd struct {
	fd  uintptr
	off int64
	sz  int
}

func (r *readFd) Bytes(buf []byte) ([]byte, real.Status) {
	sz := r.sz
	if len(buf) < sz {
		sz = len(buf)
	}
	n, e := simrt.Pread(int(r.fd), buf[:sz], r.off)
	if n < 0 {
		n = 0
	}
	return buf[:n], real.Status(e)
}
func (r *readFd) Size() int { return r.sz }
func (r *readFd) Done()     {}

// ------------------------------------------------------------- kernel side

func (c *Conn) dispatch() {
	for c.serving && len(c.queue) > 0 && !(c.single && c.busy) {
		r := c.queue[0]
		c.queue = c.queue[1:]
		c.running++
		if c.running > 1 {
			c.Overlaps++
		}
		c.busy = true
		simrt.S.GoNamed(c.proc, "fuse "+r.name, func() {
			// What the real server's request mutex orders.
			c.sv.Acquire()
			c.sv.Release()
			cancel := make(chan struct{})
			r.st = r.fn(cancel)
			c.sv.Acquire()
			c.sv.Release()
			r.done = true
			c.running--
			c.busy = false
			c.dispatch()
		})
	}
}

// call sends one request and waits for the reply.
func (c *Conn) call(name string, fn func(cancel <-chan struct{}) real.Status) real.Status {
	simrt.Enter("fuse request")
	if c.aborted || c.unmounted {
		return real.Status(syscall.ENOTCONN)
	}
	r := &request{name: name, fn: fn}
	c.pending++
	c.Requests++
	c.queue = append(c.queue, r)
	c.dispatch()
	simrt.Block("fuse reply "+name, func() bool { return r.done || c.aborted })
	c.pending--
	if !r.done {
		return real.Status(syscall.ECONNABORTED)
	}
	return r.st
}

func (c *Conn) hdr(node uint64) real.InHeader {
	c.unique += 2
	return real.InHeader{NodeId: node, Unique: c.unique, Caller: real.Caller{Pid: 100}}
}

// Alive reports whether the mount still answers.
func (c *Conn) Alive() bool { return !c.aborted && !c.unmounted }

// Waiting reports how many requests have no reply.
func (c *Conn) Waiting() int { return c.pending }

// Lookup looks a name up. The kernel never has two lookups of one name in
// one directory under way at the same time.
func (c *Conn) Lookup(parent uint64, name string) (out real.EntryOut, st real.Status) {
	key := fmt.Sprintf("%d/%s", parent, name)
	if c.dentry[key] {
		simrt.Block("dentry", func() bool { return !c.dentry[key] })
	}
	c.dentry[key] = true
	h := c.hdr(parent)
	st = c.call("LOOKUP", func(x <-chan struct{}) real.Status { return c.fs.Lookup(x, &h, name, &out) })
	delete(c.dentry, key)
	if st == real.OK && out.NodeId == 0 {
		st = real.ENOENT // a negative entry
	}
	if st == real.OK {
		c.Lookups[out.NodeId]++
	}
	return
}

// Forget drops what the kernel knows about a node.
func (c *Conn) Forget(node uint64) {
	n := c.Lookups[node]
	if n == 0 || node == 1 {
		return
	}
	delete(c.Lookups, node)
	c.call("FORGET", func(<-chan struct{}) real.Status { c.fs.Forget(node, n); return real.OK })
}

func (c *Conn) GetAttr(node uint64) (out real.AttrOut, st real.Status) {
	in := real.GetAttrIn{InHeader: c.hdr(node)}
	st = c.call("GETATTR", func(x <-chan struct{}) real.Status { return c.fs.GetAttr(x, &in, &out) })
	return
}

// FGetAttr is GETATTR with a file handle.
func (c *Conn) FGetAttr(node, fh uint64) (out real.AttrOut, st real.Status) {
	in := real.GetAttrIn{InHeader: c.hdr(node), Flags_: real.FUSE_GETATTR_FH, Fh_: fh}
	st = c.call("GETATTR", func(x <-chan struct{}) real.Status { return c.fs.GetAttr(x, &in, &out) })
	return
}

func (c *Conn) Readlink(node uint64) (out []byte, st real.Status) {
	h := c.hdr(node)
	st = c.call("READLINK", func(x <-chan struct{}) real.Status {
		var s real.Status
		out, s = c.fs.Readlink(x, &h)
		out = append([]byte{}, out...)
		return s
	})
	return
}

// Dirt is what a recycled reply buffer may hold.
func dirt(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(0xa5 ^ i)
	}
	return b
}

// GetXAttr reads an attribute into a buffer of the given size; size 0 asks
// for the length, which is returned.
func (c *Conn) GetXAttr(node uint64, name string, size int) (data []byte, n uint32, st real.Status) {
	h := c.hdr(node)
	st = c.call("GETXATTR", func(x <-chan struct{}) real.Status {
		b := dirt(size)
		sz, s := c.fs.GetXAttr(x, &h, name, b)
		return c.xreply(size, b, sz, s, &data, &n)
	})
	return
}

func (c *Conn) ListXAttr(node uint64, size int) (data []byte, n uint32, st real.Status) {
	h := c.hdr(node)
	st = c.call("LISTXATTR", func(x <-chan struct{}) real.Status {
		b := dirt(size)
		sz, s := c.fs.ListXAttr(x, &h, b)
		return c.xreply(size, b, sz, s, &data, &n)
	})
	return
}

func (c *Conn) xreply(size int, b []byte, sz uint32, s real.Status, data *[]byte, n *uint32) real.Status {
	if size == 0 && s == real.ERANGE {
		*n = sz
		return real.OK
	}
	if s == real.OK {
		if size > 0 {
			*data = b[:sz]
		}
		*n = sz
	}
	return s
}

func (c *Conn) Access(node uint64, mask uint32) real.Status {
	in := real.AccessIn{InHeader: c.hdr(node), Mask: mask}
	return c.call("ACCESS", func(x <-chan struct{}) real.Status { return c.fs.Access(x, &in) })
}

func (c *Conn) StatFs(node uint64) (out real.StatfsOut, st real.Status) {
	h := c.hdr(node)
	st = c.call("STATFS", func(x <-chan struct{}) real.Status { return c.fs.StatFs(x, &h, &out) })
	return
}

func (c *Conn) Open(node uint64, flags uint32) (fh uint64, st real.Status) {
	in := real.OpenIn{InHeader: c.hdr(node), Flags: flags}
	var out real.OpenOut
	st = c.call("OPEN", func(x <-chan struct{}) real.Status { return c.fs.Open(x, &in, &out) })
	if st == real.OK {
		c.OpenFiles++
	}
	return out.Fh, st
}

func (c *Conn) Read(node, fh uint64, off int64, size int) (data []byte, st real.Status) {
	in := real.ReadIn{InHeader: c.hdr(node), Fh: fh, Offset: uint64(off), Size: uint32(size)}
	st = c.call("READ", func(x <-chan struct{}) real.Status {
		buf := dirt(size)
		r, s := c.fs.Read(x, &in, buf)
		if r != nil && s == real.OK {
			var b []byte
			b, s = r.Bytes(buf)
			data = append([]byte{}, b...)
			r.Done()
		}
		return s
	})
	return
}

func (c *Conn) Write(node, fh uint64, off int64, data []byte) (n uint32, st real.Status) {
	in := real.WriteIn{InHeader: c.hdr(node), Fh: fh, Offset: uint64(off), Size: uint32(len(data))}
	st = c.call("WRITE", func(x <-chan struct{}) real.Status {
		var s real.Status
		n, s = c.fs.Write(x, &in, data)
		return s
	})
	return
}

func (c *Conn) Release(node, fh uint64) {
	in := real.ReleaseIn{InHeader: c.hdr(node), Fh: fh}
	fl := real.FlushIn{InHeader: c.hdr(node), Fh: fh}
	c.call("FLUSH", func(x <-chan struct{}) real.Status { return c.fs.Flush(x, &fl) })
	c.call("RELEASE", func(x <-chan struct{}) real.Status { c.fs.Release(x, &in); return real.OK })
	c.OpenFiles--
}

func (c *Conn) OpenDir(node uint64) (fh uint64, st real.Status) {
	in := real.OpenIn{InHeader: c.hdr(node)}
	var out real.OpenOut
	st = c.call("OPENDIR", func(x <-chan struct{}) real.Status { return c.fs.OpenDir(x, &in, &out) })
	if st == real.OK {
		c.OpenFiles++
	}
	return out.Fh, st
}

func (c *Conn) ReleaseDir(node, fh uint64) {
	in := real.ReleaseIn{InHeader: c.hdr(node), Fh: fh}
	c.call("RELEASEDIR", func(x <-chan struct{}) real.Status { c.fs.ReleaseDir(&in); return real.OK })
	c.OpenFiles--
}

// Dirent is one entry of a directory stream.
type Dirent struct {
	Ino  uint64
	Off  uint64
	Type uint32
	Name string
	// Entry is set for READDIRPLUS.
	Entry *real.EntryOut
}

// ReadDir returns one buffer of directory entries.
func (c *Conn) ReadDir(node, fh, off uint64, size int) (l []Dirent, st real.Status) {
	in := real.ReadIn{InHeader: c.hdr(node), Fh: fh, Offset: off, Size: uint32(size)}
	buf := make([]byte, size)
	st = c.call("READDIR", func(x <-chan struct{}) real.Status {
		d := real.NewDirEntryList(buf, off)
		return c.fs.ReadDir(x, &in, d)
	})
	if st == real.OK {
		l = parseDir(buf)
	}
	return
}

// ReadDirPlus returns one buffer of directory entries with attributes. The
// kernel then knows the nodes of all entries that have one.
func (c *Conn) ReadDirPlus(node, fh, off uint64, size int) (l []Dirent, st real.Status) {
	in := real.ReadIn{InHeader: c.hdr(node), Fh: fh, Offset: off, Size: uint32(size)}
	buf := make([]byte, size)
	st = c.call("READDIRPLUS", func(x <-chan struct{}) real.Status {
		d := real.NewDirEntryList(buf, off)
		return c.fs.ReadDirPlus(x, &in, d)
	})
	if st != real.OK {
		return
	}
	const eo = 128
	for len(buf) >= eo+24 {
		e := *(*real.EntryOut)(unsafe.Pointer(&buf[0]))
		d := parseDir(buf[eo:])
		if len(d) == 0 {
			break
		}
		x := d[0]
		if e.NodeId != 0 {
			if e.NodeId != 1 {
				c.Lookups[e.NodeId]++
			}
			x.Entry = &e
		}
		l = append(l, x)
		n := eo + (24+len(x.Name)+7)&^7
		if n > len(buf) {
			break
		}
		buf = buf[n:]
	}
	return
}

func parseDir(b []byte) (l []Dirent) {
	le := func(o, n int) (v uint64) {
		for i := n - 1; i >= 0; i-- {
			v = v<<8 | uint64(b[o+i])
		}
		return
	}
	for len(b) >= 24 {
		d := Dirent{Ino: le(0, 8), Off: le(8, 8), Type: uint32(le(20, 4))}
		n := int(le(16, 4))
		if d.Off == 0 || 24+n > len(b) {
			break
		}
		d.Name = string(b[24 : 24+n])
		l = append(l, d)
		n = (24 + n + 7) &^ 7
		if n > len(b) {
			break
		}
		b = b[n:]
	}
	return
}

// Modify sends a request that would change the file system and returns its
// status.
func (c *Conn) Modify(op string, node uint64, name string) real.Status {
	h := c.hdr(node)
	return c.call(op, func(x <-chan struct{}) real.Status {
		var eo real.EntryOut
		switch op {
		case "MKDIR":
			return c.fs.Mkdir(x, &real.MkdirIn{InHeader: h, Mode: 0755}, name, &eo)
		case "MKNOD":
			return c.fs.Mknod(x, &real.MknodIn{InHeader: h, Mode: 0100644}, name, &eo)
		case "UNLINK":
			return c.fs.Unlink(x, &h, name)
		case "RMDIR":
			return c.fs.Rmdir(x, &h, name)
		case "SYMLINK":
			return c.fs.Symlink(x, &h, "target", name, &eo)
		case "RENAME":
			return c.fs.Rename(x, &real.RenameIn{InHeader: h, Newdir: node}, name, name+".new")
		case "CREATE":
			var co real.CreateOut
			return c.fs.Create(x, &real.CreateIn{InHeader: h, Mode: 0644}, name, &co)
		case "SETXATTR":
			return c.fs.SetXAttr(x, &real.SetXAttrIn{InHeader: h, Size: 1}, name, []byte("x"))
		case "REMOVEXATTR":
			return c.fs.RemoveXAttr(x, &h, name)
		case "TRUNCATE":
			var ao real.AttrOut
			in := &real.SetAttrIn{SetAttrInCommon: real.SetAttrInCommon{InHeader: h, Valid: real.FATTR_SIZE, Size: 0}}
			return c.fs.SetAttr(x, in, &ao)
		case "CHMOD":
			var ao real.AttrOut
			in := &real.SetAttrIn{SetAttrInCommon: real.SetAttrInCommon{InHeader: h, Valid: real.FATTR_MODE, Mode: 0777}}
			return c.fs.SetAttr(x, in, &ao)
		}
		return real.ENOSYS
	})
}
