package simrt

// FuseKernel is the kernel's side of FUSE mounts; the protocol lives in the
// fuse shim.
type FuseKernel struct {
	s      *Sim
	mounts map[string]*FuseMount
	// MountErr makes mounting fail with this error text.
	MountErr string
	// UnmountErrs is how many unmount attempts fail as busy (-1 = all).
	UnmountErrs int
	// History of mounts and unmounts.
	Mounts, Unmounts int
	FailedUnmounts   int
}

// FuseMount is one mounted file system.
type FuseMount struct {
	Path  string
	Proc  *Proc
	Conn  interface{}
	Stale bool // the server is gone without unmounting
	Abort func()
}

func (k *FuseKernel) Mount(path string, conn interface{}, abort func()) *FuseMount {
	m := &FuseMount{Path: path, Proc: cur.Proc, Conn: conn, Abort: abort}
	k.mounts[path] = m
	k.Mounts++
	S.event("%s mount %s", cur.Proc.Name, path)
	return m
}

func (k *FuseKernel) Unmount(m *FuseMount) {
	delete(k.mounts, m.Path)
	k.Unmounts++
	S.event("unmount %s", m.Path)
}

// UnmountOutside is an unmount that the server has not asked for.
func (k *FuseKernel) UnmountOutside(m *FuseMount) {
	delete(k.mounts, m.Path)
	S.event("unmount %s from outside", m.Path)
	S.Inject("unmount_from_outside")
}

// At returns the mount at a path, if any.
func (k *FuseKernel) At(path string) *FuseMount { return k.mounts[path] }

func (k *FuseKernel) All() []*FuseMount {
	var l []*FuseMount
	for _, m := range k.mounts {
		l = append(l, m)
	}
	return l
}

func (k *FuseKernel) procGone(p *Proc) {
	for _, m := range k.mounts {
		if m.Proc == p {
			m.Stale = true
			if m.Abort != nil {
				m.Abort()
			}
		}
	}
}

// Block suspends the current task until ready holds.
func Block(why string, ready func() bool) { block(why, 0, ready) }

// BlockUntil is Block with a deadline.
func BlockUntil(why string, deadline int64, ready func() bool) { block(why, deadline, ready) }

func Event(format string, a ...interface{}) { S.event(format, a...) }
