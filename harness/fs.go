package main

import (
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"unsafe"
)

// The simulated disk: real files under the run's scratch directory, seen
// through the system call seam, where calls are yield points and may be made
// to fail. Everything here is called from simulated goroutines and is invisible
// to the race detector (fixed-size tables, no locks), so that the simulator
// adds no ordering of its own.

const (
	maxFd   = 1 << 12
	maxOps  = 1 << 13
	maxData = 1 << 22
	maxPlan = 12
)

type fsFault struct {
	mask  uint64 // kinds of call
	nth   int    // fails the nth matching call (0 based)
	count int    // how many calls in a row fail
	errno syscall.Errno
	sub   string // path must contain
	seen  int
	fired int
	label string
}

type fdInfo struct {
	active bool
	path   string
	off    int64
	gid    uint32
	wr     bool
}

type fsOp struct {
	kind  int
	path  string
	path2 string
	fdKey int // which open file (ordinal of the open), for writes and syncs
	off   int64
	data  int // offset in the data arena
	n     int
	flags int
	fail  bool
	seq   int64
	gid   uint32
}

var (
	fsOn                                    bool
	fsDir                                   string
	fsArmed                                 bool
	fsLogOn                                 bool
	fsPlan                                  [maxPlan]fsFault
	fsPlanN                                 int
	fsFds                                   [maxFd]fdInfo
	fsFdKey                                 [maxFd]int
	fsOpens                                 int
	fsOpenNow                               int
	fsOps                                   [maxOps]fsOp
	fsNOps                                  int
	fsData                                  [maxData]byte
	fsNData                                 int
	fsOverflow                              bool
	fsShortR                                int // reads return at most 1+x%fsShortR bytes
	fsShortW                                int
	fsFree                                  int64 // bytes left on the disk, <0: unlimited
	fsEintr                                 int   // one in fsEintr reads and writes is interrupted
	fsRng                                   uint64
	fsShortRn, fsShortWn, fsEintrN, fsFullN int
	fsCalls                                 int
	fsGuard                                 string // writes outside the scratch directory that were refused
)

func fsReset(dir string) {
	fsDir = dir
	fsArmed, fsLogOn = false, false
	fsPlanN = 0
	fsOpens, fsOpenNow, fsNOps, fsNData = 0, 0, 0, 0
	fsOverflow = false
	fsShortR, fsShortW, fsEintr = 0, 0, 0
	fsFree = -1
	fsRng = 1
	fsShortRn, fsShortWn, fsEintrN, fsFullN, fsCalls = 0, 0, 0, 0, 0
	fsGuard = ""
	fsInitial = nil
	fsNTimes = 0
	for i := range fsFds {
		fsFds[i] = fdInfo{}
	}
	fsOn = true
}

// fsInit installs the file system seam for the whole process.
func fsInit() {
	syscall.SimFSPost = fsPost
	syscall.SimFS = fsPre
}

// fsStop ends the run. Files the code under test left open are closed by the
// collector now, not at an arbitrary moment of a later run; it reports whether
// some stay open.
func fsStop() (dirty bool) {
	fsOn = false
	left := false
	for i := range fsFds {
		left = left || fsFds[i].active
	}
	if !left {
		return false
	}
	for k := 0; k < 4; k++ {
		runtime.GC()
		for j := 0; j < 20; j++ {
			runtime.Gosched()
		}
		dirty = false
		for i := range fsFds {
			if fsFds[i].active {
				if _, _, e := syscall.RawSyscall(syscall.SYS_FCNTL, uintptr(i), syscall.F_GETFD, 0); e == 0 {
					dirty = true
				}
			}
		}
		if !dirty {
			break
		}
	}
	return dirty
}

// fsArm starts injecting faults, fsDisarm stops.
func fsArm()    { fsArmed = true }
func fsDisarm() { fsArmed = false; fsPlanN = 0; fsShortR, fsShortW, fsEintr, fsFree = 0, 0, 0, -1 }

func fsAdd(label string, errno syscall.Errno, nth, count int, sub string, kinds ...int) {
	if fsPlanN == maxPlan {
		return
	}
	var m uint64
	for _, k := range kinds {
		m |= 1 << uint(k)
	}
	fsPlan[fsPlanN] = fsFault{mask: m, nth: nth, count: count, errno: errno, sub: sub, label: label}
	fsPlanN++
}

// fsFired counts the injected failures (not the benign short reads and interrupts).
func fsFired() int {
	n := fsFullN
	for i := 0; i < fsPlanN; i++ {
		n += fsPlan[i].fired
	}
	return n
}

var fsTotals = map[string]int{}

// fsSettle adds what fired so far to the run's totals.
func fsSettle() {
	for i := 0; i < fsPlanN; i++ {
		if fsPlan[i].fired > 0 {
			fsTotals[fsPlan[i].label] += fsPlan[i].fired
			fsPlan[i].fired = 0
		}
	}
	add := func(k string, n *int) {
		if *n > 0 {
			fsTotals[k] += *n
			*n = 0
		}
	}
	add("short read", &fsShortRn)
	add("short write", &fsShortWn)
	add("EINTR", &fsEintrN)
	add("disk full", &fsFullN)
}

func fsCounts(m map[string]int) {
	fsSettle()
	for k, v := range fsTotals {
		m[k] += v
	}
	clear(fsTotals)
	for k, v := range netTotals {
		m[k] += v
	}
	clear(netTotals)
}

//go:norace
func fsRand() uint64 { fsRng = mix(fsRng); return fsRng }

//go:norace
func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

//go:norace
func fsContains(s, sub string) bool {
	if sub == "" {
		return true
	}
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

//go:norace
func fsPre(op *syscall.SimOp) {
	gid := runtime.SimGid()
	if gid <= 1 || !fsOn {
		return
	}
	fsCalls++
	path := op.Path
	fd := -1
	mine := false
	switch op.Kind {
	case syscall.SimRead, syscall.SimPread, syscall.SimWrite, syscall.SimPwrite, syscall.SimClose, syscall.SimFsync, syscall.SimFtruncate, syscall.SimFstat, syscall.SimSeek:
		fd = op.Fd
		if fd >= 0 && fd < maxFd && fsFds[fd].active {
			path = fsFds[fd].path
			mine = true
		}
	default:
		mine = hasPrefix(path, fsDir)
		if !mine {
			// keep every destructive effect inside the scratch directory
			switch op.Kind {
			case syscall.SimOpen:
				if op.Flags&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0 && !hasPrefix(path, "/dev/") {
					fsGuard = path
					op.Done, op.Err = true, syscall.EACCES
					return
				}
			case syscall.SimRename, syscall.SimUnlink, syscall.SimMkdir, syscall.SimTruncate, syscall.SimLink, syscall.SimSymlink:
				fsGuard = path
				op.Done, op.Err = true, syscall.EACCES
				return
			}
		}
	}
	runtime.SimYield(0)
	if !mine {
		return
	}
	if fsArmed {
		for i := 0; i < fsPlanN; i++ {
			f := &fsPlan[i]
			if f.mask&(1<<uint(op.Kind)) == 0 || !fsContains(path, f.sub) {
				continue
			}
			n := f.seen
			f.seen++
			if n >= f.nth && n < f.nth+f.count {
				f.fired++
				op.Done = true
				op.Err = f.errno
				op.N = -1
				if op.Kind == syscall.SimRead || op.Kind == syscall.SimPread || op.Kind == syscall.SimWrite || op.Kind == syscall.SimPwrite {
					op.N = -1
				}
				if op.Kind == syscall.SimClose {
					// the descriptor is gone even when close reports an error
					syscall.RawSyscall(syscall.SYS_CLOSE, uintptr(fd), 0, 0)
					fsFds[fd].active = false
					fsOpenNow--
				}
				fsLog(op, path, fd, gid, true)
				return
			}
		}
		switch op.Kind {
		case syscall.SimRead, syscall.SimPread:
			if fsEintr > 0 && fsRand()%uint64(fsEintr) == 0 {
				fsEintrN++
				op.Done, op.N, op.Err = true, -1, syscall.EINTR
				return
			}
			if fsShortR > 0 {
				k := 1 + int(fsRand()%uint64(fsShortR))
				if k < len(op.Buf) {
					op.Buf = op.Buf[:k]
					fsShortRn++
				}
			}
		case syscall.SimWrite, syscall.SimPwrite:
			if fsEintr > 0 && fsRand()%uint64(fsEintr) == 0 {
				fsEintrN++
				op.Done, op.N, op.Err = true, -1, syscall.EINTR
				return
			}
			if fsShortW > 0 {
				k := 1 + int(fsRand()%uint64(fsShortW))
				if k < len(op.Buf) {
					op.Buf = op.Buf[:k]
					fsShortWn++
				}
			}
			if fsFree >= 0 {
				if fsFree == 0 && len(op.Buf) > 0 {
					fsFullN++
					op.Done, op.N, op.Err = true, -1, syscall.ENOSPC
					fsLog(op, path, fd, gid, true)
					return
				}
				if int64(len(op.Buf)) > fsFree {
					op.Buf = op.Buf[:fsFree]
				}
			}
		}
	}
	if op.Kind == syscall.SimClose {
		fsFds[fd].active = false
		fsOpenNow--
		fsLog(op, path, fd, gid, false)
	}
}

// fsTimes are the simulated times at which files were written.
var (
	fsTimes  [256]struct{ ino, ns uint64 }
	fsNTimes int
)

// fsWritten records that the file behind a descriptor changed now.
//
//go:norace
func fsWritten(fd int) {
	var st syscall.Stat_t
	if _, _, e := syscall.RawSyscall(syscall.SYS_FSTAT, uintptr(fd), uintptr(unsafe.Pointer(&st)), 0); e != 0 {
		return
	}
	for i := 0; i < fsNTimes; i++ {
		if fsTimes[i].ino == st.Ino {
			fsTimes[i].ns = uint64(runtime.SimWallNow())
			return
		}
	}
	if fsNTimes < len(fsTimes) {
		fsTimes[fsNTimes].ino, fsTimes[fsNTimes].ns = st.Ino, uint64(runtime.SimWallNow())
		fsNTimes++
	}
}

// fsTime puts the simulated time of the last change in place of the real one.
//
//go:norace
func fsTime(st *syscall.Stat_t) {
	ns := uint64(wallStart)
	for i := 0; i < fsNTimes; i++ {
		if fsTimes[i].ino == st.Ino {
			ns = fsTimes[i].ns
		}
	}
	t := syscall.Timespec{Sec: int64(ns / 1e9), Nsec: int64(ns % 1e9)}
	st.Mtim, st.Ctim, st.Atim = t, t, t
}

//go:norace
func fsPost(op *syscall.SimOp) {
	if !fsOn {
		return
	}
	if op.Err == nil {
		switch op.Kind {
		case syscall.SimOpen:
			if op.Flags&(syscall.O_CREAT|syscall.O_TRUNC) != 0 {
				fsWritten(op.N)
			}
		case syscall.SimWrite, syscall.SimPwrite, syscall.SimFtruncate:
			fsWritten(op.Fd)
		case syscall.SimStat, syscall.SimFstat:
			fsTime(op.Stat)
		}
	}
	gid := runtime.SimGid()
	if gid <= 1 || !fsOn {
		return
	}
	switch op.Kind {
	case syscall.SimOpen:
		if hasPrefix(op.Path, fsDir) && op.Err == nil && op.N >= 0 && op.N < maxFd {
			fsOpens++
			fsOpenNow++
			fsFds[op.N] = fdInfo{active: true, path: op.Path, gid: gid, wr: op.Flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0}
			fsFdKey[op.N] = fsOpens
			fsLog(op, op.Path, op.N, gid, false)
		}
	case syscall.SimWrite, syscall.SimPwrite:
		if op.Fd >= 0 && op.Fd < maxFd && fsFds[op.Fd].active && op.Err == nil {
			if fsFree >= 0 {
				fsFree -= int64(op.N)
			}
			if op.Kind == syscall.SimWrite {
				op.Off = fsFds[op.Fd].off
				fsFds[op.Fd].off += int64(op.N)
			}
			fsLog(op, fsFds[op.Fd].path, op.Fd, gid, false)
		}
	case syscall.SimSeek:
		if op.Fd >= 0 && op.Fd < maxFd && fsFds[op.Fd].active && op.Err == nil {
			fsFds[op.Fd].off = int64(op.N)
		}
	case syscall.SimRead:
		if op.Fd >= 0 && op.Fd < maxFd && fsFds[op.Fd].active && op.N > 0 {
			fsFds[op.Fd].off += int64(op.N)
		}
	case syscall.SimFsync, syscall.SimFtruncate:
		if op.Fd >= 0 && op.Fd < maxFd && fsFds[op.Fd].active && op.Err == nil {
			fsLog(op, fsFds[op.Fd].path, op.Fd, gid, false)
		}
	case syscall.SimRename, syscall.SimUnlink, syscall.SimMkdir, syscall.SimTruncate, syscall.SimLink, syscall.SimSymlink:
		if hasPrefix(op.Path, fsDir) && op.Err == nil {
			fsLog(op, op.Path, -1, gid, false)
		}
	}
	runtime.SimYield(0)
}

//go:norace
func fsLog(op *syscall.SimOp, path string, fd int, gid uint32, fail bool) {
	if !fsLogOn {
		return
	}
	if fsNOps >= maxOps {
		fsOverflow = true
		return
	}
	o := &fsOps[fsNOps]
	*o = fsOp{kind: op.Kind, path: path, path2: op.Path2, off: op.Off, flags: op.Flags, fail: fail, gid: gid}
	if fd >= 0 && fd < maxFd {
		o.fdKey = fsFdKey[fd]
	}
	seqNo++
	o.seq = int64(seqNo)
	if (op.Kind == syscall.SimWrite || op.Kind == syscall.SimPwrite) && !fail {
		o.n = op.N
		o.data = fsNData
		if fsNData+op.N > maxData {
			fsOverflow = true
		} else {
			for i := 0; i < op.N; i++ {
				fsData[fsNData+i] = op.Buf[i]
			}
			fsNData += op.N
		}
	}
	fsNOps++
}

// fsOpenPaths lists files opened by simulated goroutines and not closed.
func fsOpenPaths() []string {
	var l []string
	for i := range fsFds {
		if fsFds[i].active {
			l = append(l, strings.TrimPrefix(fsFds[i].path, fsDir))
		}
	}
	sort.Strings(l)
	return l
}

// --- crash states -------------------------------------------------------

type inode struct {
	data   []byte
	synced []byte // content as of the last successful sync
	hasSyn bool
	writes []fsOp // since the last sync
}

// fsInitial is what was on the disk before logging started.
var fsInitial map[string][]byte

// disk is the state the logged calls lead to.
type disk struct {
	dir   map[string]*inode
	byKey map[int]*inode
}

func newDisk() *disk {
	d := &disk{map[string]*inode{}, map[int]*inode{}}
	for p, b := range fsInitial {
		d.dir[filepath.Clean(p)] = &inode{data: b, synced: b, hasSyn: true}
	}
	return d
}

// apply performs logged call i; the directory change it makes is lost if lost.
func (d *disk) apply(i int, lost bool) {
	o := &fsOps[i]
	if o.fail {
		return
	}
	from, to := filepath.Clean(o.path), filepath.Clean(o.path2)
	switch o.kind {
	case syscall.SimOpen:
		ino := d.dir[from]
		if ino == nil {
			if o.flags&syscall.O_CREAT == 0 {
				return
			}
			ino = &inode{}
			if !lost {
				d.dir[from] = ino
			}
		} else if o.flags&syscall.O_TRUNC != 0 && !lost {
			ino.data, ino.synced, ino.hasSyn, ino.writes = nil, nil, false, nil
		}
		d.byKey[o.fdKey] = ino
	case syscall.SimWrite, syscall.SimPwrite:
		ino := d.byKey[o.fdKey]
		if ino == nil {
			return
		}
		end := int(o.off) + o.n
		b := make([]byte, max(end, len(ino.data)))
		copy(b, ino.data)
		copy(b[o.off:end], fsData[o.data:o.data+o.n])
		ino.data = b
		ino.writes = append(ino.writes, *o)
	case syscall.SimFsync:
		if ino := d.byKey[o.fdKey]; ino != nil {
			ino.synced = ino.data
			ino.hasSyn = true
			ino.writes = nil
		}
	case syscall.SimFtruncate:
		if ino := d.byKey[o.fdKey]; ino != nil && !lost {
			ino.data = resize(ino.data, int(o.off))
		}
	case syscall.SimTruncate:
		if ino := d.dir[from]; ino != nil && !lost {
			ino.data = resize(ino.data, int(o.off))
		}
	case syscall.SimRename:
		if ino := d.dir[from]; ino != nil && !lost {
			d.dir[to] = ino
			delete(d.dir, from)
		}
	case syscall.SimLink:
		if ino := d.dir[from]; ino != nil && !lost {
			d.dir[to] = ino
		}
	case syscall.SimUnlink:
		if !lost {
			delete(d.dir, from)
		}
	}
}

// crashState applies the first k logged calls and then cuts the power (power)
// or kills the process (!power). With power loss, the directory changes after
// call number meta are lost and unsynced data is lost or torn as choose says.
// Returns path -> content.
func crashState(k, meta int, power bool, choose func(n int) int) map[string][]byte {
	d := newDisk()
	if meta > k {
		meta = k
	}
	for i := 0; i < k; i++ {
		isMeta := true
		switch fsOps[i].kind {
		case syscall.SimWrite, syscall.SimPwrite, syscall.SimFsync:
			isMeta = false
		}
		d.apply(i, power && isMeta && i >= meta)
	}
	dir := d.dir
	out := map[string][]byte{}
	done := map[*inode][]byte{}
	var names []string
	for p := range dir {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		ino := dir[p]
		if b, ok := done[ino]; ok {
			out[p] = b
			continue
		}
		b := ino.data
		if power && len(ino.writes) > 0 {
			b = append([]byte(nil), ino.synced...)
			for _, w := range ino.writes {
				n := w.n
				switch choose(4) {
				case 0: // on disk
				case 1: // lost
					n = 0
				case 2: // torn
					n = choose(w.n + 1)
				case 3: // the size is on disk, the data is not
					for len(b) < int(w.off)+w.n {
						b = append(b, 0)
					}
					n = 0
				}
				if n == 0 {
					continue
				}
				for len(b) < int(w.off)+n {
					b = append(b, 0)
				}
				copy(b[w.off:int(w.off)+n], fsData[w.data:w.data+n])
			}
		}
		done[ino] = b
		out[p] = b
	}
	return out
}

func resize(b []byte, n int) []byte {
	if n <= len(b) {
		return b[:n:n]
	}
	return append(append([]byte(nil), b...), make([]byte, n-len(b))...)
}

// lastSync returns the number of logged calls up to and including the last
// successful sync before k: directory changes before it are on disk.
func lastSync(k int) int {
	for i := k - 1; i >= 0; i-- {
		if fsOps[i].kind == syscall.SimFsync && !fsOps[i].fail {
			return i + 1
		}
	}
	return 0
}

// materialise writes a crash state below to, replacing the prefix from.
func materialise(st map[string][]byte, from, to string) {
	must(os.MkdirAll(to, 0o755))
	for p, b := range st {
		if !strings.HasPrefix(p, from) {
			continue
		}
		q := to + strings.TrimPrefix(p, from)
		must(os.MkdirAll(filepath.Dir(q), 0o755))
		must(os.WriteFile(q, b, 0o644))
	}
}
