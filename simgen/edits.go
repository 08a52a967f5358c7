package main

// stdEdits are the seams opened in the standard library. Each anchor must
// occur exactly once in the pinned Go tree; otherwise simgen stops.
var stdEdits = map[string][]edit{
	"runtime/mgcscavenge.go": {
		// the background scavenger's timer would compete with the simulated ones
		{"func (s *scavengerState) wake() {\n", "func (s *scavengerState) wake() {\n	if simNoRetake {\n		return\n	}\n"},
		{"func (s *scavengerState) sleep(worked float64) {\n", "func (s *scavengerState) sleep(worked float64) {\n	if simNoRetake {\n		s.park()\n		return\n	}\n"},
	},
	"runtime/runtime2.go": {
		{"	gcAssistBytes int64\n}\n", "	gcAssistBytes int64\n\n	simg     uint32\n	simepoch uint32\n	simrand  uint64\n	simstep  uint64\n	simprio  uint64\n}\n"},
	},
	"runtime/debug.go": {
		{"func GOMAXPROCS(n int) int {\n", "func GOMAXPROCS(n int) int {\n	if simActiveG() != nil && simMaxProcs > 0 {\n		old := simMaxProcs\n		if n > 0 {\n			simMaxProcs = n\n		}\n		return old\n	}\n"},
		{"func NumCPU() int {\n", "func NumCPU() int {\n	if simActiveG() != nil && simCPUs > 0 {\n		return simCPUs\n	}\n"},
	},
	"runtime/alg.go": {
		{"		key[i] = bootstrapRand()\n", "		key[i] = 0x9e3779b97f4a7c15 * uint64(i+1)\n"},
	},
	"runtime/rand.go": {
		{"	seed := &globalRand.seed\n	if len(startupRand) >= 16 &&", "	seed := &globalRand.seed\n	if true {\n		for i := range seed {\n			seed[i] = byte(i*37 + 11)\n		}\n	} else if len(startupRand) >= 16 &&"},
		{"func rand() uint64 {\n", "func rand() uint64 {\n	if gp := simActiveG(); gp != nil {\n		return simGRand(gp)\n	}\n	if true {\n		return simProcRand()\n	}\n"},
	},
	"runtime/select.go": {
		{"		j := cheaprandn(uint32(norder + 1))\n", "		j := cheaprandn(uint32(norder + 1))\n		if gp := simActiveG(); gp != nil {\n			j = uint32(simGRand(gp) % uint64(norder+1))\n		}\n"},
	},
	"runtime/time.go": {
		{"	return time_now()\n}\n", "	if simOn {\n		w := simClk + simWall\n		return w / 1000000000, int32(w % 1000000000), simClk\n	}\n	return time_now()\n}\n"},
	},
	"runtime/time_nofake.go": {
		{"	return nanotime1()\n", "	if simOn {\n		return simClk\n	}\n	if simNoRetake {\n		if t := nanotime1(); t > simClk {\n			return t\n		}\n		return simClk\n	}\n	return nanotime1()\n"},
	},
	"runtime/proc.go": {
		{"	// local runq\n	if gp, inheritTime := runqget(pp); gp != nil {\n		return gp, inheritTime, false\n	}\n\n	// global runq\n	if sched.runqsize != 0 {\n		lock(&sched.lock)\n		gp := globrunqget(pp, 0)\n		unlock(&sched.lock)\n		if gp != nil {\n			return gp, false, false\n		}\n	}\n",
			"	// local runq\n	if gp, inheritTime := runqget(pp); gp != nil {\n		return gp, inheritTime, false\n	}\n\n	// global runq\n	if sched.runqsize != 0 {\n		lock(&sched.lock)\n		gp := globrunqget(pp, 0)\n		unlock(&sched.lock)\n		if gp != nil {\n			return gp, false, false\n		}\n	}\n\n	if simOn {\n		gp, retry := simPick(pp)\n		if gp != nil {\n			return gp, false, false\n		}\n		if retry {\n			goto top\n		}\n	}\n"},
		{"func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n	if simOn && simEnq(gp) {\n		return\n	}\n"},
		{"func globrunqput(gp *g) {\n	assertLockHeld(&sched.lock)\n", "func globrunqput(gp *g) {\n	assertLockHeld(&sched.lock)\n	if simOn && simEnq(gp) {\n		return\n	}\n"},
		{"	newg.goid = pp.goidcache\n	casgstatus(newg, _Gdead, status)\n", "	newg.goid = pp.goidcache\n	simNewG(newg, callergp)\n	casgstatus(newg, _Gdead, status)\n"},
		{"func retake(now int64) uint32 {\n	n := 0\n", "func retake(now int64) uint32 {\n	n := 0\n	if simNoRetake {\n		return 0\n	}\n"},
		{"	goenvs()\n", "	goenvs()\n	simSeedProc()\n"},
		{"func goexit1() {\n", "func goexit1() {\n	simGoexit()\n"},
		{"func gdestroy(gp *g) {\n", "func gdestroy(gp *g) {\n	simExitG(gp)\n"},
	},
	"syscall/zsyscall_linux_amd64.go": {
		{"func Getpid() (pid int) {\n", "func Getpid() (pid int) {\n	if SimPid != 0 {\n		return SimPid\n	}\n"},
		{"func Close(fd int) (err error) {\n", "func Close(fd int) (err error) {\n	if SimFS != nil {\n		op := &SimOp{Kind: SimClose, Fd: fd}\n		SimFS(op)\n		if op.Done {\n			return op.Err\n		}\n		defer func() { op.Err = err; SimFSPost(op) }()\n	}\n"},
		{"func Fsync(fd int) (err error) {\n", "func Fsync(fd int) (err error) {\n	if SimFS != nil {\n		op := &SimOp{Kind: SimFsync, Fd: fd}\n		SimFS(op)\n		if op.Done {\n			return op.Err\n		}\n		defer func() { op.Err = err; SimFSPost(op) }()\n	}\n"},
		{"func Fdatasync(fd int) (err error) {\n", "func Fdatasync(fd int) (err error) {\n	if SimFS != nil {\n		op := &SimOp{Kind: SimFsync, Fd: fd}\n		SimFS(op)\n		if op.Done {\n			return op.Err\n		}\n		defer func() { op.Err = err; SimFSPost(op) }()\n	}\n"},
		{"func Ftruncate(fd int, length int64) (err error) {\n", "func Ftruncate(fd int, length int64) (err error) {\n	if SimFS != nil {\n		op := &SimOp{Kind: SimFtruncate, Fd: fd, Off: length}\n		SimFS(op)\n		if op.Done {\n			return op.Err\n		}\n		defer func() { op.Err = err; SimFSPost(op) }()\n	}\n"},
		{"func Truncate(path string, length int64) (err error) {\n", "func Truncate(path string, length int64) (err error) {\n	if SimFS != nil {\n		op := &SimOp{Kind: SimTruncate, Path: path, Off: length}\n		SimFS(op)\n		if op.Done {\n			return op.Err\n		}\n		defer func() { op.Err = err; SimFSPost(op) }()\n	}\n"},
		{"func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {\n", "func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {\n	if SimFS != nil {\n		op := &SimOp{Kind: SimRename, Path: oldpath, Path2: newpath}\n		SimFS(op)\n		if op.Done {\n			return op.Err\n		}\n		defer func() { op.Err = err; SimFSPost(op) }()\n	}\n"},
		{"func Mkdirat(dirfd int, path string, mode uint32) (err error) {\n", "func Mkdirat(dirfd int, path string, mode uint32) (err error) {\n	if SimFS != nil {\n		op := &SimOp{Kind: SimMkdir, Path: path}\n		SimFS(op)\n		if op.Done {\n			return op.Err\n		}\n		defer func() { op.Err = err; SimFSPost(op) }()\n	}\n"},
		{"func unlinkat(dirfd int, path string, flags int) (err error) {\n", "func unlinkat(dirfd int, path string, flags int) (err error) {\n	if SimFS != nil {\n		op := &SimOp{Kind: SimUnlink, Path: path, Flags: flags}\n		SimFS(op)\n		if op.Done {\n			return op.Err\n		}\n		defer func() { op.Err = err; SimFSPost(op) }()\n	}\n"},
		{"func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n", "func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n	if SimFS != nil {\n		op := &SimOp{Kind: SimOpen, Path: path, Flags: flags}\n		SimFS(op)\n		if op.Done {\n			return -1, op.Err\n		}\n		defer func() { op.N = int(fd); op.Err = err; SimFSPost(op) }()\n	}\n"},
		{"func linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error) {\n", "func linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error) {\n	if SimFS != nil {\n		op := &SimOp{Kind: SimLink, Path: oldpath, Path2: newpath}\n		SimFS(op)\n		if op.Done {\n			return op.Err\n		}\n		defer func() { op.Err = err; SimFSPost(op) }()\n	}\n"},
		{"func symlinkat(oldpath string, newdirfd int, newpath string) (err error) {\n", "func symlinkat(oldpath string, newdirfd int, newpath string) (err error) {\n	if SimFS != nil {\n		op := &SimOp{Kind: SimSymlink, Path: oldpath, Path2: newpath}\n		SimFS(op)\n		if op.Done {\n			return op.Err\n		}\n		defer func() { op.Err = err; SimFSPost(op) }()\n	}\n"},
		{"func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {\n", "func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {\n	if SimFS != nil {\n		op := &SimOp{Kind: SimStat, Path: path, Stat: stat}\n		SimFS(op)\n		if op.Done {\n			return op.Err\n		}\n		defer func() { op.Err = err; SimFSPost(op) }()\n	}\n"},
		{"func Fstat(fd int, stat *Stat_t) (err error) {\n", "func Fstat(fd int, stat *Stat_t) (err error) {\n	if SimFS != nil {\n		op := &SimOp{Kind: SimFstat, Fd: fd, Stat: stat}\n		SimFS(op)\n		if op.Done {\n			return op.Err\n		}\n		defer func() { op.Err = err; SimFSPost(op) }()\n	}\n"},
		{"func Seek(fd int, offset int64, whence int) (off int64, err error) {\n", "func Seek(fd int, offset int64, whence int) (off int64, err error) {\n	if SimFS != nil {\n		op := &SimOp{Kind: SimSeek, Fd: fd, Off: offset, Flags: whence}\n		SimFS(op)\n		if op.Done {\n			return 0, op.Err\n		}\n		defer func() { op.N = int(off); op.Err = err; SimFSPost(op) }()\n	}\n"},
	},
	"syscall/syscall_unix.go": {
		{"func Read(fd int, p []byte) (n int, err error) {\n", "func Read(fd int, p []byte) (n int, err error) {\n	if SimFS != nil {\n		op := &SimOp{Kind: SimRead, Fd: fd, Buf: p}\n		SimFS(op)\n		if op.Done {\n			return op.N, op.Err\n		}\n		p = op.Buf\n		defer func() { op.N = int(n); op.Err = err; SimFSPost(op) }()\n	}\n"},
		{"func Write(fd int, p []byte) (n int, err error) {\n", "func Write(fd int, p []byte) (n int, err error) {\n	if SimFS != nil {\n		op := &SimOp{Kind: SimWrite, Fd: fd, Buf: p}\n		SimFS(op)\n		if op.Done {\n			return op.N, op.Err\n		}\n		p = op.Buf\n		defer func() { op.N = int(n); op.Err = err; SimFSPost(op) }()\n	}\n"},
		{"func Pread(fd int, p []byte, offset int64) (n int, err error) {\n", "func Pread(fd int, p []byte, offset int64) (n int, err error) {\n	if SimFS != nil {\n		op := &SimOp{Kind: SimPread, Fd: fd, Buf: p, Off: offset}\n		SimFS(op)\n		if op.Done {\n			return op.N, op.Err\n		}\n		p = op.Buf\n		defer func() { op.N = int(n); op.Err = err; SimFSPost(op) }()\n	}\n"},
		{"func Pwrite(fd int, p []byte, offset int64) (n int, err error) {\n", "func Pwrite(fd int, p []byte, offset int64) (n int, err error) {\n	if SimFS != nil {\n		op := &SimOp{Kind: SimPwrite, Fd: fd, Buf: p, Off: offset}\n		SimFS(op)\n		if op.Done {\n			return op.N, op.Err\n		}\n		p = op.Buf\n		defer func() { op.N = int(n); op.Err = err; SimFSPost(op) }()\n	}\n"},
	},
	"internal/syscall/unix/at.go": {
		{"func Unlinkat(dirfd int, path string, flags int) error {\n", "func Unlinkat(dirfd int, path string, flags int) (err error) {\n	if syscall.SimFS != nil {\n		op := &syscall.SimOp{Kind: syscall.SimUnlink, Path: syscall.SimFdPath(dirfd, path), Flags: flags}\n		syscall.SimFS(op)\n		if op.Done {\n			return op.Err\n		}\n		defer func() { op.Err = err; syscall.SimFSPost(op) }()\n	}\n"},
	},
	"internal/syscall/unix/copy_file_range_unix.go": {
		{"(n int, err error) {\n", "(n int, err error) {\n	if syscall.SimFS != nil {\n		return 0, syscall.ENOSYS\n	}\n"},
	},
	"net/http/transport.go": {
		{"func (t *Transport) roundTrip(req *Request) (_ *Response, err error) {\n", "func (t *Transport) roundTrip(req *Request) (_ *Response, err error) {\n	if SimRoundTrip != nil {\n		return SimRoundTrip(req)\n	}\n"},
	},
	"math/rand/rng.go": {
		{"func (rng *rngSource) Uint64() uint64 {\n", "func (rng *rngSource) Uint64() uint64 {\n	if SimRand != nil {\n		if x, ok := SimRand(); ok {\n			return x\n		}\n	}\n"},
	},
	"encoding/gob/decoder.go": {
		// the copies of encodings cost far more than their statements
		{"	\"reflect\"\n", "	\"reflect\"\n	\"runtime\"\n"},
		{"func (dec *Decoder) Decode(e any) error {\n", "func (dec *Decoder) Decode(e any) error {\n	runtime.SimCharge(500)\n"},
	},
	"os/proc.go": {
		{"func Exit(code int) {\n", "func Exit(code int) {\n	if SimExit != nil {\n		SimExit(code)\n	}\n"},
	},
}
