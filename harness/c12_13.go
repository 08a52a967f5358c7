package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/sugarme/tokenizer"
)

// C12, C13: resolving pretrained files through the cache, over a simulated
// network and a simulated disk.

func init() {
	checks["C12"] = c12
	checks["C13"] = c13
}

type srcFile struct {
	model, name string
	local       bool
	missing     bool
	isDir       bool
	content     []byte
	older       [][]byte // what the server had before
}

// complete tells whether b is the whole file, of this revision or a former one.
func (s *srcFile) complete(b []byte) bool {
	if s.missing {
		return false
	}
	for _, o := range s.older {
		if bytes.Equal(o, b) {
			return true
		}
	}
	return bytes.Equal(b, s.content)
}

func (s *srcFile) String() string {
	where := "remote"
	if s.local {
		where = "local"
	}
	if s.isDir {
		where = "local directory"
	}
	if s.missing {
		return fmt.Sprintf("%s/%s (missing)", s.model, s.name)
	}
	return fmt.Sprintf("%s/%s (%s, %d bytes)", s.model, s.name, where, len(s.content))
}

type resolver struct {
	r     *R
	dir   string // the cache directory
	files []*srcFile
	first bool // CachedDir is still to be initialised

	crashed bool // an older revision may have been cached before the crash
}

// final is where a resolved file lives.
func (v *resolver) final(dir string, s *srcFile) string {
	return filepath.Clean(dir + "/" + s.model + "/" + s.name)
}

func content(r *R, i int) []byte {
	n := pick(r, []int{0, 1, 2, 17, 100, 255, 700, 3000})
	if r.Chance(1, 12) {
		// at and beyond the sizes of buffers
		n = pick(r, []int{4096, 8192, 32768, 65536}) - 1 + r.N(3)
	} else if n > 2 {
		n += r.N(n)
	}
	b := make([]byte, n)
	x := uint64(i*7919 + n)
	for k := range b {
		x = mix(x)
		b[k] = "{}\":, abcdefgh\n"[x%15]
	}
	return b
}

func genResolver(r *R) *resolver {
	v := &resolver{r: r, dir: r.dir + "/cache"}
	n := 1 + r.N(3)
	names := []string{"tokenizer.json", "vocab.txt", "merges.txt", "onnx/tokenizer.json", "config.json"}
	models := []string{"bert-base-uncased", "org/model", "org/model-2", "gpt2"}
	if r.Chance(1, 4) {
		// names that are easily taken for one another
		n = 2 + r.N(4)
		names = pick(r, [][]string{{"tokenizer.json"}, {"tokenizer.json", "tokenizer.json.bak", "tokenizer_json", "Tokenizer.json"}, {"onnx/tokenizer.json", "onnx_tokenizer.json", "onnx-tokenizer.json", "tokenizer.json"}, {"a/vocab.txt", "b/vocab.txt", "vocab.txt"}})
		models = pick(r, [][]string{{"org/model", "org_model", "org-model", "org--model", "orgmodel", "org.model"}, {"org/model", "other/model", "model"}, {"org/model", "Org/model", "org/Model"}, {"org/model", "org/model-v1", "org/model.v1", "org/model_v1"}})
		r.Probe("similar names")
	}
	for i := 0; i < n; i++ {
		s := &srcFile{name: pick(r, names)}
		switch r.N(5) {
		case 0, 1, 2:
			s.model = pick(r, models)
		default:
			s.local = true
			s.model = fmt.Sprintf("%s/local/%s", r.dir, pick(r, []string{"m0", "m1", "m/0", "m_0"}))
		}
		dup := false
		for _, o := range v.files {
			dup = dup || (o.model == s.model && o.name == s.name)
		}
		if dup {
			continue
		}
		s.content = content(r, i)
		if r.Chance(1, 8) {
			s.missing = true
			s.isDir = s.local && r.Chance(1, 2)
		}
		if s.local {
			p := s.model + "/" + s.name
			must(os.MkdirAll(filepath.Dir(p), 0o755))
			if s.isDir {
				must(os.MkdirAll(p, 0o755))
			} else if !s.missing {
				must(os.WriteFile(p, s.content, 0o644))
			}
		} else if !s.missing {
			netRoutes[fmt.Sprintf("%s/%s/resolve/main/%s", tokenizer.HFpath, s.model, s.name)] = s.content
		}
		if s.isDir || !s.missing || !s.local {
			v.files = append(v.files, s)
		}
	}
	if len(v.files) == 0 {
		r.Skip("no file to resolve")
	}
	must(os.MkdirAll(r.dir+"/home", 0o755))
	must(os.Setenv("HOME", r.dir+"/home"))
	must(os.Unsetenv("GO_TOKENIZER"))
	tokenizer.CachedDir = v.dir
	how := "set"
	switch r.N(4) {
	case 0:
		v.first = true
		tokenizer.CachedDir = "NOT_SETTING"
		if r.Chance(1, 2) {
			how = "from GO_TOKENIZER"
			must(os.Setenv("GO_TOKENIZER", v.dir))
		} else {
			how = "from HOME"
			v.dir = r.dir + "/home/.cache/tokenizer"
		}
	}
	exists := r.Chance(1, 2)
	if exists {
		must(os.MkdirAll(v.dir, 0o755))
		for _, s := range v.files {
			f := v.final(v.dir, s)
			switch r.N(6) {
			case 0: // what an earlier process left when it died
				must(os.MkdirAll(filepath.Dir(f), 0o755))
				for _, suf := range []string{".tmp", ".123456789.tmp", ".part", "~"} {
					if r.Chance(1, 2) {
						b := []byte("torn left over")
						if len(s.content) > 0 && r.Chance(1, 2) {
							b = s.content[:len(s.content)/2]
						}
						must(os.WriteFile(f+suf, b, 0o644))
					}
				}
				r.Probe("left over temporary files")
			case 1:
				if !s.missing {
					must(os.MkdirAll(filepath.Dir(f), 0o755))
					must(os.WriteFile(f, s.content, 0o644))
					r.Probe("already cached")
				}
			}
		}
	}
	r.Desc("cache directory %s (%s), there: %v, files %v", strings.TrimPrefix(v.dir, r.dir), how, exists, v.files)
	return v
}

// rawRead reads a file past the simulated disk, without a scheduling point.
func rawRead(path string) ([]byte, bool) {
	p, err := syscall.BytePtrFromString(path)
	if err != nil {
		return nil, false
	}
	const atFdcwd = -100
	d := atFdcwd
	fd, _, e := syscall.RawSyscall6(syscall.SYS_OPENAT, uintptr(d), uintptr(unsafe.Pointer(p)), syscall.O_RDONLY|syscall.O_CLOEXEC, 0, 0, 0)
	if e != 0 {
		return nil, false
	}
	var out []byte
	buf := make([]byte, 1<<14)
	for {
		n, _, e := syscall.RawSyscall(syscall.SYS_READ, fd, uintptr(unsafe.Pointer(&buf[0])), uintptr(len(buf)))
		if e != 0 || n == 0 {
			syscall.RawSyscall(syscall.SYS_CLOSE, fd, 0, 0)
			return out, e == 0
		}
		out = append(out, buf[:n]...)
	}
}

type resolve struct {
	s    *srcFile
	path string
	err  error
	got  []byte
	read bool
	done bool
}

func (j *resolve) run() {
	j.path, j.err = tokenizer.CachedPath(j.s.model, j.s.name)
	if j.err == nil {
		j.got, j.read = rawRead(j.path)
	}
	j.done = true
}

func cutAt(b []byte, n int) string {
	if len(b) > n {
		return fmt.Sprintf("%q… (%d bytes)", b[:n], len(b))
	}
	return fmt.Sprintf("%q (%d bytes)", b, len(b))
}

// judge checks what one call returned; faults says whether anything failed.
func (v *resolver) judge(j *resolve, what string, faults bool) bool {
	r := v.r
	if !j.done {
		return true
	}
	if j.err != nil {
		if !faults && !j.s.missing {
			r.Fail("unavailable", "%s: resolving %s fails on a healthy system: %v", what, j.s, j.err)
			return false
		}
		r.Probe("resolution failed with an error")
		return true
	}
	if j.s.missing {
		r.Fail("phantom", "%s: resolving %s, which does not exist, succeeds with %q", what, j.s, strings.TrimPrefix(j.path, r.dir))
		return false
	}
	if !j.read {
		r.Fail("missing", "%s: resolving %s returned %q, which cannot be read", what, j.s, strings.TrimPrefix(j.path, r.dir))
		return false
	}
	if !bytes.Equal(j.got, j.s.content) && !(v.crashed && j.s.complete(j.got)) {
		r.Fail("partial", "%s: resolving %s succeeded, but the file holds %s instead of %s", what, j.s, cutAt(j.got, 60), cutAt(j.s.content, 60))
		return false
	}
	if j.s.local {
		r.Probe("resolved local")
	} else {
		r.Probe("resolved remote")
	}
	return true
}

// faults draws what the disk and the network do during one round.
func (v *resolver) faults() {
	r := v.r
	netNPlans = netNReqs
	if r.Chance(2, 3) {
		n := 1 + r.N(4)
		for i := 0; i < n && netNPlans < maxReq; i++ {
			p := netPlan{chunk: pick(r, []int{1, 7, 64, 512, 1 << 20}), noLen: r.Chance(1, 3), with: r.Chance(1, 3), whole: r.Chance(1, 2)}
			if r.Chance(1, 4) {
				p.delay = pick(r, []time.Duration{time.Millisecond, time.Second, time.Minute})
				p.chunk = max(p.chunk, 512)
			}
			p.kind = pick(r, []int{netOK, netOK, netRefused, netStatus, netCut, netCut, netRst, netTimeout, netStatusBig})
			p.at = r.N(pick(r, []int{1, 4, 100, 1000}))
			p.status = pick(r, []int{500, 503, 404, 403, 429, 401, 206, 204, 203, 202, 304, 100 + 100*r.N(2)})
			if p.status < 200 || p.status == 200 {
				p.status = 502
			}
			netPlans[netNPlans] = p
			netNPlans++
			r.Desc("request %d: %s at %d, pieces of %d, %v each, length known %v, status %d, end with data %v, Range ignored %v", netNPlans-1, netNames[p.kind], p.at, p.chunk, p.delay, !p.noLen, p.status, p.with, p.whole)
		}
	}
	if r.Chance(2, 3) {
		fsRng = mix(uint64(r.N(1 << 30)))
		if r.Chance(1, 3) {
			fsShortW = pick(r, []int{1, 3, 50, 700})
		}
		if r.Chance(1, 4) {
			fsShortR = pick(r, []int{1, 3, 50, 700})
		}
		if r.Chance(1, 6) {
			fsEintr = 2 + r.N(6)
		}
		if r.Chance(1, 6) {
			fsFree = int64(r.N(pick(r, []int{1, 20, 500, 3000})))
			r.Desc("fault: disk full after %d bytes", fsFree)
		}
		n := r.N(3)
		for i := 0; i < n; i++ {
			many := pick(r, []int{1, 1, 1, 2, 1 << 20})
			sub := pick(r, []string{"", "", "/cache", "/local", "tmp"})
			k := fsPlanN
			switch r.N(10) {
			case 0:
				fsAdd("open failure", pick(r, openErrnos), r.Small(8), many, sub, syscall.SimOpen)
			case 1, 2:
				fsAdd("write failure", pick(r, writeErrnos), r.Small(12), many, sub, syscall.SimWrite, syscall.SimPwrite)
			case 3, 4:
				fsAdd("close failure", pick(r, writeErrnos), r.N(4), many, sub, syscall.SimClose)
			case 5:
				fsAdd("sync failure", pick(r, writeErrnos), r.N(3), many, sub, syscall.SimFsync)
			case 6:
				fsAdd("rename failure", pick(r, []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.EXDEV, syscall.ENOSPC}), r.N(3), many, sub, syscall.SimRename, syscall.SimLink)
			case 7:
				fsAdd("read failure", pick(r, readErrnos), r.Small(8), many, sub, syscall.SimRead, syscall.SimPread)
			case 8:
				fsAdd("stat or mkdir failure", pick(r, []syscall.Errno{syscall.EACCES, syscall.EIO, syscall.ENOSPC, syscall.ELOOP}), r.Small(8), many, sub, syscall.SimStat, syscall.SimMkdir, syscall.SimFstat)
			case 9:
				fsAdd("unlink failure", pick(r, []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.EBUSY}), r.N(2), many, sub, syscall.SimUnlink)
			}
			if fsPlanN > k {
				f := fsPlan[k]
				r.Desc("fault: %s %v from the %dth on, %d times, path %q", f.label, f.errno, f.nth+1, f.count, f.sub)
			}
		}
	}
	fsArm()
}

// visible checks the files under their final names right now.
func (v *resolver) visible(what string) bool {
	for _, s := range v.files {
		f := v.final(v.dir, s)
		b, ok := rawRead(f)
		if !ok {
			continue
		}
		if !s.complete(b) {
			v.r.Fail("partial", "%s: %s is in the cache and holds %s instead of %s", what, s, cutAt(b, 60), cutAt(s.content, 60))
			return false
		}
	}
	return true
}

// snapshot is what is on the disk now, the start of the log.
func (v *resolver) snapshot() {
	fsInitial = map[string][]byte{}
	must(filepath.Walk(v.r.dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			must(err)
			fsInitial[p] = b
		}
		return nil
	}))
}

// history checks the visible files after every single call the disk saw, then
// crashes at drawn points and recovers.
func (v *resolver) history() bool {
	r := v.r
	if fsOverflow {
		r.Probe("operation log full")
		return true
	}
	d := newDisk()
	last := map[*srcFile]*byte{}
	for i := 0; i < fsNOps; i++ {
		d.apply(i, false)
		for _, s := range v.files {
			ino := d.dir[v.final(v.dir, s)]
			if ino == nil {
				last[s] = nil
				continue
			}
			var p *byte
			if len(ino.data) > 0 {
				p = &ino.data[0]
				if last[s] == p {
					continue
				}
			}
			last[s] = p
			if !s.complete(ino.data) {
				r.Fail("visible", "after call %d (%s) %s is visible in the cache with %s instead of %s", i, opName(i, r.dir), s, cutAt(ino.data, 60), cutAt(s.content, 60))
				return false
			}
		}
	}
	if fsNOps == 0 {
		return true
	}
	n := 1 + r.N(4)
	for c := 0; c < n; c++ {
		// crash close to the calls that matter more often than far from them
		k := r.N(fsNOps + 1)
		if r.Chance(1, 2) {
			var ks []int
			for i := 0; i < fsNOps; i++ {
				switch fsOps[i].kind {
				case syscall.SimRename, syscall.SimFsync, syscall.SimLink, syscall.SimClose:
					ks = append(ks, i)
				}
			}
			if len(ks) > 0 {
				k = min(fsNOps, pick(r, ks)+r.N(2))
			}
		}
		power := r.Chance(2, 3)
		meta := k
		if power {
			lo := lastSync(k)
			meta = lo + r.N(k-lo+1)
			r.res.Faults["power loss"]++
		} else {
			r.res.Faults["process crash"]++
		}
		st := crashState(k, meta, power, r.N)
		bad := false
		for _, s := range v.files {
			if b, ok := st[v.final(v.dir, s)]; ok && !s.complete(b) {
				r.Fail("crash", "%s, directory changes on disk up to call %d: %s is visible in the cache with %s instead of %s", crashName(k, power, r.dir), meta, s, cutAt(b, 60), cutAt(s.content, 60))
				bad = true
			}
		}
		if bad {
			return false
		}
		if c > 0 {
			continue
		}
		// restart with what survived
		to := fmt.Sprintf("%s/after%d", r.dir, c)
		materialise(st, v.dir, to)
		must(os.MkdirAll(to, 0o755))
		keep := tokenizer.CachedDir
		tokenizer.CachedDir = to
		logged := fsLogOn
		v.crashed = true
		fsLogOn = false
		for _, s := range v.files {
			j := &resolve{s: s}
			if !r.Judge(r.Do("resolve after the crash", j.run), "resolving after "+crashName(k, power, r.dir), true) {
				return false
			}
			if !v.judge(j, "after "+crashName(k, power, r.dir), false) {
				return false
			}
		}
		fsLogOn = logged
		v.crashed = false
		tokenizer.CachedDir = keep
		r.Probe("recovered after a crash")
	}
	return true
}

func opName(i int, dir string) string {
	o := &fsOps[i]
	names := map[int]string{syscall.SimOpen: "open", syscall.SimWrite: "write", syscall.SimPwrite: "pwrite", syscall.SimClose: "close", syscall.SimFsync: "fsync", syscall.SimRename: "rename",
		syscall.SimUnlink: "unlink", syscall.SimMkdir: "mkdir", syscall.SimFtruncate: "ftruncate", syscall.SimTruncate: "truncate", syscall.SimLink: "link", syscall.SimSymlink: "symlink"}
	s := fmt.Sprintf("%s %s", names[o.kind], strings.TrimPrefix(o.path, dir))
	if o.path2 != "" {
		s += " to " + strings.TrimPrefix(o.path2, dir)
	}
	return s
}

func crashName(k int, power bool, dir string) string {
	w := "process crash"
	if power {
		w = "power loss"
	}
	if k == 0 {
		return w + " before the first call"
	}
	return fmt.Sprintf("%s after call %d (%s)", w, k-1, opName(k-1, dir))
}

// round runs one set of concurrent resolutions and judges them.
func (v *resolver) round(what string, faulty bool) (*Outcome, []*resolve, bool) {
	r := v.r
	n := 1
	if r.Chance(1, 2) {
		n = 2 + r.N(3)
	}
	var js []*resolve
	for i := 0; i < n; i++ {
		m := 1
		if r.Chance(1, 4) {
			m = 2
		}
		var mine []*resolve
		for k := 0; k < m; k++ {
			j := &resolve{s: pick(r, v.files)}
			if r.Chance(1, 2) {
				j.s = v.files[0]
			}
			mine = append(mine, j)
			js = append(js, j)
			r.Desc("%s, client %d resolves %s", what, i, j.s)
		}
		r.Go(fmt.Sprintf("client %d", i), func() {
			for _, j := range mine {
				j.run()
			}
		})
	}
	req0 := netNReqs
	if faulty {
		v.faults()
	} else {
		netHeal()
	}
	o := r.Wait()
	failed := fsFired() > 0 || netFailed(req0) > 0
	fsSettle()
	fsDisarm()
	netHeal()
	return o, js, failed
}

// revise lets the server have another revision of files that are not cached.
func (v *resolver) revise() {
	r := v.r
	if !r.Chance(1, 3) || v.dir != tokenizer.CachedDir {
		return
	}
	for i, s := range v.files {
		if s.local || s.missing || !r.Chance(2, 3) {
			continue
		}
		if _, ok := rawRead(v.final(v.dir, s)); ok {
			continue
		}
		next := content(r, i+100+len(s.older))
		if r.Chance(1, 2) { // of the same length
			next = append([]byte(nil), s.content...)
			for k := range next {
				next[k] = next[k]%100 + 20
			}
		}
		s.older = append(s.older, s.content)
		s.content = next
		netRoutes[fmt.Sprintf("%s/%s/resolve/main/%s", tokenizer.HFpath, s.model, s.name)] = next
		r.Desc("the server has another revision of %s", s)
		r.Probe("another revision on the server")
	}
}

func (v *resolver) clean() bool {
	r := v.r
	var err error
	o := r.Do("clean", func() { err = tokenizer.CleanCache() })
	r.Desc("the cache is cleaned")
	if !r.Judge(o, "cleaning the cache", true) {
		return false
	}
	if err != nil {
		r.Skip("cleaning failed: %v", err)
	}
	r.Probe("cache cleaned")
	return true
}

// overwrite writes the beginning of another revision into the local sources, in
// place: half of it is no complete file, whatever the cache has made of it.
func (v *resolver) overwrite() bool {
	r := v.r
	for _, s := range v.files {
		if !s.local || s.missing {
			continue
		}
		was, ok := rawRead(v.final(v.dir, s))
		if !ok {
			continue
		}
		half := append([]byte("half of "), was[:len(was)/2]...)
		must(os.WriteFile(s.model+"/"+s.name, half, 0o644))
		r.Desc("%s is being overwritten", s)
		r.Probe("local source overwritten in place")
		if is, ok := rawRead(v.final(v.dir, s)); ok && !s.complete(is) {
			r.Fail("partial", "while the source of %s was overwritten, the cached file became %s", s, cutAt(is, 60))
			return false
		}
		must(os.WriteFile(s.model+"/"+s.name, s.content, 0o644))
	}
	return true
}

func c12(r *R) {
	v := genResolver(r)
	defer func() { tokenizer.CachedDir = r.dir }()
	v.snapshot()
	fsLogOn = true
	rounds := 1 + r.N(3)
	for i := 0; i < rounds; i++ {
		what := fmt.Sprintf("round %d", i)
		o, js, failed := v.round(what, r.Chance(4, 5))
		if !r.Judge(o, what, false) {
			return
		}
		for _, j := range js {
			if !v.judge(j, what, failed) {
				return
			}
		}
		if !v.visible("after " + what) {
			return
		}
		if tokenizer.CachedDir != "NOT_SETTING" && r.Chance(1, 8) && !v.clean() {
			return
		}
		v.revise()
	}
	// the system is healthy again
	for _, s := range v.files {
		j := &resolve{s: s}
		if !r.Judge(r.Do("resolve again", j.run), "resolving again", false) || !v.judge(j, "after the faults stopped", false) {
			return
		}
	}
	if !v.visible("at the end") {
		return
	}
	fsLogOn = false
	if r.Chance(1, 3) && !v.overwrite() {
		return
	}
	v.history()
	if fsGuard != "" {
		r.Fail("outside", "a resolution tried to change %s, outside the cache", fsGuard)
	}
}

func c13(r *R) {
	v := genResolver(r)
	defer func() { tokenizer.CachedDir = r.dir }()
	released := func(what string) bool {
		if n := netOpenBodies(); n > 0 {
			var l []string
			for i := 0; i < netNReqs; i++ {
				if netReqs[i].opened && !netReqs[i].closed {
					l = append(l, fmt.Sprintf("request %d for %s (%s)", i, netReqs[i].url, netNames[netReqs[i].plan.kind]))
				}
			}
			r.Fail("body", "%s: %d response bodies are still open: %v", what, n, l)
			return false
		}
		if l := fsOpenPaths(); len(l) > 0 {
			r.Fail("file", "%s: %d files are still open: %v", what, len(l), l)
			return false
		}
		return true
	}
	rounds := 1 + r.N(4)
	for i := 0; i < rounds; i++ {
		what := fmt.Sprintf("round %d", i)
		o, js, failed := v.round(what, r.Chance(5, 6))
		if !r.Judge(o, what, true) || !released(what) {
			return
		}
		for _, j := range js {
			if !v.judge(j, what, failed) {
				return
			}
		}
		if r.Chance(1, 6) {
			d := pick(r, []int64{int64(time.Hour), int64(400 * 24 * time.Hour)})
			runtime.SimAdvance(d)
			r.res.Faults["clock jump"]++
		}
		if tokenizer.CachedDir != "NOT_SETTING" && r.Chance(1, 10) {
			if !v.clean() || !released("cleaning the cache") {
				return
			}
		}
		v.revise()
	}
	// nothing the failures left behind may matter now
	for round := 0; round < 2; round++ {
		for _, s := range v.files {
			j := &resolve{s: s}
			if !r.Judge(r.Do("resolve again", j.run), "resolving again", true) || !released("resolving again") || !v.judge(j, "after the faults stopped", false) {
				return
			}
		}
	}
}
