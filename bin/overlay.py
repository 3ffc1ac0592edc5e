"""A copy of a few files of the Go standard library with hooks, for 'go build -overlay'.

Nothing of /repo is changed: the hooks sit below it, in syscall (file system calls) and in sync (locks),
so they see what the code does however it is written; and in time, where long sleeps can be made short (the
clock moves on by what was slept).
"""
import json, os, re, subprocess

FS = r'''
package syscall

// VerifFS is asked before every call that may change files.  It returns what happens:
// 0 run it, 1 fail with the errno, 2 (write) only write lim bytes, 3 die before, 4 (write) write lim bytes and die, 5 run it and die.
// To die is to stop for ever: nothing that is deferred or follows runs, as when the process is killed.
var VerifFS func(op string, fd int, path, path2 string, n int) (mode, lim int, e Errno)

// VerifDead is told that a call has died: the effect it was to have is there
var VerifDead func()

// VerifOpened is told about an opened file
var VerifOpened func(fd int, path string, flags int)

func verifDie() {
	if VerifDead != nil {
		VerifDead()
	}
	c := make(chan int)
	<-c
}

func verifPre(op string, fd int, path, path2 string, n int) (mode, lim int, e Errno) {
	h := VerifFS
	if h == nil {
		return 0, 0, 0
	}
	mode, lim, e = h(op, fd, path, path2, n)
	if mode == 3 {
		verifDie()
	}
	return
}
'''

LOCK = r'''
package sync

import "unsafe"

// VerifLock is told about lock operations: before (and, for those that acquire, after) they happen
var VerifLock func(addr unsafe.Pointer, op string)
'''


TIME = r'''
package time

import (
	"sync/atomic"
	"syscall"
)

// VerifScale divides sleeps of a second and more (0: leaves them alone)
var VerifScale int64

// verifAhead is how far (ns) the wall clock is ahead because of shortened sleeps
var verifAhead int64

// VerifSleeps is told about such sleeps
var VerifSleeps func(d Duration)

func init() {
	if v, ok := syscall.Getenv("VERIF_TIME_SCALE"); ok {
		n := int64(0)
		for _, c := range v {
			if c < '0' || c > '9' {
				return
			}
			n = n*10 + int64(c-'0')
		}
		VerifScale = n
	}
}

func verifShort(d Duration) Duration {
	if s := VerifScale; s > 0 && d >= Second {
		if VerifSleeps != nil {
			VerifSleeps(d)
		}
		e := d / Duration(s)
		atomic.AddInt64(&verifAhead, int64(d-e))
		return e
	}
	return d
}

// VerifPatience shortens the deadlines of contexts: those nobody can wait for in a test.
func VerifPatience(d Duration) Duration {
	if VerifScale > 0 && d > 20*Minute {
		return 4 * Second
	}
	return d
}

// verifTick shortens the period of tickers of a second: waiting for a transaction.
func verifTick(d Duration) Duration {
	if VerifScale > 0 && d == Second {
		return 20 * Millisecond
	}
	return d
}

// VerifAhead is how far the wall clock has been moved.
func VerifAhead() Duration { return Duration(atomic.LoadInt64(&verifAhead)) }

// Sleep pauses the current goroutine for at least the duration d.
func Sleep(d Duration) { verifSleep(verifShort(d)) }
'''


def wrap(src, name, params, call, results, op, fd="0", p1='""', p2='""', n="0", opened=None, partial=None):
    """Renames func NAME to verif_NAME and adds a wrapper."""
    pat = re.compile(r"^func %s\(" % name, re.M)
    if len(pat.findall(src)) != 1:
        raise Exception("cannot hook " + name)
    src = pat.sub("func verif_%s(" % name, src)
    fail = {"err": "return e", "n, err": "return -1, e", "fd, err": "return -1, e"}[results]
    typ = {"err": "(err error)", "n, err": "(n int, err error)", "fd, err": "(fd int, err error)"}[results]
    body = "\nfunc %s(%s) %s {\n\tmode, lim, e := verifPre(%s, %s, %s, %s, %s)\n\t_ = lim\n" % (name, params, typ, '"' + op + '"', fd, p1, p2, n)
    body += "\tif mode == 1 {\n\t\t%s\n\t}\n" % fail
    if partial:
        body += "\tif mode == 2 || mode == 4 {\n\t\t%s\n\t}\n" % partial
    body += "\t%s = verif_%s(%s)\n" % (results, name, call)
    body += "\tif mode == 4 || mode == 5 {\n\t\tverifDie()\n\t}\n"
    if opened:
        body += "\tif err == nil && VerifOpened != nil {\n\t\tVerifOpened(fd, %s)\n\t}\n" % opened
    body += "\treturn\n}\n"
    return src + body


def make(d, goenv):
    """Writes the files in directory d and returns the path of the overlay file."""
    root = subprocess.run(["go", "env", "GOROOT"], env=goenv, capture_output=True, text=True, check=True).stdout.strip()
    os.makedirs(d, exist_ok=True)
    rep = {}

    def put(rel, text):
        p = os.path.join(d, rel.replace("/", "_"))
        open(p, "w").write(text)
        rep[os.path.join(root, "src", rel)] = p

    def read(rel):
        return open(os.path.join(root, "src", rel)).read()

    put("syscall/verif_hooks.go", FS)
    s = read("syscall/syscall_unix.go")
    s = wrap(s, "Write", "fd int, p []byte", "fd, p", "n, err", "write", fd="fd", n="len(p)", partial="p = p[:lim]")
    s = wrap(s, "Pwrite", "fd int, p []byte, offset int64", "fd, p, offset", "n, err", "write", fd="fd", n="len(p)", partial="p = p[:lim]")
    put("syscall/syscall_unix.go", s)
    s = read("syscall/syscall_linux.go")
    s = wrap(s, "Open", "path string, mode int, perm uint32", "path, mode, perm", "fd, err", "open", p1="path", n="mode", opened="path, mode")
    s = s.replace("fd, err = verif_Open(path, mode, perm)", "fd, err = verif_Open(path, mode, perm)")
    s = s.replace("mode, lim, e := verifPre(\"open\", 0, path, \"\", mode)", "vm, lim, e := verifPre(\"open\", 0, path, \"\", mode)")
    i = s.index("vm, lim, e := verifPre(\"open\"")
    j = s.index("\nfunc ", i) if "\nfunc " in s[i:] else len(s)
    body = s[i:j].replace("if mode == 1", "if vm == 1").replace("if mode == 4 || mode == 5", "if vm == 4 || vm == 5")
    s = s[:i] + body + s[j:]
    s = wrap(s, "Link", "oldpath string, newpath string", "oldpath, newpath", "err", "link", p1="oldpath", p2="newpath")
    s = wrap(s, "Symlink", "oldpath string, newpath string", "oldpath, newpath", "err", "symlink", p1="oldpath", p2="newpath")
    s = wrap(s, "Rename", "oldpath string, newpath string", "oldpath, newpath", "err", "rename", p1="oldpath", p2="newpath")
    s = wrap(s, "Unlink", "path string", "path", "err", "unlink", p1="path")
    s = s.replace("func Rmdir(path string) error", "func Rmdir(path string) (err error)")
    s = wrap(s, "Rmdir", "path string", "path", "err", "rmdir", p1="path")
    put("syscall/syscall_linux.go", s)
    s = read("syscall/zsyscall_linux_amd64.go")
    s = wrap(s, "Close", "fd int", "fd", "err", "close", fd="fd")
    s = wrap(s, "Fsync", "fd int", "fd", "err", "fsync", fd="fd")
    s = wrap(s, "Fdatasync", "fd int", "fd", "err", "fsync", fd="fd")
    s = wrap(s, "Ftruncate", "fd int, length int64", "fd, length", "err", "ftruncate", fd="fd", n="int(length)")
    s = wrap(s, "Truncate", "path string, length int64", "path, length", "err", "truncate", p1="path", n="int(length)")
    put("syscall/zsyscall_linux_amd64.go", s)
    # Mkdir is in syscall_linux.go
    s = open(rep[os.path.join(root, "src", "syscall/syscall_linux.go")]).read()
    s = wrap(s, "Mkdir", "path string, mode uint32", "path, mode", "err", "mkdir", p1="path")
    i = s.index('verifPre("mkdir"')
    s = s[:i] + s[i:].replace("if mode == 1", "if vm == 1").replace("if mode == 4 || mode == 5", "if vm == 4 || vm == 5")
    s = s.replace('mode, lim, e := verifPre("mkdir"', 'vm, lim, e := verifPre("mkdir"')
    put("syscall/syscall_linux.go", s)

    put("sync/verif_hooks.go", LOCK)
    s = read("sync/mutex.go")
    s = hooklock(s, "Mutex", "m", ["Lock", "TryLock", "Unlock"], "m")
    put("sync/mutex.go", s)
    s = read("sync/rwmutex.go")
    s = s.replace("rw.w.Lock()", "rw.w.mu.Lock()").replace("rw.w.Unlock()", "rw.w.mu.Unlock()").replace("rw.w.TryLock()", "rw.w.mu.TryLock()")
    s = hooklock(s, "RWMutex", "rw", ["Lock", "TryLock", "Unlock", "RLock", "TryRLock", "RUnlock"], "rw")
    put("sync/rwmutex.go", s)

    s = read("sync/pool.go")
    head = "func (p *Pool) Get() any {"
    if s.count(head) != 1:
        raise Exception("cannot hook Pool.Get")
    s = s.replace(head, "func (p *Pool) verifGet() any {")
    s += '\nfunc (p *Pool) Get() any {\n\tif VerifLock != nil {\n\t\tVerifLock(unsafe.Pointer(p), "p.Get")\n\t}\n\treturn p.verifGet()\n}\n'
    put("sync/pool.go", s)
    put("runtime/verif_goid.go", "package runtime\n\n// VerifGoid is the number of the calling goroutine.\nfunc VerifGoid() uint64 { return getg().goid }\n")

    put("time/verif_hooks.go", TIME)

    def once(s, old, new):
        if s.count(old) != 1:
            raise Exception("cannot hook: " + old)
        return s.replace(old, new)
    put("runtime/time.go", once(read("runtime/time.go"), "//go:linkname timeSleep time.Sleep", "//go:linkname timeSleep time.verifSleep"))
    s = once(read("time/sleep.go"), "func Sleep(d Duration)\n", "func verifSleep(d Duration)\n")
    s = once(s, "func After(d Duration) <-chan Time {\n\treturn NewTimer(d).C", "func After(d Duration) <-chan Time {\n\treturn NewTimer(verifShort(d)).C")
    put("time/sleep.go", s)
    put("time/tick.go", once(read("time/tick.go"), 'panic("non-positive interval for NewTicker")\n\t}\n', 'panic("non-positive interval for NewTicker")\n\t}\n\td = verifTick(d)\n'))
    s = read("time/time.go")
    s = once(s, "func Now() Time {\n", "func Now() Time {\n\tt := verifNow()\n\tif a := VerifAhead(); a != 0 {\n\t\tt = t.verifAdd(Duration(a))\n\t}\n\treturn t\n}\n\nfunc verifNow() Time {\n")
    s += "\n// verifAdd moves the wall clock only\nfunc (t Time) verifAdd(d Duration) Time {\n\text := t.ext\n\tmono := t.wall&hasMonotonic != 0\n\tt = t.Add(d)\n\tif mono && t.wall&hasMonotonic != 0 {\n\t\tt.ext = ext\n\t}\n\treturn t\n}\n"
    put("time/time.go", s)

    put("context/context.go", once(read("context/context.go"), "c.timer = time.AfterFunc(dur, func() {", "c.timer = time.AfterFunc(time.VerifPatience(dur), func() {"))

    f = os.path.join(d, "overlay.json")
    json.dump({"Replace": rep}, open(f, "w"))
    return f


def hooklock(s, typ, recv, names, prefix):
    for n in names:
        res = " bool" if n.startswith("Try") else ""
        head = "func (%s *%s) %s()%s {" % (recv, typ, n, res)
        if s.count(head) != 1:
            raise Exception("cannot hook %s.%s" % (typ, n))
        s = s.replace(head, "func (%s *%s) verif%s()%s {" % (recv, typ, n, res))
        op = prefix + "." + n
        if res:
            body = 'ok := %s.verif%s()\n\tif ok && VerifLock != nil {\n\t\tVerifLock(unsafe.Pointer(%s), "%s")\n\t}\n\treturn ok' % (recv, n, recv, op)
        elif "Unlock" in n:
            body = '%s.verif%s()\n\tif VerifLock != nil {\n\t\tVerifLock(unsafe.Pointer(%s), "%s")\n\t}' % (recv, n, recv, op)
        else:
            body = ('if VerifLock != nil {\n\t\tVerifLock(unsafe.Pointer(%s), "%s?")\n\t}\n\t%s.verif%s()\n\tif VerifLock != nil {\n\t\tVerifLock(unsafe.Pointer(%s), "%s")\n\t}'
                    % (recv, op, recv, n, recv, op))
        s += "\nfunc (%s *%s) %s()%s {\n\t%s\n}\n" % (recv, typ, n, res, body)
    if "\"unsafe\"" not in s:
        s = s.replace("import (", "import (\n\t\"unsafe\"", 1)
    return s


if __name__ == "__main__":
    import sys
    from check import goenv
    print(make(sys.argv[1], goenv()))
