package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// A patch replaces exactly Count occurrences of Old in a file of GOROOT/src.
type patch struct {
	File, Old, New string
	Count          int
}

var stdPatches = []patch{
	// --- runtime: randomness
	{"runtime/rand.go", "	seed := &globalRand.seed\n	if len(startupRand) >= 16 &&", "	seed := &globalRand.seed\n	for i := range seed {\n		seed[i] = byte(i*37 + 11)\n	}\n	if true {\n	} else if len(startupRand) >= 16 &&", 1},
	{"runtime/rand.go", "func rand() uint64 {\n", "func rand() uint64 {\n	if simRandActive() {\n		return simRand()\n	}\n", 1},
	{"runtime/select.go", "j := cheaprandn(uint32(norder + 1))", "j := simRandn(uint32(norder + 1))", 1},
	{"runtime/time.go", "t.rand = cheaprand()", "t.rand = simRandn(1 << 31)", 1},
	// --- runtime: wall clock and monotonic clock
	{"runtime/time.go", "	if bubble := getg().bubble; bubble != nil {\n		sec =", "	if bubble := getg().bubble; bubble != nil {\n		if sim.on {\n			return simClock(bubble.now)\n		}\n		sec =", 1},
	{"time/time.go", "var startNano int64 = runtimeNano() - 1\n", "var startNano int64 = 1\n", 1},
	// --- runtime: clock used by sync.Mutex starvation mode
	{"runtime/sema.go", "func internal_sync_nanotime() int64 {\n	return nanotime()", "func internal_sync_nanotime() int64 {\n	if sim.on && getg().bubble != nil {\n		return getg().bubble.now\n	}\n	return nanotime()", 1},
	// --- runtime: scheduler
	{"runtime/runtime2.go", "	bubble  *synctestBubble\n", "	bubble  *synctestBubble\n	simid, simtick, simprio uint32\n", 1},
	{"runtime/runtime2.go", "	runq     [256]guintptr\n", "	runq     [8192]guintptr\n", 1},
	{"runtime/proc.go", "func runqgrab(pp *p, batch *[256]guintptr,", "func runqgrab(pp *p, batch *[8192]guintptr,", 1},
	{"runtime/proc.go", "		newg.bubble = callergp.bubble\n", "		newg.bubble = callergp.bubble\n		if sim.on {\n			simNewg(newg)\n		}\n", 1},
	{"runtime/proc.go", "func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n	if sim.on {\n		next = false\n	}\n", 1},
	{"runtime/proc.go", "func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n	if sim.on {\n		return simRunqget(pp)\n	}\n", 1},
	{"runtime/proc.go", "	if preempted && sched.gcwaiting.Load() {\n		// If preempted for STW, keep", "	if sim.on && gp.bubble != nil {\n		runqput(pp, gp, false)\n	} else if preempted && sched.gcwaiting.Load() {\n		// If preempted for STW, keep", 1},
	{"runtime/proc.go", "func retake(now int64) uint32 {\n	n := 0\n", "func retake(now int64) uint32 {\n	if sim.on {\n		return 0\n	}\n	n := 0\n", 1},
	{"runtime/proc.go", "func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n	if sim.on {\n		return false\n	}\n", 1},
	// --- runtime: allocation budget
	{"runtime/malloc.go", "func mallocgcLarge(size uintptr, typ *_type, needzero bool) (unsafe.Pointer, uintptr) {\n", "func mallocgcLarge(size uintptr, typ *_type, needzero bool) (unsafe.Pointer, uintptr) {\n	if sim.on {\n		simLarge(size)\n	}\n", 1},
	// --- runtime: a crashing run reports the decisions it took
	{"runtime/panic.go", "func dopanic_m(gp *g, pc, sp uintptr, bubble *synctestBubble) bool {\n", "func dopanic_m(gp *g, pc, sp uintptr, bubble *synctestBubble) bool {\n	simDump()\n", 1},
	// --- net: network interfaces
	{"net/interface_linux.go", "func interfaceTable(ifindex int) ([]Interface, error) {\n", "func interfaceTable(ifindex int) ([]Interface, error) {\n	if SimIfs != nil {\n		return simIfTable(ifindex)\n	}\n", 1},
	{"net/interface_linux.go", "func interfaceAddrTable(ifi *Interface) ([]Addr, error) {\n", "func interfaceAddrTable(ifi *Interface) ([]Addr, error) {\n	if SimIfs != nil {\n		return simIfAddrs(ifi)\n	}\n", 1},
	// --- net: datagram sockets
	{"net/fd_posix.go", "	raddr       Addr\n}\n", "	raddr       Addr\n	sim         SimConn\n}\n", 1},
	{"net/fd_posix.go", "func (fd *netFD) Close() error {\n", "func (fd *netFD) Close() error {\n	if fd.sim != nil {\n		return fd.sim.Close()\n	}\n", 1},
	{"net/fd_posix.go", "func (fd *netFD) Read(p []byte) (n int, err error) {\n", "func (fd *netFD) Read(p []byte) (n int, err error) {\n	if fd.sim != nil {\n		n, _, _, err = fd.simRecv(p)\n		return\n	}\n", 1},
	{"net/fd_posix.go", "func (fd *netFD) readFrom(p []byte) (n int, sa syscall.Sockaddr, err error) {\n", "func (fd *netFD) readFrom(p []byte) (n int, sa syscall.Sockaddr, err error) {\n	if fd.sim != nil {\n		n, ip, port, err := fd.simRecv(p)\n		return n, &syscall.SockaddrInet4{Addr: ip, Port: port}, err\n	}\n", 1},
	{"net/fd_posix.go", "func (fd *netFD) readFromInet4(p []byte, from *syscall.SockaddrInet4) (n int, err error) {\n", "func (fd *netFD) readFromInet4(p []byte, from *syscall.SockaddrInet4) (n int, err error) {\n	if fd.sim != nil {\n		n, from.Addr, from.Port, err = fd.simRecv(p)\n		return\n	}\n", 1},
	{"net/fd_posix.go", "func (fd *netFD) readFromInet6(p []byte, from *syscall.SockaddrInet6) (n int, err error) {\n", "func (fd *netFD) readFromInet6(p []byte, from *syscall.SockaddrInet6) (n int, err error) {\n	if fd.sim != nil {\n		var ip [4]byte\n		n, ip, from.Port, err = fd.simRecv(p)\n		from.Addr = simMapped(ip)\n		return\n	}\n", 1},
	{"net/fd_posix.go", "func (fd *netFD) readMsg(p []byte, oob []byte, flags int) (n, oobn, retflags int, sa syscall.Sockaddr, err error) {\n", "func (fd *netFD) readMsg(p []byte, oob []byte, flags int) (n, oobn, retflags int, sa syscall.Sockaddr, err error) {\n	if fd.sim != nil {\n		n, ip, port, err := fd.simRecv(p)\n		return n, 0, 0, &syscall.SockaddrInet4{Addr: ip, Port: port}, err\n	}\n", 1},
	{"net/fd_posix.go", "func (fd *netFD) readMsgInet4(p []byte, oob []byte, flags int, sa *syscall.SockaddrInet4) (n, oobn, retflags int, err error) {\n", "func (fd *netFD) readMsgInet4(p []byte, oob []byte, flags int, sa *syscall.SockaddrInet4) (n, oobn, retflags int, err error) {\n	if fd.sim != nil {\n		n, sa.Addr, sa.Port, err = fd.simRecv(p)\n		return\n	}\n", 1},
	{"net/fd_posix.go", "func (fd *netFD) readMsgInet6(p []byte, oob []byte, flags int, sa *syscall.SockaddrInet6) (n, oobn, retflags int, err error) {\n", "func (fd *netFD) readMsgInet6(p []byte, oob []byte, flags int, sa *syscall.SockaddrInet6) (n, oobn, retflags int, err error) {\n	if fd.sim != nil {\n		var ip [4]byte\n		n, ip, sa.Port, err = fd.simRecv(p)\n		sa.Addr = simMapped(ip)\n		return\n	}\n", 1},
	{"net/fd_posix.go", "func (fd *netFD) Write(p []byte) (nn int, err error) {\n", "func (fd *netFD) Write(p []byte) (nn int, err error) {\n	if fd.sim != nil {\n		return fd.simSendSA(p, nil)\n	}\n", 1},
	{"net/fd_posix.go", "func (fd *netFD) writeTo(p []byte, sa syscall.Sockaddr) (n int, err error) {\n", "func (fd *netFD) writeTo(p []byte, sa syscall.Sockaddr) (n int, err error) {\n	if fd.sim != nil {\n		return fd.simSendSA(p, sa)\n	}\n", 1},
	{"net/fd_posix.go", "func (fd *netFD) writeToInet4(p []byte, sa *syscall.SockaddrInet4) (n int, err error) {\n", "func (fd *netFD) writeToInet4(p []byte, sa *syscall.SockaddrInet4) (n int, err error) {\n	if fd.sim != nil {\n		return fd.simSendSA(p, sa)\n	}\n", 1},
	{"net/fd_posix.go", "func (fd *netFD) writeToInet6(p []byte, sa *syscall.SockaddrInet6) (n int, err error) {\n", "func (fd *netFD) writeToInet6(p []byte, sa *syscall.SockaddrInet6) (n int, err error) {\n	if fd.sim != nil {\n		return fd.simSendSA(p, sa)\n	}\n", 1},
	{"net/fd_posix.go", "func (fd *netFD) writeMsg(p []byte, oob []byte, sa syscall.Sockaddr) (n int, oobn int, err error) {\n", "func (fd *netFD) writeMsg(p []byte, oob []byte, sa syscall.Sockaddr) (n int, oobn int, err error) {\n	if fd.sim != nil {\n		n, err = fd.simSendSA(p, sa)\n		return\n	}\n", 1},
	{"net/fd_posix.go", "func (fd *netFD) writeMsgInet4(p []byte, oob []byte, sa *syscall.SockaddrInet4) (n int, oobn int, err error) {\n", "func (fd *netFD) writeMsgInet4(p []byte, oob []byte, sa *syscall.SockaddrInet4) (n int, oobn int, err error) {\n	if fd.sim != nil {\n		n, err = fd.simSendSA(p, sa)\n		return\n	}\n", 1},
	{"net/fd_posix.go", "func (fd *netFD) writeMsgInet6(p []byte, oob []byte, sa *syscall.SockaddrInet6) (n int, oobn int, err error) {\n", "func (fd *netFD) writeMsgInet6(p []byte, oob []byte, sa *syscall.SockaddrInet6) (n int, oobn int, err error) {\n	if fd.sim != nil {\n		n, err = fd.simSendSA(p, sa)\n		return\n	}\n", 1},
	{"net/fd_posix.go", "func (fd *netFD) SetDeadline(t time.Time) error {\n", "func (fd *netFD) SetDeadline(t time.Time) error {\n	if fd.sim != nil {\n		return fd.sim.SetDeadline(true, true, t)\n	}\n", 1},
	{"net/fd_posix.go", "func (fd *netFD) SetReadDeadline(t time.Time) error {\n", "func (fd *netFD) SetReadDeadline(t time.Time) error {\n	if fd.sim != nil {\n		return fd.sim.SetDeadline(true, false, t)\n	}\n", 1},
	{"net/fd_posix.go", "func (fd *netFD) SetWriteDeadline(t time.Time) error {\n", "func (fd *netFD) SetWriteDeadline(t time.Time) error {\n	if fd.sim != nil {\n		return fd.sim.SetDeadline(false, true, t)\n	}\n", 1},
	{"net/sockopt_posix.go", "func setReadBuffer(fd *netFD, bytes int) error {\n", "func setReadBuffer(fd *netFD, bytes int) error {\n	if fd.sim != nil {\n		return nil\n	}\n", 1},
	{"net/sockopt_posix.go", "func setWriteBuffer(fd *netFD, bytes int) error {\n", "func setWriteBuffer(fd *netFD, bytes int) error {\n	if fd.sim != nil {\n		return nil\n	}\n", 1},
	{"net/ipsock_posix.go", "	return socket(ctx, net, family, sotype, proto, ipv6only, laddr, raddr, ctrlCtxFn)\n", "	if fd, ok, err := simSocket(net, family, sotype, laddr, raddr); ok {\n		return fd, err\n	}\n	return socket(ctx, net, family, sotype, proto, ipv6only, laddr, raddr, ctrlCtxFn)\n", 1},
}

type overlay struct {
	Replace map[string]string
}

func must(err error) {
	if err != nil {
		fatalf("%v", err)
	}
}

var cleanup string

func fatalf(f string, a ...any) {
	if cleanup != "" {
		os.RemoveAll(cleanup)
	}
	fmt.Fprintf(os.Stderr, "simctl: "+f+"\n", a...)
	os.Exit(3)
}

func writeFile(p string, b []byte) {
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	must(os.WriteFile(p, b, 0o644))
}

// stdOverlay writes the patched standard-library files below dir.
func stdOverlay(goroot, simdir, dir string, ov *overlay) {
	files := map[string]string{}
	for _, p := range stdPatches {
		src, ok := files[p.File]
		if !ok {
			b, err := os.ReadFile(filepath.Join(goroot, "src", p.File))
			must(err)
			src = string(b)
		}
		if n := strings.Count(src, p.Old); n != p.Count {
			fatalf("std patch for %s: anchor found %d times, want %d: %q", p.File, n, p.Count, p.Old)
		}
		files[p.File] = strings.ReplaceAll(src, p.Old, p.New)
	}
	for f, s := range files {
		out := filepath.Join(dir, "std", f)
		writeFile(out, []byte(s))
		ov.Replace[filepath.Join(goroot, "src", f)] = out
	}
	for _, x := range [][2]string{{"runtime/sim.go", "runtime_sim.go.txt"}, {"net/sim.go", "net_sim.go.txt"}} {
		b, err := os.ReadFile(filepath.Join(simdir, "overlay", x[1]))
		must(err)
		out := filepath.Join(dir, "std", x[0])
		writeFile(out, b)
		ov.Replace[filepath.Join(goroot, "src", x[0])] = out
	}
}

func saveOverlay(p string, ov *overlay) {
	b, err := json.MarshalIndent(ov, "", " ")
	must(err)
	writeFile(p, b)
}
