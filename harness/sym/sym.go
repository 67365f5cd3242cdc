// Package sym is the interface between the harnesses and the machinery. The
// symbolic engine replaces every function of this package; the bodies here are
// used when a harness is replayed natively on concrete inputs.
package sym

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/golang/glog"
)

// Input is one recorded nondeterministic choice.
type Input struct {
	N string `json:"n"`
	V uint64 `json:"v"`
}

// Result is the outcome of a native run.
type Result struct {
	Why     string   `json:"why"`
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
	Covers  []string `json:"covers"`
	Asserts int      `json:"asserts"`
	Split   bool     `json:"split"`
}

var (
	inputs   []Input
	pos      int
	res      Result
	resPath  string
	scratch  string
	nfile    int
	mu       sync.Mutex
	thorough bool
)

// Setup prepares a native run.
func Setup(in []Input, resultFile, scratchDir string, deep bool) {
	inputs, resPath, scratch, thorough = in, resultFile, scratchDir, deep
}

// Finish writes the result and ends the process.
func Finish(why, msg string) {
	mu.Lock()
	res.Why, res.Msg = why, msg
	b, _ := json.Marshal(res)
	ioutil.WriteFile(resPath, b, 0644)
	os.Exit(0)
}

func next(name string) uint64 {
	if pos >= len(inputs) {
		Finish("desync", "no input left for "+name)
	}
	x := inputs[pos]
	pos++
	if x.N != name {
		Finish("desync", "input "+x.N+" where "+name+" is wanted")
	}
	return x.V
}

// Thorough reports the deep tier (larger bounds).
func Thorough() bool { return thorough }

// Symbolic is true inside the engine.
func Symbolic() bool { return false }

func U8(name string) uint8   { return uint8(next(name)) }
func U16(name string) uint16 { return uint16(next(name)) }
func U32(name string) uint32 { return uint32(next(name)) }
func U64(name string) uint64 { return next(name) }
func Bool(name string) bool  { return next(name) == 1 }

// Range gives an integer between lo and hi.
func Range(name string, lo, hi int) int {
	if lo > hi {
		Finish("assume", "")
	}
	return int(next(name))
}

// Pin gives x, on a path of its own for each possible value.
func Pin(x int) int { return x }

// Choose gives 0..n-1, one path for each.
func Choose(name string, n int) int {
	if n <= 1 {
		next(name)
		return 0
	}
	return int(next(name))
}

// Bytes gives n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}

// Split makes a value concrete, one path per value.
func Split(v int) int { return v }

func Assume(b bool) {
	if !b {
		Finish("assume", "")
	}
}

func Assert(b bool, msg string) {
	res.Asserts++
	if !b {
		Finish("assert", msg)
	}
}

func Fail(msg string) { Finish("assert", msg) }

func Cover(name string) { res.Covers = append(res.Covers, name) }

func tmp(kind string) string {
	nfile++
	return filepath.Join(scratch, fmt.Sprintf("%s%d", kind, nfile))
}

// File makes a file with this content and gives its path.
func File(content []byte) string {
	p := tmp("f")
	if err := ioutil.WriteFile(p, content, 0644); err != nil {
		Finish("setup", err.Error())
	}
	made(p)
	return p
}

// NamedFile makes a file of this name, in a directory of its own.
func NamedFile(name string, content []byte) string {
	d := tmp("d")
	os.Mkdir(d, 0755)
	p := d + "/" + name
	if err := ioutil.WriteFile(p, content, 0644); err != nil {
		Finish("setup", err.Error())
	}
	made(p)
	return p
}

// Rewrite gives a file of File or NamedFile another content.
func Rewrite(path string, content []byte) {
	if err := ioutil.WriteFile(path, content, 0644); err != nil {
		Finish("setup", err.Error())
	}
	made(path)
}

// SplitFile makes a file of which no read(2) crosses one of the offsets.
func SplitFile(content []byte, at ...int) string {
	p := tmp("fifo")
	if err := syscall.Mkfifo(p, 0644); err != nil {
		Finish("setup", err.Error())
	}
	res.Split = true
	go func() {
		f, err := os.OpenFile(p, os.O_WRONLY, 0)
		if err != nil {
			return
		}
		fd := int(f.Fd())
		syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), 1031, 1<<20)
		prev := 0
		write := func(to int) {
			if to > len(content) {
				to = len(content)
			}
			if to <= prev {
				return
			}
			f.Write(content[prev:to])
			prev = to
			for i := 0; i < 20000; i++ {
				var n int32
				_, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0x541B, uintptr(unsafe.Pointer(&n)))
				if e != 0 || n == 0 {
					return
				}
				time.Sleep(100 * time.Microsecond)
			}
		}
		for {
			nx := len(content)
			for _, a := range at {
				if a > prev && a < nx {
					nx = a
				}
			}
			write(nx)
			if prev >= len(content) {
				break
			}
		}
		f.Close()
	}()
	return p
}

var faults = map[string]int64{}

// FaultFile makes a file of which the operating system cannot read the bytes from
// the offset at on, nor tell that the file ends there.
func FaultFile(content []byte, at int) string {
	p := File(content)
	faults[p] = int64(at)
	return p
}

// Fault tells how many of n bytes can be read, -1 if that is an error.
func Fault(name string, off int64, n int) int {
	at, ok := faults[name]
	if !ok || off+int64(n) <= at {
		return n
	}
	if off >= at {
		return -1
	}
	return int(at - off)
}

// watch has what the files are in a Writes call.
var watch map[string]string

func fileState(p string) string {
	fi, err := os.Lstat(p)
	if err != nil {
		return "missing"
	}
	if fi.IsDir() {
		return "directory"
	}
	b, _ := ioutil.ReadFile(p)
	return fmt.Sprintf("%v %v %d %x", fi.Mode(), fi.ModTime(), fi.Size(), sha256.Sum256(b))
}

// fileStates has the state of all files but the log files and those of the machinery.
func fileStates() map[string]string {
	m := map[string]string{}
	log := filepath.Join(scratch, "log")
	filepath.Walk(scratch, func(p string, fi os.FileInfo, err error) error {
		if p == log {
			return filepath.SkipDir
		}
		if strings.HasPrefix(p, filepath.Join(scratch, "out")) {
			return nil
		}
		m[p] = fileState(p)
		return nil
	})
	return m
}

// made: a file was made by the harness.
func made(p string) {
	if watch != nil {
		os.Chmod(p, 0444)
		watch[p] = fileState(p)
		if d := filepath.Dir(p); d != scratch {
			watch[d] = "directory"
		}
	}
}

// Writes tells whether f, run by a user who may only read the files, changes, makes
// or removes any file outside of the log directory.
func Writes(f func()) bool {
	LogDir()
	os.Chmod(filepath.Join(scratch, "log"), 0777)
	cwd := filepath.Join(scratch, "cwd")
	os.Mkdir(cwd, 0777)
	os.Chmod(cwd, 0777)
	os.Chdir(cwd)
	os.Setenv("TMPDIR", cwd)
	os.Chmod(filepath.Dir(scratch), 0711)
	for p, s := range fileStates() {
		if s == "directory" {
			os.Chmod(p, 0777)
		} else {
			os.Chmod(p, 0444)
		}
	}
	watch = fileStates()
	func() {
		root := os.Getuid() == 0 && syscall.Setresuid(-1, 65534, -1) == nil
		defer func() {
			if root {
				syscall.Setresuid(-1, 0, -1)
			}
		}()
		f()
	}()
	now := fileStates()
	before := watch
	watch = nil
	for p, s := range before {
		if now[p] != s {
			return true
		}
	}
	for p := range now {
		if _, ok := before[p]; !ok {
			return true
		}
	}
	return false
}

// MissingFile gives a path that cannot be opened.
func MissingFile() string { return tmp("missing") }

// LogDir gives a directory for log files.
func LogDir() string {
	p := filepath.Join(scratch, "log")
	os.MkdirAll(p, 0755)
	return p
}

// MapOrder: maps are iterated in any order from here on.
func MapOrder(b bool) {}

// Zone sets the time zone of the process: before the second at of the epoch the
// local time is before seconds ahead of UTC, from then on after seconds.
func Zone(before, after int, at uint32) {
	be := func(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }
	var tz []byte
	add := func(b ...byte) { tz = append(tz, b...) }
	add([]byte("TZif\x00")...)
	add(make([]byte, 15)...)
	for _, n := range []uint32{0, 0, 0, 1, 2, 8} {
		add(be(n)...)
	}
	if at > 1<<31-1 {
		Finish("setup", "a time of this format has 32 bits and a sign")
	}
	add(be(at)...)
	add(1)
	add(be(uint32(int32(before)))...)
	add(0, 0)
	add(be(uint32(int32(after)))...)
	add(0, 4)
	add([]byte("BEF\x00AFT\x00")...)
	loc, err := time.LoadLocationFromTZData("Zone", tz)
	if err != nil {
		Finish("setup", err.Error())
	}
	time.Local = loc
}

// Stdout runs f and gives what it wrote to standard output.
func Stdout(f func()) string {
	p := tmp("out")
	w, err := os.OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil {
		Finish("setup", err.Error())
	}
	old := os.Stdout
	os.Stdout = w
	func() {
		defer func() { os.Stdout = old }()
		f()
	}()
	w.Seek(0, 0)
	b, _ := io.ReadAll(w)
	w.Close()
	os.Remove(p)
	return string(b)
}

// LogLines counts the log lines written with a severity (Info, Warning, Error).
func LogLines(sev string) int {
	switch sev {
	case "Info":
		return int(glog.Stats.Info.Lines())
	case "Warning":
		return int(glog.Stats.Warning.Lines())
	}
	return int(glog.Stats.Error.Lines())
}

// LogSaved counts the messages in the log files of a directory.
func LogSaved(dir string) int {
	n := 0
	// the file of the lowest severity has them all
	names, _ := filepath.Glob(filepath.Join(dir, "*.log.INFO.*"))
	for _, name := range names {
		b, _ := ioutil.ReadFile(name)
		for _, l := range strings.Split(string(b), "\n") {
			if len(l) > 21 && strings.IndexByte("IWEF", l[0]) >= 0 && l[5] == ' ' && l[8] == ':' && l[11] == ':' && l[14] == '.' {
				n++
			}
		}
	}
	return n
}

// RunCLI runs a copy of the command line program.
var RunCLI func(args []string) int

// CLI runs the command line program and gives its exit status.
func CLI(args ...string) int { return RunCLI(args) }

// Observe records a text that the engine and the native run must agree on.
func Observe(name, s string) { res.Obs = append(res.Obs, name+"="+strconv.QuoteToASCII(s)) }

// ParseUint parses decimal digits.
func ParseUint(s string) (uint64, bool) { return parseBase(s, 10) }

// Len counts the characters of a text; len counts a formatted number as one.
func Len(s string) int { return len(s) }

// ParseBin parses binary digits.
func ParseBin(s string) (uint64, bool) { return parseBase(s, 2) }

func parseBase(s string, base int) (uint64, bool) {
	if s == "" {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || int(s[i]-'0') >= base {
			return 0, false
		}
	}
	v, err := strconv.ParseUint(s, base, 64)
	return v, err == nil
}

// ParseHex parses pairs of hexadecimal digits.
func ParseHex(s string) ([]byte, bool) {
	if len(s)%2 != 0 {
		return nil, false
	}
	out := make([]byte, 0, len(s)/2)
	for i := 0; i < len(s); i += 2 {
		v, err := strconv.ParseUint(s[i:i+2], 16, 8)
		if err != nil || s[i] == '+' {
			return nil, false
		}
		out = append(out, byte(v))
	}
	return out, true
}

func ParseFloat32(s string) (uint32, bool) {
	v, err := strconv.ParseFloat(s, 32)
	if err != nil {
		return 0, false
	}
	return floatBits32(float32(v)), true
}

func ParseFloat64(s string) (uint64, bool) {
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return 0, false
	}
	return floatBits64(v), true
}
