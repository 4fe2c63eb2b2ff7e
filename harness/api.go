package golisp

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"time"
	"strconv"
)

// Harness interface. Under the symbolic engine these functions are intercepted
// and create solver variables; compiled natively they read the recorded inputs
// of a counterexample so that it runs against the real code.

var vRegistry = map[string]func(){}

type vInput struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

type vReplayFile struct {
	Harness string   `json:"harness"`
	Tier    string   `json:"tier"`
	Inputs  []vInput `json:"inputs"`
}

var vIn vReplayFile
var vPos int

func vNext(name string) string {
	if vPos >= len(vIn.Inputs) {
		fmt.Println("VERIF-REPLAY-EXHAUSTED at", name)
		os.Exit(4)
	}
	x := vIn.Inputs[vPos]
	vPos++
	return x.Val
}

func vi(s string) int64 { x, _ := strconv.ParseInt(s, 10, 64); return x }
func vu(s string) uint64 { x, _ := strconv.ParseUint(s, 10, 64); return x }

func vInt64(name string) int64             { return vi(vNext(name)) }
func vInt(name string, lo, hi int64) int64 { return vi(vNext(name)) }
func vByte(name string) byte               { return byte(vu(vNext(name))) }
func vBool(name string) bool               { return vu(vNext(name)) != 0 }
func vFloat32(name string) float32         { return math.Float32frombits(uint32(vu(vNext(name)))) }

func vFloat64(name string) float64         { return math.Float64frombits(vu(vNext(name))) }

// vChoice is a nondeterministic choice explored one path per alternative.
func vChoice(name string, n int) int { return int(vi(vNext(name))) }

func vString(name string, n int) string {
	b, _ := hex.DecodeString(vNext(name))
	return string(b)
}

// vOneOf is one of the alternatives (at most 64); which one is decided only
// when its kind or contents are looked at.
func vOneOf(name string, alts []*Data) *Data {
	d := *alts[vu(vNext(name))]
	return &d
}

// vUndecided reports whether d comes from vOneOf and nothing has looked at it.
func vUndecided(d *Data) bool { return false }

func vAssume(b bool) {
	if !b {
		fmt.Println("VERIF-REPLAY-ASSUME")
		os.Exit(4)
	}
}

func vAssert(b bool, msg string) {
	if !b {
		fmt.Println("VERIF-FAIL " + msg)
		os.Exit(3)
	}
}

// vKnown marks executions inside the region of a recorded known finding.
func vKnown(id string, region bool) {}

func vReach(label string)    {}
func vOpaque(on bool)        {}
func vConcurrent(p int)      {}
func vMapPerm(on bool)       {}
func vSymbolic() bool        { return false }
func vTake(b bool) bool      { return b }
func vConcInt(x int64) int64 { return x }
var vStart = time.Now()

// vClock is the time in nanoseconds since the start.
func vClock() int64 { return time.Since(vStart).Nanoseconds() }


func vTier() int {
	if vIn.Tier == "thorough" {
		return 1
	}
	return 0
}

// vFmtInt is the decimal text of x; it replaces strconv's table-driven
// formatting when a symbolic integer's text is inspected.
func vFmtInt(x int64, unsigned bool) string {
	u := uint64(x)
	neg := false
	if !unsigned && x < 0 {
		neg = true
		u = -u
	}
	var b []byte
	for {
		b = append(b, byte('0'+u%10))
		u /= 10
		if u == 0 {
			break
		}
	}
	if neg {
		b = append(b, '-')
	}
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

// vFmtBits is the text of x in base 2, 8 or 16.
func vFmtBits(x int64, unsigned bool, base int64) string {
	u := uint64(x)
	neg := false
	if !unsigned && x < 0 {
		neg = true
		u = -u
	}
	shift := uint(1)
	if base == 8 {
		shift = 3
	} else if base == 16 {
		shift = 4
	}
	var b []byte
	for {
		d := byte(u & uint64(base-1))
		if d < 10 {
			b = append(b, '0'+d)
		} else {
			b = append(b, 'a'+d-10)
		}
		u >>= shift
		if u == 0 {
			break
		}
	}
	if neg {
		b = append(b, '-')
	}
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

// vScanInt mirrors fmt.Sscanf("%d"/"%x"/"%o"/"%b") into an int64.
func vScanInt(s string, base int) (int64, bool) {
	i := 0
	for i < len(s) && (s[i] == ' ' || s[i] == '\t' || s[i] == '\r') {
		i++
	}
	neg := false
	if i < len(s) && (s[i] == '-' || s[i] == '+') {
		neg = s[i] == '-'
		i++
	}
	safe := map[int]int{2: 62, 8: 20, 10: 18, 16: 15}[base] // this many digits always fit
	var v uint64
	n := 0
	for i < len(s) {
		c := s[i]
		d := 99
		switch {
		case c >= '0' && c <= '9':
			d = int(c - '0')
		case c >= 'a' && c <= 'f':
			d = int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			d = int(c-'A') + 10
		}
		if d >= base {
			break
		}
		if n >= safe && v > (1<<63)/uint64(base) {
			return 0, false
		}
		v = v*uint64(base) + uint64(d)
		if n >= safe && v > 1<<63 {
			return 0, false
		}
		n++
		i++
	}
	if n == 0 {
		return 0, false
	}
	if neg {
		return -int64(v), true
	}
	if n >= safe && v > 1<<63-1 {
		return 0, false
	}
	return int64(v), true
}

// vScanFloat mirrors fmt.Sscanf("%f") into a float32 for texts of at most 7
// digits without an exponent; known is false for others.
func vScanFloat(s string) (f float32, ok, known bool) {
	i := 0
	neg := false
	if i < len(s) && (s[i] == '-' || s[i] == '+') {
		neg = s[i] == '-'
		i++
	}
	var m uint64
	n := 0
	scale := 1.0
	dot := false
	for ; i < len(s); i++ {
		c := s[i]
		if c == '.' && !dot {
			dot = true
			continue
		}
		if c >= 0x80 && n > 0 {
			break
		}
		if c < '0' || c > '9' {
			return 0, false, false
		}
		m = m*10 + uint64(c-'0')
		n++
		if dot {
			scale *= 10
		}
	}
	if n == 0 || n > 7 {
		return 0, false, false
	}
	r := float64(m) / scale
	if neg {
		r = -r
	}
	return float32(r), true, true
}

// VReplayMain runs one recorded counterexample.
func VReplayMain() {
	if os.Args[1] == "-self" {
		a, _ := os.ReadFile(os.Args[2])
		b, _ := os.ReadFile(os.Args[3])
		VSelfTest(string(a), string(b))
		fmt.Println("SELF:" + VSelfResult)
		return
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(5)
	}
	if err := json.Unmarshal(b, &vIn); err != nil {
		fmt.Println(err)
		os.Exit(5)
	}
	f := vRegistry[vIn.Harness]
	if f == nil {
		fmt.Println("no harness", vIn.Harness)
		os.Exit(5)
	}
	debug.SetMaxStack(256 << 20)
	f()
	fmt.Println("VERIF-OK")
}

var VSelfResult string

// VSelfTest runs one Lisp test file under the repository's test library.
func VSelfTest(lib, src string) {
	if _, err := ParseAndEvalAll(lib); err != nil {
		VSelfResult = "lib: " + err.Error()
		return
	}
	if _, err := ParseAndEvalAll(src); err != nil {
		VSelfResult = "src: " + err.Error()
		return
	}
	r, err := ParseAndEvalAll("(list number-of-passes number-of-failures number-of-errors failure-messages error-messages)")
	if err != nil {
		VSelfResult = "result: " + err.Error()
		return
	}
	VSelfResult = String(r)
}
