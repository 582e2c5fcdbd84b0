// Package vsym is the interface between the property harnesses and the checker.
//
// Under the symbolic executor every function here is intercepted and introduces
// or constrains symbolic values.  Compiled natively, the same functions read the
// solver's assignment from the file named by VSYM_REPLAY, so that a harness is
// also the replay program of its own counterexamples.
package vsym

import (
	"bytes"
	"crypto/rand"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"

	"filippo.io/edwards25519"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

type replayFile struct {
	Inputs map[string]string `json:"inputs"`
	Rand   []string          `json:"rand"`
	Seed   int64             `json:"seed"`
	Label  string            `json:"label"`
	Tier   int               `json:"tier"`
	Rel    []string          `json:"rel"`
	Field  int               `json:"field"` // number of runs at the field level
}

var (
	rf    replayFile
	mu    sync.Mutex
	count = map[string]int{}
	rng   *mrand.Rand
	t8    *edwards25519.Point
)

type replayRand struct{ i int }

func (r *replayRand) Read(b []byte) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	if randFail > 0 {
		randFail--
		if randFail == 0 {
			randFailed = true
			if randShort != nil {
				n := copy(b, randShort)
				randShort = nil
				return n, nil
			}
			return 0, fmt.Errorf("vsym: no randomness")
		}
	}
	if r.i < len(rf.Rand) {
		v, _ := hex.DecodeString(rf.Rand[r.i])
		r.i++
		if len(v) == len(b) {
			return copy(b, v), nil
		}
	}
	rng.Read(b)
	return len(b), nil
}

// Init loads the replay file (native runs only).
func Init() {
	if f := os.Getenv("VSYM_REPLAY"); f != "" {
		raw, err := os.ReadFile(f)
		if err != nil {
			fmt.Println("VSYM-ERROR", err)
			os.Exit(44)
		}
		if err := json.Unmarshal(raw, &rf); err != nil {
			fmt.Println("VSYM-ERROR", err)
			os.Exit(44)
		}
	}
	rng = mrand.New(mrand.NewSource(rf.Seed + 1))
	rand.Reader = &replayRand{}
	b, _ := hex.DecodeString("c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a")
	t8, _ = new(edwards25519.Point).SetBytes(b)
}

// Done reports a completed run.
func Done() {
	leave()
	fmt.Println("VSYM-OK")
}

func next(name string) (string, bool) {
	mu.Lock()
	defer mu.Unlock()
	count[name]++
	v, ok := rf.Inputs[name+"#"+strconv.Itoa(count[name])]
	return v, ok
}

func num(name string) uint64 {
	v, ok := next(name)
	if !ok {
		return 0
	}
	n, _ := strconv.ParseUint(v, 10, 64)
	return n
}

// U8 and friends introduce arbitrary integers.
func U8(name string) uint8   { return uint8(num(name)) }
func U16(name string) uint16 { return uint16(num(name)) }
func U32(name string) uint32 { return uint32(num(name)) }
func U64(name string) uint64 { return num(name) }
func Bool(name string) bool  { return num(name) != 0 }

// Choose is an arbitrary value in [0,n), each explored separately.
func Choose(name string, n int) int { return int(num(name)) }

// Length is one of the given lengths or of those up to max that the code under
// test treats specially: the integers it compares with or sizes buffers by,
// and their neighbours. Each is explored separately.
func Length(name string, max int, base ...int) int { return int(num(name)) }

// Count is the same for numbers of things other than bytes (parties,
// coefficients, messages): one of the given numbers or of those from the
// smallest of them to max that the code treats specially.
func Count(name string, max int, base ...int) int { return int(num(name)) }

// Bytes is an arbitrary byte string of length n.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	if v, ok := next(name); ok {
		x, _ := hex.DecodeString(v)
		copy(b, x)
	}
	return b
}

// Scalar is an arbitrary scalar (possibly zero).
func Scalar(name string) *ristretto.Scalar {
	s := ristretto.NewScalar()
	if v, ok := next(name); ok {
		x, _ := hex.DecodeString(v)
		if _, err := s.SetCanonicalBytes(x); err != nil {
			panic("vsym: bad scalar in replay file")
		}
	}
	return s
}

// Element is an arbitrary group element (possibly the identity) in an
// arbitrary internal representation. The replay value is "<log hex>:<k>".
func Element(name string) *ristretto.Element {
	e := ristretto.NewIdentityElement()
	v, ok := next(name)
	if !ok {
		return e
	}
	p := strings.SplitN(v, ":", 2)
	x, _ := hex.DecodeString(p[0])
	s := ristretto.NewScalar()
	if _, err := s.SetCanonicalBytes(x); err != nil {
		panic("vsym: bad element in replay file")
	}
	k, _ := strconv.Atoi(p[1])
	pt := new(edwards25519.Point).ScalarBaseMult(s)
	for i := 0; i < k; i++ {
		pt.Add(pt, t8)
	}
	*(*edwards25519.Point)(unsafe.Pointer(e)) = *pt
	return e
}

// Log returns the discrete logarithm of an element that was built from known
// scalars; only the symbolic executor knows it. Natively it is not available.

// Assume restricts the explored runs.
func Assume(c bool) {
	if !c {
		if rf.Field > 0 {
			panic(assumed{})
		}
		leave()
		fmt.Println("VSYM-ASSUME")
		os.Exit(43)
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		leave()
		fmt.Println("VSYM-VIOLATION " + label)
		os.Exit(42)
	}
}

// Independent states that no non-trivial linear combination of the given
// scalars (or discrete logarithms of the given elements) is determined without
// the fresh randomness drawn by the program. The replay file of a violation
// contains the coefficients of such a combination, which is checked here.
func Independent(label string, xs ...interface{}) {
	mu.Lock()
	count["indep/"+label]++
	key := label + "#" + strconv.Itoa(count["indep/"+label])
	mu.Unlock()
	if len(rf.Rel) != len(xs)+2 || rf.Rel[0] != key {
		return
	}
	sum := ristretto.NewScalar()
	esum := ristretto.NewIdentityElement()
	for i, x := range xs {
		c := ristretto.NewScalar()
		b, _ := hex.DecodeString(rf.Rel[i+1])
		if _, err := c.SetCanonicalBytes(b); err != nil {
			panic("vsym: bad coefficient")
		}
		switch v := x.(type) {
		case *ristretto.Scalar:
			sum.MultiplyAdd(c, v, sum)
		case *ristretto.Element:
			esum.Add(esum, ristretto.NewIdentityElement().ScalarMult(c, v))
		default:
			panic("vsym: Independent of a foreign value")
		}
	}
	esum.Add(esum, ristretto.NewIdentityElement().ScalarBaseMult(sum))
	k := ristretto.NewScalar()
	b, _ := hex.DecodeString(rf.Rel[len(xs)+1])
	if _, err := k.SetCanonicalBytes(b); err != nil {
		panic("vsym: bad coefficient")
	}
	Assert(esum.Equal(ristretto.NewIdentityElement().ScalarBaseMult(k)) != 1, label)
}

// NextRand makes the next 64-byte reads from crypto/rand yield encodings of the
// given scalars (natively the bytes come from the replay file).
func NextRand(s ...*ristretto.Scalar) {}

// NoMoreRand drops what NextRand queued.
func NoMoreRand() {}

var (
	randFail   int
	randFailed bool
	randShort  []byte
)

// FailRand makes the k-th next read from crypto/rand.Reader fail.
func FailRand(k int) { randFail, randFailed, randShort = k, false, nil }

// ShortRand makes the k-th next read from crypto/rand.Reader yield only prefix.
func ShortRand(k int, prefix []byte) { randFail, randFailed, randShort = k, false, prefix }

// RandFailed reports whether the failure set by FailRand or ShortRand happened.
func RandFailed() bool { return randFailed }

// Cover marks a point that must be reachable.
func Cover(label string) {
	if rf.Field > 0 {
		if covered[label] {
			return
		}
		covered[label] = true
	}
	fmt.Println("VSYM-COVER " + label)
}

var covered = map[string]bool{}

// Panics reports whether f panics.
func Panics(f func()) (r bool) {
	defer func() {
		if e := recover(); e != nil {
			r = true
		}
	}()
	f()
	return false
}

// Advance lets (virtual) time pass and everything runnable run.
func Advance(d time.Duration) { time.Sleep(d) }

// MapOrder selects the iteration order of maps: 0 insertion, 1 reverse, 2 all.
func MapOrder(mode int) {}

// Preempt allows n preemptions at synchronisation points (-1: unlimited).
func Preempt(n int) {}

// Deviate allows n deviations from the default order of threads, at
// synchronisation points as well as where a thread blocks or ends.
func Deviate(n int) {}

// Tier is 0 for the quick and 1 for the thorough exploration.
func Tier() int { return rf.Tier }

// Often is how often to repeat something whose randomness a replay cannot
// repeat: once, or natively often enough to see each of 65536 outcomes.
func Often() int { return 2000000 }

// Deep lets this path take more steps.
func Deep() {}

// RaceCheck switches the data race analysis on.
func RaceCheck() {}

// FieldMode(k) switches to the curve arithmetic of the model, over the k-th
// small field. Natively the real field is used.
func FieldMode(k int) {}

// Pause is a point where another goroutine may go first.
func Pause() {
	n, err := strconv.ParseInt(os.Getenv("VSYM_DELAY"), 10, 64)
	if err != nil || n <= 0 {
		return
	}
	mu.Lock()
	if pauses == nil {
		pauses = mrand.New(mrand.NewSource(n))
	}
	k, d := pauses.Intn(4), time.Duration(pauses.Intn(1500))*time.Microsecond
	mu.Unlock()
	if k > 0 {
		time.Sleep(d)
	}
}

var pauses *mrand.Rand

// Settle lets all other goroutines run until they block or finish.
func Settle() {
	for i := 0; i < 20; i++ {
		runtime.Gosched()
		time.Sleep(time.Millisecond)
	}
}

// ---- JSON documents ----

func JNum(v int64) []byte { return []byte(strconv.FormatInt(v, 10)) }
func JStr(s string) []byte {
	b, _ := json.Marshal(s)
	return b
}
func JB64(b []byte) []byte {
	return []byte("\"" + base64.StdEncoding.EncodeToString(b) + "\"")
}
func JNull() []byte         { return []byte("null") }
func JBool(b bool) []byte   { return []byte(strconv.FormatBool(b)) }
func JArr(x ...[]byte) []byte { return []byte("[" + string(bytes.Join(x, []byte(","))) + "]") }

// JObj builds an object from alternating keys (raw strings) and documents.
func JObj(keys []string, vals ...[]byte) []byte {
	var b bytes.Buffer
	b.WriteByte('{')
	for i, k := range keys {
		if i > 0 {
			b.WriteByte(',')
		}
		b.Write(JStr(k))
		b.WriteByte(':')
		b.Write(vals[i])
	}
	b.WriteByte('}')
	return b.Bytes()
}

// JKeyID is the decimal text of an ID, as used for object keys.
func JKeyID(id uint16) string { return strconv.FormatUint(uint64(id), 10) }

// ---- heap inspection ----

// Reaches reports whether memory reachable from root contains the scalar s
// (as a scalar, or as its 32-byte encoding).
func Reaches(root interface{}, s *ristretto.Scalar) bool {
	enc := s.Bytes()
	seen := map[string]bool{}
	var walk func(v reflect.Value, d int) bool
	scT := reflect.TypeOf(edwards25519.Scalar{})
	walk = func(v reflect.Value, d int) bool {
		if d > 200 || !v.IsValid() {
			return false
		}
		if v.Type() == scT {
			if v.CanAddr() {
				x := (*edwards25519.Scalar)(unsafe.Pointer(v.UnsafeAddr()))
				return bytes.Equal(x.Bytes(), enc)
			}
			c := reflect.New(scT).Elem()
			c.Set(v)
			return walk(c, d+1)
		}
		if p := v.Type().PkgPath(); p == "time" || p == "reflect" || p == "sync" || p == "runtime" {
			return false
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return false
			}
			k := fmt.Sprintf("%x/%v", v.Pointer(), v.Type())
			if seen[k] {
				return false
			}
			seen[k] = true
			return walk(v.Elem(), d+1)
		case reflect.Interface:
			if v.IsNil() {
				return false
			}
			return walk(v.Elem(), d+1)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if f.CanAddr() {
					f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
				}
				if walk(f, d+1) {
					return true
				}
			}
		case reflect.Slice, reflect.Array:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				var b []byte
				for i := 0; i < v.Len(); i++ {
					b = append(b, byte(v.Index(i).Uint()))
				}
				return len(b) >= 32 && bytes.Contains(b, enc)
			}
			for i := 0; i < v.Len(); i++ {
				if walk(v.Index(i), d+1) {
					return true
				}
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				if walk(v.MapIndex(k), d+1) {
					return true
				}
			}
		case reflect.Func:
			return false
		}
		return false
	}
	return walk(reflect.ValueOf(root), 0)
}

// SortedKeys keeps harness code deterministic.
func SortedKeys(m map[uint16]bool) []uint16 {
	var r []uint16
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

var _ = big.NewInt
