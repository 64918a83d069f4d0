package main

// Coverage-guided search, with Go's fuzzing engine. Only the code under test
// is instrumented (see check.sh). FuzzBytes mutates the bytes given to the
// decoder; FuzzCases mutates the stream of random numbers a generator draws
// from, so that every part of a check can be searched this way. Both judge a
// case by the oracle of its part and leave failing cases in FUZZ_OUT, from
// where the parent takes the smallest and runs it again.

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

type fuzzer struct {
	id, out string
	part    *Part
	journal *os.File
	once    sync.Once
}

func newFuzzer(f *testing.F) *fuzzer {
	z := &fuzzer{id: os.Getenv("FUZZ_ID"), out: os.Getenv("FUZZ_OUT")}
	if z.id == "" {
		f.Skip("run by check.sh")
	}
	for _, p := range checks[z.id].Parts {
		if p.Name == os.Getenv("FUZZ_PART") {
			z.part = p
		}
	}
	if z.part == nil {
		f.Fatal("no part ", os.Getenv("FUZZ_PART"))
	}
	logrus.SetOutput(io.Discard)
	return z
}

// try runs one case and tells whether it failed.
func (z *fuzzer) try(c any) bool {
	z.once.Do(func() {
		startWatchdog()
		z.journal, _ = os.Create(filepath.Join(z.out, fmt.Sprintf("journal.%d", os.Getpid())))
	})
	js, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	cf := CaseFile{Property: z.id, Part: z.part.Name, Case: js}
	jb, _ := json.Marshal(cf)
	_ = z.journal.Truncate(0)
	_, _ = z.journal.WriteAt(jb, 0)
	watchLimit.Store(int64(caseLimit(z.part)))
	watchStart.Store(time.Now().UnixNano())
	f := runCase(z.part, newRec(js), c)
	watchStart.Store(0)
	if f == nil || f.Soft {
		return false
	}
	cf.Message = f.Msg
	jb, _ = json.Marshal(cf)
	_ = os.WriteFile(filepath.Join(z.out, fmt.Sprintf("fail.%d.%x.json", os.Getpid(), hash64(string(js)))), jb, 0o644)
	return true
}

func fuzzSeed() int64 {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return int64(hash64(os.Getenv("FUZZ_ID"), os.Getenv("FUZZ_PART"), fmt.Sprint(n)) >> 1)
}

func FuzzCases(f *testing.F) {
	z := newFuzzer(f)
	r := rand.New(rand.NewSource(fuzzSeed()))
	for i := 0; i < 40; i++ {
		b := make([]byte, 8*200*(1+i))
		r.Read(b)
		f.Add(b)
	}
	f.Fuzz(rapid.MakeFuzz(func(t *rapid.T) {
		if z.try(z.part.gen(t)) {
			t.Fatalf("violation")
		}
	}))
}

func FuzzBytes(f *testing.F) {
	z := newFuzzer(f)
	r := rand.New(rand.NewSource(fuzzSeed()))
	for i := range corpus() {
		if m, _, err := refDecode(corpus()[i]); err == nil {
			f.Add(append([]byte{2 - m.PT&1}, m.body()...))
		}
		f.Add(append([]byte{3}, corpus()[i]...))
	}
	g := rapid.Custom(func(t *rapid.T) MPkg { return genPkg(t, genOpt{PT: -1, MaxRecs: 3, MaxSubs: 4}) })
	for i := 0; i < 60; i++ {
		p := g.Example(r.Intn(1 << 30))
		f.Add(append([]byte{2 - p.PT&1}, p.body()...))
		f.Add(append([]byte{3}, p.Bytes()...))
	}
	if z.id == "C03" {
		for k, typ := range allSubs {
			g := rapid.Custom(func(t *rapid.T) MSub { return genSub(t, typ, genOpt{}.norm()) })
			for i := 0; i < 6; i++ {
				s := g.Example(r.Intn(1 << 30))
				f.Add(append([]byte{8, byte(k)}, s.Data()...))
			}
		}
	}
	f.Fuzz(func(t *testing.T, in []byte) {
		if z.tryBytes(in) {
			z.shrinkBytes(in)
			t.Fatal("violation")
		}
	})
}

func (z *fuzzer) tryBytes(in []byte) bool {
	if len(in) == 0 || len(in) > 70000 {
		return false
	}
	var c any = &BytesCase{fuzzBytes(in)}
	if z.id == "C03" {
		c = fuzzCrash(in)
	}
	return c != nil && z.try(c)
}

// shrinkBytes drops and clears bytes as long as the case fails; try leaves
// every step behind, and the parent takes the smallest.
func (z *fuzzer) shrinkBytes(in []byte) {
	end := time.Now().Add(4 * time.Second)
	for n := len(in) / 2; n > 0; n /= 2 {
		for at := 1; at+n <= len(in) && time.Now().Before(end); {
			if s := append(append([]byte{}, in[:at]...), in[at+n:]...); z.tryBytes(s) {
				in = s
			} else {
				at += n
			}
		}
	}
	for at := 1; at < len(in) && time.Now().Before(end); at++ {
		s := append([]byte{}, in...)
		if s[at] = 0; in[at] != 0 && z.tryBytes(s) {
			in = s
		}
	}
}

// fuzzBytes makes a packet of the fuzzer's bytes. Most ways repair the
// checksums, which mutation alone would never get right.
func fuzzBytes(in []byte) []byte {
	b := append([]byte{}, in[1:]...)
	p := MPkg{PRV: 1, PT: 1}
	switch in[0] % 8 {
	case 1, 4:
	case 2, 5:
		p.PT = 0
	case 3, 6:
		return repaired(b)
	default:
		return b
	}
	if len(b) > 65535 {
		b = b[:65535]
	}
	return p.frame(b)
}

// repaired sets the length of the body and both checksums of a packet.
func repaired(b []byte) []byte {
	if len(b) < 11 || int(b[3]) > len(b) || b[3] < 11 {
		return b
	}
	hl := int(b[3])
	if n := len(b) - hl - 2; n > 0 && n <= 65535 {
		b[5], b[6] = byte(n), byte(n>>8)
		s := refCRC16(b[hl : hl+n])
		b[hl+n], b[hl+n+1] = byte(s), byte(s>>8)
	}
	b[hl-1] = refCRC8(b[:hl-1])
	return b
}

func fuzzCrash(in []byte) any {
	if in[0] < 8 {
		return &CrashCase{"packet", fuzzBytes(in)}
	}
	switch in[0] % 4 {
	case 1:
		return &CrashCase{"records", in[1:]}
	case 2:
		return &CrashCase{"subrecords", in[1:]}
	case 3:
		return &CrashCase{"response", in[1:]}
	}
	if len(in) < 2 {
		return nil
	}
	return &CrashCase{itoa(int(allSubs[int(in[1])%len(allSubs)])), in[2:]}
}
