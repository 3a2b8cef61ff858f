package file

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"strings"
	"syscall"
)

var wProps = map[string]wProp{"C18": {gen: genC18, run: runC18, seq: true}}

func genC18(rng *rand.Rand, i int) wIn {
	k := "write"
	switch i % 7 {
	case 6:
		k = "full"
	case 1, 3, 5:
		k = "limit"
	}
	v := wVersion(rng, i)
	at := rng.Intn(2000)
	if k == "limit" && rng.Intn(2) == 0 {
		at = -1 - rng.Intn((17+4*v+1)/2) // at the end of a line
	}
	return wIn{Kind: k, Text: wText(rng), N: []int{v, at}}
}

func runC18(in wIn) string {
	_, m := wSymbol(in.Text, in.N[0])
	if in.Kind == "full" {
		// a device on which every write fails
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			return ""
		}
		defer f.Close()
		if err := New(f).Write(m); err == nil {
			return "a failing write is not reported"
		}
		return ""
	}
	if err := New(nil).Write(m); err == nil {
		return "a missing file is not reported"
	}
	f, err := os.CreateTemp("", "verif-file")
	if err != nil {
		return ""
	}
	defer os.Remove(f.Name())
	defer f.Close()
	w := New(f)
	if err := w.Write(m); err != nil {
		return "Write: " + err.Error()
	}
	if err := w.Close(); err != nil {
		return "Close: " + err.Error()
	}
	got, _ := os.ReadFile(f.Name())
	var want bytes.Buffer
	b := m.Bitmap()
	n := len(b)
	for y := 0; y < n; y += 2 {
		for x := 0; x < n; x++ {
			k := 0
			if b[y][x] {
				k = 1
			}
			if y+1 < n && b[y+1][x] {
				k += 2
			}
			want.WriteString([]string{" ", "\u2580", "\u2584", "\u2588"}[k])
		}
		want.WriteString("\n")
	}
	if in.Kind == "limit" {
		// the disk is full after some bytes
		at := in.N[1]
		if at < 0 {
			at = -1
			for i := 0; i < -in.N[1]; i++ {
				at += 1 + bytes.IndexByte(want.Bytes()[at+1:], '\n')
			}
		}
		if at >= want.Len() {
			return ""
		}
		signal.Ignore(syscall.SIGXFSZ)
		f.Truncate(0)
		f.Seek(0, 0)
		var old syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(at), Max: old.Max})
		err := New(f).Write(m)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
		got, _ := os.ReadFile(f.Name())
		if err == nil {
			return fmt.Sprintf("a write that fails after %d bytes is not reported", at)
		}
		if string(got) != want.String()[:len(got)] {
			return "something else is written before the failure"
		}
		return ""
	}
	if string(got) != want.String() {
		g, w := strings.Split(string(got), "\n"), strings.Split(want.String(), "\n")
		for i := range w {
			if i >= len(g) || g[i] != w[i] {
				return fmt.Sprintf("line %d differs", i)
			}
		}
		return "something else is written"
	}
	return ""
}
