package vsym

import (
	"bytes"
	"os"
)

var (
	scratch        string
	captured       *os.File
	oldOut, oldErr *os.File
)

// Scratch makes a new directory the working directory; it is removed at the
// end. Symbolic runs have files of their own.
func Scratch() {
	if scratch != "" {
		return
	}
	d, err := os.MkdirTemp("", "vsym")
	if err == nil {
		err = os.Chdir(d)
	}
	if err != nil {
		panic("vsym: no scratch directory")
	}
	scratch = d
}

// leave restores everything.
func leave() {
	restore()
	if scratch != "" {
		os.Chdir("/")
		os.RemoveAll(scratch)
		scratch = ""
	}
}

func restore() {
	if captured != nil {
		os.Stdout, os.Stderr = oldOut, oldErr
	}
}

// Capture starts to record what is written to the standard streams.
func Capture() {
	Scratch()
	f, err := os.CreateTemp("", "vsymout")
	if err != nil {
		panic("vsym: no output file")
	}
	os.Remove(f.Name())
	captured = f
	oldOut, oldErr = os.Stdout, os.Stderr
	os.Stdout, os.Stderr = f, f
}

// Lines are the lines that were written since the last Capture.
func Lines() [][]byte {
	restore()
	n, err := captured.Seek(0, 1)
	if err != nil {
		panic("vsym: output lost")
	}
	b := make([]byte, n)
	if _, err = captured.ReadAt(b, 0); err != nil && n > 0 {
		panic("vsym: output lost")
	}
	captured.Close()
	captured = nil
	l := bytes.Split(b, []byte("\n"))
	if len(l[len(l)-1]) == 0 {
		l = l[:len(l)-1]
	}
	return l
}

// Block makes it impossible to write a file of this name.
func Block(name string) {
	Scratch()
	if err := os.Mkdir(name, 0o755); err != nil {
		panic("vsym: cannot block " + name)
	}
}
