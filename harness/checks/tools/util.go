// Package tools checks what the ginkgo command does besides running suites.
package tools

import (
	"os"
	"path/filepath"
)

// scratch makes a directory for one case; each process has its own TMPDIR.
func scratch() string {
	d, err := os.MkdirTemp("", "case")
	if err != nil {
		panic(err)
	}
	return d
}

// inside runs f in the directory, with nothing printed, and says how it ended if it did not return.
func inside(dir string, f func()) (ended any) {
	was, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	o, e := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = null, null
	defer func() {
		os.Stdout, os.Stderr = o, e
		null.Close()
		os.Chdir(was)
		ended = recover()
	}()
	f()
	return
}

// write makes a file, and the directories on the way to it.
func write(path, text string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o777); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, []byte(text), 0o666); err != nil {
		panic(err)
	}
}
