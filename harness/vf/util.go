package vf

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
)

func flagSet(name, value string) error { return flag.Set(name, value) }

func dumpStacks() {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	os.WriteFile(filepath.Join(Dir(), fmt.Sprintf("stuck.%d.txt", os.Getpid())), buf[:n], 0o644)
}
