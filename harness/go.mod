module github.com/onsi/ginkgo/v2/ginkgo/verifx

go 1.23.0

require (
	github.com/google/pprof v0.0.0-20250403155104-27863c87afa6
	github.com/onsi/ginkgo/v2 v2.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/go-logr/logr v1.4.2 // indirect
	github.com/go-task/slim-sprig/v3 v3.0.0 // indirect
	golang.org/x/sys v0.32.0 // indirect
	golang.org/x/tools v0.32.0 // indirect
)

replace github.com/onsi/ginkgo/v2 => /repo
