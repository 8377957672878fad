export PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOENV=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off CGO_ENABLED=1
export HOME=${HOME:-/root}
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOROOT GINKGO_EDITOR_INTEGRATION GINKGO_PARALLEL_PROTOCOL GINKGO_TIME_FORMAT GINKGO_PRUNE_STACK
