#!/bin/bash
# Warms the build cache: every check builds what it needs itself.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
(cd "$here/harness" && go vet ./... >/dev/null 2>&1; go build ./... && for p in ./checks/*/; do go test -c -vet=off -o /dev/null "$p" || exit 1; done) || exit 1
(cd /repo && go build -o /dev/null ./ginkgo) || exit 1
exit 0
