# Environment of every check: the toolchain the repository is built with, offline.
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GO111MODULE=on
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod GOPATH=/root/go
export CGO_ENABLED=1 TZ=UTC
