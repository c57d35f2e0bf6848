# Sourced: the Go environment of the checks (offline).
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS="-mod=mod -buildvcs=false"
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
