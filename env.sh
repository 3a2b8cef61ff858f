export PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOFLAGS=-buildvcs=false
unset GOWORK GOOS GOARCH GOROOT
