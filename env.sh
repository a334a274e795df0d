# The offline Go toolchain, as the repository's own build uses it.
export HOME=${HOME:-/root}
for zp_d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  [ -x "$zp_d/go" ] && { export PATH=$zp_d:/usr/local/bin:/usr/bin:/bin; break; }
done
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=readonly
unset GOOS GOARCH GODEBUG GOGC GOMEMLIMIT GOMAXPROCS GOEXPERIMENT
