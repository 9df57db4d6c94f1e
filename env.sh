export HOME=${HOME:-/root} GOROOT=/opt/veriftools/go1.27.3 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH=$GOROOT/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
unset GOOS GOARCH
