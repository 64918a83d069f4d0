# Go toolchain settings, offline (the same as /opt/vp/env.sh).
export HOME="${HOME:-/root}"
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOSUMDB=off
export GOFLAGS="-mod=mod -buildvcs=false"
