export PATH="/usr/local/go/bin:/usr/lib/go/bin:$PATH:/usr/local/bin:/usr/bin:/bin"
export HOME="${HOME:-/root}"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off
