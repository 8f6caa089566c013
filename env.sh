export HOME="${HOME:-/root}"
export PATH="/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=vendor GOWORK=off CGO_ENABLED=0
unset GOOS GOARCH GOEXPERIMENT
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
if ! mkdir -p "$GOCACHE" 2>/dev/null || [ ! -w "$GOCACHE" ]; then
  export GOCACHE="${TMPDIR:-/tmp}/verif-gocache"
fi
