# Go environment of the checker: offline, pinned toolchain and module cache.
for d in /opt/veriftools/go1.27.3 /usr/local/go; do
  [ -x "$d/bin/go" ] && { export PATH="$d/bin:$PATH"; break; }
done
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod GOWORK=off CGO_ENABLED=0
export GOCACHE="${VERIF_GOCACHE:-${HOME:-/root}/.cache/go-build}"
