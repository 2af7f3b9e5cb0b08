export HOME=/root GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
