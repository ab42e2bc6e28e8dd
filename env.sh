# the toolchain /opt/vp/build.sh uses, offline
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
