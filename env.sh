# Sourced by the check driver: the offline Go toolchain, as /opt/vp/env.sh has it.
export HOME=/root
export PATH=/opt/veriftools/go1.25.14/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
unset WEBRPC_SCHEMA_VERSION
