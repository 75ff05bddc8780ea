# Sourced by the scripts of this directory: the Go toolchain the repository is built with, offline.
if [ -f /opt/vp/env.sh ]; then
	. /opt/vp/env.sh
fi
[ -x /opt/veriftools/go1.24.13/bin/go ] && export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOROOT=/opt/veriftools/go1.24.13
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
