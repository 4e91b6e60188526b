# Offline Go environment; the same one the repository's own build uses.
if [ -f /opt/vp/env.sh ]; then
  . /opt/vp/env.sh
else
  export GOROOT=/opt/veriftools/go1.24.13
  export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
  export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
fi
export GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod GOPROXY=off
