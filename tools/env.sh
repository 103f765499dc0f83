export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOTOOLCHAIN=local
