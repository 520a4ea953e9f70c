#!/bin/bash
# Nothing is kept between runs: every check builds from /repo itself. This only verifies the toolchain.
set -e
cd "$(dirname "$0")/../mc/instr"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
go vet .
