#!/bin/sh
# Regenerates the committed fixtures (needed only after a change of cmd/fixgen or sch).
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOSUMDB=off
mkdir -p fixtures/pb
go run ./cmd/fixgen && gofmt -l fixtures
