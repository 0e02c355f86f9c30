#!/bin/bash
# Builds the supervisor and warms the build cache; every check rebuilds what it needs anyway.
cd "$(dirname "$0")/harness" || exit 2
. ../env.sh
go build -o /dev/null ./cmd/runcheck && go vet ./cmd/runcheck ./mon && go build -o /dev/null ./checks/... && GOARCH=386 CGO_ENABLED=0 go build -o /dev/null ./checks/...
