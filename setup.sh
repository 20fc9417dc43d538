#!/bin/bash
# Compiles the harness once so that the first check finds a warm build cache.
cd "$(dirname "$0")/harness" || exit 1
. ./env.sh
go test -c -vet=off -o /dev/null ./props
go test -c -race -vet=off -o /dev/null ./props
