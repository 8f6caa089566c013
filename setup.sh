#!/bin/bash
# Builds the checker from the committed sources (vendored, offline).
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin
cd checker
go build -o "../bin/checker.$$" . && mv "../bin/checker.$$" ../bin/checker
