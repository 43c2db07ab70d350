#!/bin/bash
# Builds the checker from the committed sources.
set -e
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/bin" "$here/evidence"
cd "$here/csscheck"
go build -o "$here/bin/.csscheck.$$" .
mv "$here/bin/.csscheck.$$" "$here/bin/csscheck"
