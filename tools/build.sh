#!/bin/bash
# Builds the analyser from /verif/sca into /verif/bin.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/tools/env.sh"
cd "$here/sca"
mkdir -p "$here/bin"
go build -mod=vendor -o "$here/bin/sca.new" .
mv "$here/bin/sca.new" "$here/bin/sca"
