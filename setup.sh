#!/bin/bash
# Builds the checker (no network). Every check rebuilds it through run.sh when it is missing.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/bin"
cd "$here/checker" && go build -o "$here/bin/checker" .
