#!/bin/bash
# builds the verifier from the committed files (offline)
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p .build
(cd engine && GOFLAGS="-mod=mod -buildvcs=false" go build -o ../.build/qrverif .)
