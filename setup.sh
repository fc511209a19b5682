#!/bin/bash
# Builds the verifier from its sources.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
mkdir -p bin evidence
cd vcgen
go build -o ../bin/vcgen .
