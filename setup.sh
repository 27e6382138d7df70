#!/bin/bash
# Builds the engine from the committed sources.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence && cd gosym && exec go build -o ../bin/gosym .
