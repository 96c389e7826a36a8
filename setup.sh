#!/bin/bash
# builds the symbolic execution engine from the committed sources
cd "$(dirname "$0")" && exec bash engine/build.sh .build/qse
