#!/bin/bash
# Builds the harness once; run.sh builds it again where needed.
cd "$(dirname "$0")" && ./run.sh --build
