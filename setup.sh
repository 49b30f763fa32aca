#!/bin/bash
# Builds the framework from the committed files (offline).
cd "$(dirname "$0")" || exit 2
bash sim/build.sh bin
