#!/bin/bash
# Builds the monitors from the committed files and /repo's working tree, offline.
cd "$(dirname "$(readlink -f "$0")")" && ./build.sh && ./build.sh akaze && ./build.sh sfm
