#!/bin/bash
. "$(dirname "$0")/build.sh"
mkdir -p "$V/evidence"
build release && build dbg
