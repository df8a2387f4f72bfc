#!/bin/bash
. "$(dirname "$0")/env.sh"
build mc-wire || exit 1
build mc-core || exit 1
build mc-cli || exit 1
