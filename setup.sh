#!/bin/bash
# Nothing is installed: checks only need what the sandbox has. Make sure the code under test can be loaded.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
./check --selftest
