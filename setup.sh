#!/bin/bash
# Builds all variants once (the checks rebuild what changed).
exec bash "$(dirname "$0")/sim/build.sh" fast mem asan
