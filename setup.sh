#!/bin/bash
# Builds the monitor and all its dependencies offline.
exec "$(cd "$(dirname "$0")" && pwd)/check.sh" build
