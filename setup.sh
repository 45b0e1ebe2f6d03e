#!/bin/bash
# Nothing has to be prepared: every check builds the harness itself. This only
# confirms, early, that the harness compiles against /repo.
set -u
cd "$(dirname "$0")" && exec ./check.sh BUILD
