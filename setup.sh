#!/bin/bash
# Nothing to build: checks that the interpreter, the code under test and every check module load.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p evidence
exec bash run.sh selftest
