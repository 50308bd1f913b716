#!/bin/bash
# builds the analysers once (checks rebuild them when their sources changed)
cd "$(dirname "$0")" || exit 1
make -s -j8 -C tool OUT="$PWD/.build" && make -s -C tool_ast OUT="$PWD/.build"
