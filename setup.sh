#!/bin/bash
# builds the syntax-tree dumper used by the C++ checks
cd "$(dirname "$0")" && bash sa/build_dumper.sh build >/dev/null
