#!/bin/bash
# builds the AST exporter (offline); every check builds it itself if it is missing
cd "$(dirname "$0")" && mkdir -p build evidence && python3 -c "import sys;sys.path.insert(0,'vcgen');import prog;prog.exporter()"
