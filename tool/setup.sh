#!/bin/sh
# makes sure the extractor runs here; builds it if the committed binary does not
cd "$(dirname "$0")/.." && python3 -c '
import sys
sys.path.insert(0, "engine")
sys.dont_write_bytecode = True
import ir
print("extractor:", ir.extractor())'
