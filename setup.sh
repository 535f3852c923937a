#!/bin/sh
# builds the fact extractor and analyses the current tree once, so that the checks start from a warm cache
cd "$(dirname "$0")" && python3 engine/build_ir.py >/dev/null
