#!/bin/bash
# Builds the clang plugin that hands the type-checked syntax tree to the analyses.
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0,'sa')
import frontend; print(frontend.plugin_path())"
