#!/bin/bash
# builds the AST exporter; every check also does so on demand
cd "$(dirname "$0")" && exec python3-vt -c "
import sys
sys.path.insert(0, 'vc')
import frontend
print(frontend.astx())"
