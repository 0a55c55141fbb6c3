#!/bin/sh
# Builds the AST exporter and warms the export caches.
cd "$(dirname "$0")" && exec python3 -c "
import sys; sys.setrecursionlimit(20000)
from sa import engine; engine.Trees()"
