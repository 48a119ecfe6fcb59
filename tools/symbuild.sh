#!/bin/sh
# builds build/vpsym (the driver does the same on demand)
cd "$(dirname "$0")/.." && python3 -c "import sys; sys.path.insert(0,'lib'); import driver; driver.build_vpsym()"
