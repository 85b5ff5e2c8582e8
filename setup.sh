#!/bin/bash
# builds the symbolic executor (checks build it on demand as well)
cd "$(dirname "$0")" && python3 -c 'import check; check.ensure_engine()'
