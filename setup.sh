#!/bin/bash
# builds the condition generator and warms the build cache
cd "$(dirname "$0")"
python3 -c "import check,sys; sys.exit(0 if check.build_govc() else 1)"
