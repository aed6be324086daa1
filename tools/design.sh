#!/bin/bash
# rewrites the last section of DESIGN.md (planted bugs) from seeded/ and tools/caught.txt
cd "$(dirname "$0")/.."
sed -i '/^## Planted bugs/,$d' DESIGN.md
{ echo "## Planted bugs"; echo; echo "The bug's property, what it breaks, and the quick checks that were seen to catch it."; echo; python3 tools/planted.py; } >> DESIGN.md
