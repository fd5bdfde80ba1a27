#!/bin/sh
# DESIGN.md = its hand-written part (up to the marker) + the list of harnesses
cd "$(dirname "$0")/.."
sed '/^## 7. Harnesses/,$d' DESIGN.md > /tmp/design.new
{ echo '## 7. Harnesses and bounds (printed by tools/harnesses.py)'; /opt/venv/bin/python -B tools/harnesses.py; } >> /tmp/design.new
cp /tmp/design.new DESIGN.md
