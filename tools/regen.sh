#!/bin/sh
# regenerates properties.jsonl, MANIFEST.json and DESIGN.md
cd "$(dirname "$0")/.." && python3 tools/mkprops.py > properties.jsonl && python3 tools/mkmanifest.py && python3 tools/mkdesign.py
