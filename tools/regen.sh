#!/bin/sh
# regenerates properties.jsonl and MANIFEST.json
cd "$(dirname "$0")" && python3 gen_properties.py && python3 gen_manifest.py
