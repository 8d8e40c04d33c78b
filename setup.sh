#!/bin/bash
# builds the fact extractor, extracts the facts of /repo and unpacks the reference facts
set -e
cd "$(dirname "$0")"
python3 -m engine.refresh
python3 -c 'from engine.load import reference_dir; print(reference_dir())'
