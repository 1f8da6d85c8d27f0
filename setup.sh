#!/bin/bash
# Builds the extension once so that the checks only have to rebuild what changed.
cd "$(dirname "$0")" && exec /opt/vp/venv/bin/python pbt/build.py
