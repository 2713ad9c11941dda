#!/bin/bash
# Unpacks the vendored property-testing library into .deps (git-ignored). Idempotent, offline.
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python harness/bootstrap.py
