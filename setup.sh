#!/bin/bash
# Unpack the property-based testing library (offline wheelhouse) next to the checks.
# The checks do this themselves when it is missing, so running it is optional.
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B run.py --setup
