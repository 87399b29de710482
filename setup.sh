#!/bin/bash
# Nothing is compiled: checks that the interpreter and the code under test load.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo exec /opt/venv/bin/python -W ignore -c '
import ZODB, ZEO, BTrees, transaction, pyld
import citrine, jsonld, activitystreams
print("ready")'
