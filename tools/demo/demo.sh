#!/bin/bash
# exit 0: the property holds on what this demonstration tries
exec python3 -B "$(dirname "$0")/demo.py"
