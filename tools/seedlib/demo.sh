#!/bin/bash
# cwd: the repository. Runs scenarios of demo.py with the repository's own sources on a simulated line.
exec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"
