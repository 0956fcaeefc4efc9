#!/bin/bash
cd "$(dirname "$0")" || exit 2
exec /opt/spl-venv/bin/python -c 'import sys; sys.path.insert(0, "lib"); import build; build.build_extension()'
