#!/bin/sh
# compiles the Java overrides of the specification's operators into build/
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -c 'import sys; sys.path.insert(0, "harness"); import tlc; tlc.build_java(); print("ok")'
