#!/bin/bash
# Builds the variants of the simulator (every check rebuilds when sources changed).
cd "$(dirname "$0")" && python3 -c "
import check
for v in ('asan','ls','py'): print(check.build(v))"
