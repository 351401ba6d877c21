#!/bin/bash
# nothing to install: parse the sources and build the replay library once, to fail early
cd "$(dirname "$0")/engine" && python3-vt -c '
import cfront, realc
print(len(cfront.load().fns) if hasattr(cfront.load(), "fns") else "ok", realc.build())'
