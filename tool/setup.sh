#!/bin/bash
# builds the AST extractor and the precompiled header; nothing else is needed by the checks
cd "$(dirname "$0")/.." && python3 -c "
import sys; sys.path.insert(0,'sa')
import db; db.extract(['core/Cell.cpp']); print('setup done')"
