#!/bin/bash
# builds the AST front end (also done on demand by every check)
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 python3-vt -c 'from capyver import front; front.build_astdump(); print("front end built")'
