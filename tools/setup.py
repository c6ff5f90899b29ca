#!/usr/bin/env python3
"""Nothing is installed: checks that what the checks need is there. Every check builds for itself."""
import os
import shutil
import sys

missing = [t for t in ('g++', 'clang++', 'objcopy', 'python3') if not shutil.which(t)]
missing += [p for p in ('/usr/share/unicode/UnicodeData.txt', os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src/libunicode')) if not os.path.exists(p)]
if missing:
    print('missing: ' + ', '.join(missing))
    sys.exit(1)
print('ready')
