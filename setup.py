#!/usr/bin/env python3
"""Warm the build folders (/verif/.build): the harness and the MIR of /repo's crate."""
import shutil, os
import check
vh, err = check.build_harness()
if vh:
    shutil.rmtree(os.path.dirname(vh))
mir, err2 = check.emit_mir()
print('harness', 'ok' if vh else err[-500:], 'mir', 'ok' if mir else err2[-500:])
