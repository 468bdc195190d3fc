"""Offline setup: nothing to build ahead (every check extracts the IR from /repo's current tree); checks that the tools are there."""
import shutil, sys, z3
for t in ('clang-18', 'opt-18', 'objcopy', 'nm'):
    if not (shutil.which(t) or shutil.which('/usr/lib/llvm-18/bin/' + t[:-3])):
        sys.exit('missing tool ' + t)
print('z3', z3.get_version_string())
