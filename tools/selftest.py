"""setup: checks that the tools the checks rely on are there"""
import shutil, sys
import z3, numpy
for t in ('clang', 'gcc', 'make', 'cbmc', 'objdump'):
    if not shutil.which(t):
        print('missing tool', t); sys.exit(1)
print('ok z3', z3.get_version_string(), 'numpy', numpy.__version__)
