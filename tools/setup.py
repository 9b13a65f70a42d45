"""Nothing is compiled: checks that the interpreter and /repo can be imported."""
import os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from dst import procenv
code = 'from dst.worker import assert_repo; print("checking", assert_repo())'
r = subprocess.run([procenv.python(), '-c', code], cwd=here, env=procenv.child_env())
sys.exit(r.returncode)
