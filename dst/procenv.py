"""Environment every simulator process runs under. Import before jax/TF."""
import os

REPO = os.environ.get('DST_REPO', '/repo')

# Compiler settings a run may meet. 'plain' is XLA's default, where the
# algebraic simplifier hides some non-finite arithmetic (False * nan becomes a
# select); 'nosimp' computes what the program says, as un-jitted code does.
XLA = {'nosimp': '--xla_cpu_multi_thread_eigen=false --xla_disable_hlo_passes=algsimp',
       'plain': '--xla_cpu_multi_thread_eigen=false',
       # a host with several accelerators (only for classes that ask for it)
       'multi': '--xla_cpu_multi_thread_eigen=false --xla_force_host_platform_device_count=3'}


def child_env(extra=None):
  e = {k: v for k, v in os.environ.items()
       if k in ('PATH', 'HOME', 'LANG', 'TMPDIR', 'DST_REPO', 'DST_SCRATCH')}
  e.setdefault('PATH', '/usr/local/bin:/usr/bin:/bin')
  e.setdefault('HOME', '/tmp')
  verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  e.update(
      JAX_PLATFORMS='cpu',
      TF_CPP_MIN_LOG_LEVEL='3',
      TF_ENABLE_ONEDNN_OPTS='0',
      CUDA_VISIBLE_DEVICES='-1',
      MPLBACKEND='Agg',
      PYTHONDONTWRITEBYTECODE='1',
      PYTHONHASHSEED='0',
      OMP_NUM_THREADS='1',
      OPENBLAS_NUM_THREADS='1',
      MKL_NUM_THREADS='1',
      XLA_FLAGS=XLA['plain'],
      PYTHONPATH=REPO + os.pathsep + verif,
  )
  if extra:
    e.update(extra)
  return e


def python():
  for p in ('/opt/venv/bin/python',):
    if os.path.exists(p):
      return p
  import sys
  return sys.executable
