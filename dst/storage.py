"""Simulated record storage, hosts and machines for the data loader.

Files live in a scratch directory of the run and are written once; faults
rewrite their bytes (torn, truncated, flipped, missing). Hosts of a distributed
job are simulated in one process by answering jax.process_index/process_count.
The tf.data thread pool is the one component whose scheduling cannot be taken
over: its workers pass through a gate inside the parsing function, where each
element is held for a seeded number of milliseconds, which forces reorderings.
"""
import contextlib
import hashlib
import os
import shutil
import struct
import tempfile
import time

import numpy as np


class Disk:
  """Scratch directory of one run."""

  def __init__(self, tag='data'):
    self.root = tempfile.mkdtemp(prefix='disk', dir=os.environ.get('DST_SCRATCH'))
    self.dir = os.path.join(self.root, tag)
    os.mkdir(self.dir)

  def close(self):
    shutil.rmtree(self.root, ignore_errors=True)

  def names(self, base, nfiles):
    return [os.path.join(self.dir, f'{base}-{i:05d}-of-{nfiles:05d}') for i in range(nfiles)]

  def write(self, path, records):
    import tensorflow as tf
    with tf.io.TFRecordWriter(path) as w:
      for r in records:
        w.write(r)


@contextlib.contextmanager
def disk(tag='data'):
  d = Disk(tag)
  try:
    yield d
  finally:
    d.close()


def layout(path):
  """[(offset, payload length)] of every record of a sound file."""
  out = []
  with open(path, 'rb') as f:
    b = f.read()
  o = 0
  while o < len(b):
    n = struct.unpack('<Q', b[o:o + 8])[0]
    out.append((o, n))
    o += 16 + n
  return out, len(b)


def payload(rid, seed, size):
  """Bytes of record rid: its id, then noise that identifies it."""
  r = np.random.RandomState((seed * 1000003 + rid) % (2**32))
  body = r.bytes(size)
  return b'%08d' % rid + body


@contextlib.contextmanager
def host(index, count, devices=1):
  """One host of a distributed job."""
  import jax
  old = jax.process_index, jax.process_count, jax.local_device_count
  jax.process_index = lambda *a, **k: index
  jax.process_count = lambda *a, **k: count
  jax.local_device_count = lambda *a, **k: devices
  try:
    yield
  finally:
    jax.process_index, jax.process_count, jax.local_device_count = old


@contextlib.contextmanager
def cpus(n):
  """A machine with n processors (as far as the thread pools look at it)."""
  if not n:
    yield False
    return
  try:
    old = os.sched_getaffinity(0)
    os.sched_setaffinity(0, set(sorted(old)[:n]))
  except OSError:
    yield False
    return
  try:
    yield True
  finally:
    os.sched_setaffinity(0, old)


class Gate:
  """Holds every parsed element for a time decided by (seed, element)."""

  def __init__(self, seed, most_ms, rate=.4):
    self.seed, self.most, self.rate = seed, most_ms, rate

  def hold(self, b):
    h = hashlib.sha256(b'%d/' % self.seed + bytes(b[:8])).digest()
    if h[0] / 255 < self.rate:
      time.sleep(self.most * h[1] / 255 / 1000)
    return np.int64(0)


def raw_parser(gate=None):
  """bytes -> {'id', 'sum'}: identity and checksum of the record's content."""
  import tensorflow as tf

  def parse(b):
    if gate is not None:
      z = tf.numpy_function(gate.hold, [b], tf.int64, stateful=True)
      z.set_shape(())
    else:
      z = tf.constant(0, tf.int64)
    rid = tf.strings.to_number(tf.strings.substr(b, 0, 8), tf.int64)
    return {'id': tf.cast(rid + z, tf.int32),
            'sum': tf.cast(tf.strings.to_hash_bucket_fast(b, 2**30), tf.int32)}
  return parse


def checksums(payloads):
  import tensorflow as tf
  return [int(x) for x in tf.strings.to_hash_bucket_fast(tf.constant(payloads), 2**30).numpy()] if payloads else []
