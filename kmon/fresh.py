"""Runs one C14 case in a process of its own and prints the digests of its results."""
import json
import sys

from . import boot

boot.setup()
from .core import quiet  # noqa: E402
from .props import c14  # noqa: E402

with quiet():
    out = c14.digest(c14.once(json.loads(sys.argv[1])))
print(json.dumps(out))
