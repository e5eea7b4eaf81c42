from . import env  # noqa: F401  (first: sets up the process)
import sys
from .runner import main

sys.exit(main(sys.argv[1:]))
