import sys

from mon.core import main

sys.stdout.reconfigure(line_buffering=True)
sys.exit(main(sys.argv[1:]))
