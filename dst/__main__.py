import sys

from dst.runner import main

sys.exit(main(sys.argv[1:]))
