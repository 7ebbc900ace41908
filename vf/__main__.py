import sys

from vf.harness import main

sys.exit(main())
