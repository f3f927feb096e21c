#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]   decide one property of /repo's working tree
   run.py setup                      build everything once

Exit 0: it held on everything explored. Exit 1: violated, with a VIOLATION line. Anything else: no
answer (a build that fails, a watchdog, nothing observed)."""
import sys
sys.path.insert(0, "/verif/lib")
import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
