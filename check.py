#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current sources."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import ctx
if __name__ == "__main__":
    sys.exit(ctx.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
