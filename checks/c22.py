#!/usr/bin/env python3
"""C22: editor views stay in step with the model."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, c21

c21.PROP, c21.VIEWS = "C22", True

if __name__ == "__main__":
    check.run(c21.main)
