"""Nothing to build: checks are pure Python over the standard library. Verifies that the analyser imports."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import sa  # noqa
print("ok")
