"""Joins a freshly executed interpreter to the simulation it belongs to."""
import os
import sys

if 'PDSIM_ADDR' in os.environ and not any('resource_tracker' in a for a in sys.orig_argv):
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import dhook

    dhook.install()
    dhook.join(os.environ['PDSIM_ADDR'], os.environ['PDSIM_SITE'])
