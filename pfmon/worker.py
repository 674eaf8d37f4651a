"""Entry point of the worker processes."""
import sys

from pfmon.core import worker_main

if __name__ == "__main__":
    worker_main(sys.argv[1:])
