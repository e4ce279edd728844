"""dump SEED N PATH: pickle N objects, for another process to load."""
import sys

if __name__ == '__main__':
    sys.setrecursionlimit(5000)
    from .core import dump
    dump(sys.argv[1], int(sys.argv[2]), sys.argv[3])
