import sys

from .core import shard_main

if __name__ == '__main__':
    a = sys.argv[1:]
    shard_main(a[0], a[1], int(a[2]), int(a[3]), float(a[4]), a[5], a[6])
