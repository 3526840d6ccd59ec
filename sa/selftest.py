"""setup: the analysed package parses and the analysis core works on a tiny example."""
import sys
from .model import Package


def main():
    p = Package()
    print("parsed %(modules)d modules, %(functions)d functions, %(classes)d classes" % p.stats())
    return 0


if __name__ == "__main__":
    sys.exit(main())
