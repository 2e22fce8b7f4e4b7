"""A fuzzing dictionary: the numbers and words that occur in the code under test.

Values compared against in the source are where behaviour can change, so the
workloads use them (and their neighbours) alongside their own pools.
"""
import ast
import glob
import os

from common import SRC


def _harvest():
    nums, words = set(), set()
    for path in sorted(glob.glob(os.path.join(SRC, "colosseum", "*.py"))):
        try:
            with open(path, encoding="utf-8") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            continue
        # The colour table is data, not thresholds.
        skip_calls = os.path.basename(path) == "colors.py"
        for node in ast.walk(tree):
            if not isinstance(node, ast.Constant):
                continue
            v = node.value
            if isinstance(v, bool):
                continue
            if isinstance(v, (int, float)) and not skip_calls:
                if v == v and abs(v) <= 1e6:
                    nums.add(v)
            elif isinstance(v, str) and 0 < len(v) <= 24 and "\n" not in v:
                words.add(v)
    return sorted(nums), sorted(words)


NUMBERS, WORDS = _harvest()
NEAR = sorted({x for n in NUMBERS for x in (n - 1, n, n + 1)})
COUNTS = sorted({int(x) for x in NEAR if 0 <= x <= 160})
