import ptrobs  # noqa: F401
import rt


def check(b, r, tier):
    rt.check(b, r, 'C30', 100, ('c++17',) if tier == 'quick' else ('c++11', 'c++14', 'c++17', 'c++20'), 'pt')
