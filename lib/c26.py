import rt


def check(b, r, tier):
    rt.check(b, r, 'C26', 220, ('c++17',) if tier == 'quick' else ('c++11', 'c++14', 'c++17', 'c++20'))
