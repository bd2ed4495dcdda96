"""Maps: explicit-state exploration of the real tree and hash code (checks/c/maps.c, built with the address sanitizer
against the library of the working tree)."""
import os
from mc.core import Ctx

HERE = os.path.dirname(os.path.abspath(__file__))
STRING, STRINGKEY, ONEWORD = 0, 1, 2
HASH, TREE = 1, 2


def main():
    c = Ctx('C01')
    exe = c.cc(os.path.join(HERE, 'c/maps.c'), os.path.join(c.scratch, 'maps'), 'asan')
    os.chmod(exe, 0o755)
    T = c.thorough
    jobs = []
    # every reachable tree over K keys, every key type
    for kt in (STRING, STRINGKEY, ONEWORD, 4, 8, 12, 16):
        jobs.append(['tree', kt, (11 if kt == 0 else 10 if kt in (1, 2) else 9) if T else 7 if kt in (0, 1) else 6, 0, 'plain'])
    for kt in (ONEWORD, 16): jobs.append(['tree', kt, 8 if T else 6, 0, 'far'])
    for kt in (STRING, STRINGKEY): jobs.append(['tree', kt, 8 if T else 6, 0, 'odd'])
    for kt in (STRING, 4): jobs.append(['tree', kt, 4 if T else 3, 5, 'plain'])
    # every reachable chain order of a hash, around every rebuild threshold
    for kt in (STRING, STRINGKEY, ONEWORD, 4, 8, 16):
        for base in (0, 20, 44, 45, 46, 47, 48) + ((188, 190, 191, 192) if T or kt in (0, 2) else ()):
            jobs.append(['hash', kt, (6 if base < 40 else 5) if T else (5 if base < 20 else 3), base, 'plain'])
    jobs += [['hash', ONEWORD, 6 if T else 5, 0, 'far'], ['hash', STRING, 6 if T else 5, 0, 'odd'], ['hash', 16, 5, 0, 'far']]
    # sizes beyond all tables, every pair of insertion and deletion order
    for mt in (HASH, TREE):
        for kt in (STRING, STRINGKEY, ONEWORD, 4, 16):
            for n in ((1, 2, 3, 5, 8, 13, 21, 34, 64, 100, 150, 200, 300, 410, 500, 800) if T else (1, 2, 3, 8, 30, 64, 200) + ((450,) if kt == ONEWORD else ())):
                jobs.append(['sizes', mt, kt, n, 'far' if kt == ONEWORD and n < 100 else 'plain'])
    for mt in (HASH, TREE):
        for kt in (STRING, STRINGKEY): jobs.append(['pairs', mt, kt])
    for al in ('aB_A91,', 'aA0,19 ', 'bB[{_^9'):
        for mode in (0, 1, 2): jobs.append(['dict', 3, al, mode])
    jobs.sort(key=lambda j: (j[0] not in ('sizes', 'tree'), -int(j[2]) if j[0] == 'tree' else -int(j[3]) if j[0] == 'sizes' else 0))
    c.harness(exe, jobs, 'checks/c/maps.c', 3000 if T else 300)
    c.cov['jobs'] = len(jobs)
    c.finish()


if __name__ == '__main__':
    main()
