"""Lists, stacks and dynamic strings: all operation histories within bounds on the real code."""
import os
from mc.core import Ctx

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    c = Ctx('C02')
    exe = c.cc(os.path.join(HERE, 'c/maps.c'), os.path.join(c.scratch, 'maps'), 'asan')
    os.chmod(exe, 0o755)
    T = c.thorough
    jobs = [['list', d, m] for d, m in ((6, 2), (9, 3), (14, 4), (20, 5)) + (((24, 6), (24, 7)) if T else ())]
    jobs += [['stack', d] for d in range(1, 12 if T else 9)]
    jobs += [['dstring', 1, 20], ] + [['dstring', 2, 20, i] for i in range(1, 6)] + [['dstring', 3, 12 if T else 5, i] for i in range(1, 6)]
    if T: jobs += [['dstring', 4, 4, i] for i in range(1, 6)]
    jobs.sort(key=lambda j: j[0])
    c.harness(exe, jobs, 'checks/c/maps.c', 3000 if T else 300)
    c.cov['jobs'] = len(jobs)
    c.finish()


if __name__ == '__main__':
    main()
