'''
A process that runs commands in an environment of its own: requests and answers are lines of JSON.

The environment variables, umask and current directory are given by the process that starts it; the order in which directories are listed is changed here.
'''
import contextlib
import io
import json
import os
import random
import shutil     # noqa: looks at os.scandir on import
import sys


class Listing:
    def __init__(self, it, order, rng):
        with it:
            self.entries = sorted(it, key=lambda e: os.fsencode(e.name))
        if order == 'reversed':
            self.entries.reverse()
        elif order == 'shuffled':
            rng.shuffle(self.entries)
        self.it = iter(self.entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def close(self):
        pass


def change_order(order):
    rng = random.Random(7)
    listdir, scandir = os.listdir, os.scandir

    def new_listdir(path='.'):
        names = sorted(listdir(path), key=os.fsencode)
        if order == 'reversed':
            names.reverse()
        elif order == 'shuffled':
            rng.shuffle(names)
        return names

    os.listdir = new_listdir
    os.scandir = lambda path='.': Listing(scandir(path), order, rng)


def main():
    order, fresh = sys.argv[1:]
    answers = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    if order != 'system':
        change_order(order)
    import bead_cli.main
    import bead.zipopener
    import traceback
    for line in sys.stdin:
        cwd, argv = json.loads(line)
        os.chdir(cwd)
        os.environ['PWD'] = cwd
        out, err = io.StringIO(), io.StringIO()
        sys.argv = ['bead', *argv]
        code = 0
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                bead_cli.main.main()
            except SystemExit as e:
                code = e.code or 0
            except BaseException:
                code = 'escaped ' + traceback.format_exc()[-1500:]
        if fresh == 'closing':
            bead.zipopener.close_all()
        answers.write(json.dumps([code, out.getvalue(), err.getvalue()]) + '\n')
        answers.flush()


if __name__ == '__main__':
    main()
