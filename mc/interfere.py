"""Somebody else changes a directory while an operation is at work: at every line of the operation, and in between the steps of
the change"""
import gc
import os
import shutil

from mc import inputs, tsched
from mc.core import Violation, expect, expect_eq
from mc.dbcheck import release_maps
from mc.world import image, known


def run_steps(fns):
    # One line for each, as each line is where we can be interrupted
    n = len(fns)
    if n > 0:
        fns[0]()
    if n > 1:
        fns[1]()
    if n > 2:
        fns[2]()
    if n > 3:
        fns[3]()
    assert n <= 4


def adding(d, tag, spec, first=".pack"):
    """:return: steps which add a pack"""
    stem, pack, idx, ents = image(*spec)

    def put(ext):
        # files are moved in place once they are complete
        inputs.put("%s/pack/%s%s" % (d.path, stem, ext), pack if ext == ".pack" else idx)
        d._touch()

    def one():
        put(first)

    def two():
        put(".idx" if first == ".pack" else ".pack")
        d.packs[tag] = (stem, set(ents))
    return [one, two]


def removing(d, tag, first=".idx"):
    stem = d.packs[tag][0]

    def one():
        del d.packs[tag]
        os.unlink("%s/pack/%s%s" % (d.path, stem, first))
        d._touch()

    def two():
        os.unlink("%s/pack/%s%s" % (d.path, stem, ".pack" if first == ".idx" else ".idx"))
        d._touch()
    return [one, two]


def explore(ctx, name, make, operation, change, names, bound, visits=1, part=0, parts=1):
    """:param make: returns (directory to be removed, handle, Dir)
    :param operation: called with the handle
    :param change: called with Dir, returns steps"""
    import gitdb
    watched = (os.path.dirname(gitdb.__file__) + "/", __file__)

    counter = [0]

    def start():
        base, db, d = make()
        steps = change(d)
        return [lambda: operation(db), lambda: run_steps(steps)], (base, db, d)

    def finish(context, results, errors):
        base, db, d = context
        try:
            if errors[1] is not None:
                raise errors[1]
            if errors[0] is not None and not isinstance(errors[0], OSError):
                # files may well vanish under our hands
                raise Violation("the operation failed: %s: %s" % (type(errors[0]).__name__, str(errors[0])[:200]))
            db.update_cache()
            model = set(d.visible())
            for n in names:
                expect(db.has_object(n) is (n in model), "after a refresh: has_object(%s..) is wrong, it should be %s", n.hex()[:8], n in model)
                if n in model:
                    s = db.stream(n)
                    expect_eq((bytes(s.type), s.size, bytes(s.read())), (known(n)[0], len(known(n)[1]), known(n)[1]), "after a refresh: object %s.." % n.hex()[:8])
            expect_eq(sorted(set(db.sha_iter())), sorted(model), "after a refresh: enumeration")
        finally:
            db = context = None
            shutil.rmtree(base)
            counter[0] += 1
            if counter[0] % 50 == 0:
                # memory mapped files are kept open
                gc.collect()
                release_maps()
    tsched.explore(ctx, name, watched, start, finish, bound, visits, False, part, parts)
    ctx.count("scenarios")
