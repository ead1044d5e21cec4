"""C12: concurrent stores and readers of one object directory are atomic"""
import itertools
import os
import shutil
from io import BytesIO

from mc import fsx, gitref as g
from mc.checks import c10
from mc.core import Violation, expect, expect_eq
from mc.dbcheck import check_objects_dir, debris, release_maps
from mc.sched import Explorer

PROPERTY = "C12"
LEVEL = "model_checking"
TECHNIQUE = "stateless model checking of the real code: dynamic partial order reduction with sleep sets over all interleavings of the file system calls of threads and processes"
LEVEL_NOTE = ("All interleavings, up to exchanging independent calls, of every file system call made by 2 (3) actors below the objects directory; scheduling happens at calls "
              "below the objects directory only, not within the Python code between them.")
RULE = ("Actors (store fresh, store encoded, copy from memory, membership, info, stream, enumeration, prefix lookup, sequences of them) for equal objects, objects sharing a directory, and "
        "unrelated ones; sharing one handle, one handle each, or processes; empty directory, existing fan-out directory, object already there. After every execution: all stores succeeded, "
        "each query saw an object either correctly or not at all, saw everything that was complete before it began, and never lost one; the directory holds exactly the stored objects and no "
        "temporary files. states: distinct prefixes of Mazurkiewicz traces; transitions: executed calls; traces: complete executions of the real code.")
BOUNDS = {"quick": "all pairs of ~14 actors x 3 kinds of sharing x 3 initial states; triples of 6 actors with one handle each",
          "thorough": "all pairs; all triples of 7 actors x 2 initial states; processes for all store pairs"}
ASSUMPTIONS = ["each file system call is atomic"]
NEEDS_FSX = True
CASE_TIMEOUT = 60

A = (b"blob", b"concurrently stored")
B = c10.same_fanout(A)                  # in the same directory
C = (b"tree", b"elsewhere")
OBJ = {"A": A, "B": B, "C": C}


def mk_store(obj, raw=False):
    def act(db, note):
        from gitdb import IStream
        typ, data = obj
        sha = g.obj_sha(typ, data)
        if raw:
            r = db.store(IStream(typ, len(data), BytesIO(g.Z(1)(g.canonical(typ, data))), sha))
        else:
            r = db.store(IStream(typ, len(data), BytesIO(data)))
        if bytes(r.binsha) != sha:
            note("problem", "store returned the name %s" % r.hexsha)
        note("stored", sha)
    return act


def mk_copy(obj):
    def act(db, note):
        from gitdb import IStream
        from gitdb.db import MemoryDB
        typ, data = obj
        m = MemoryDB()
        m.store(IStream(typ, len(data), BytesIO(data)))
        m.stream_copy([g.obj_sha(typ, data)], db)
        note("stored", g.obj_sha(typ, data))
    return act


def query(db, obj, how):
    """:return: whether it was seen. Raises Violation if it is wrong"""
    from gitdb.exc import BadObject
    typ, data = obj
    sha = g.obj_sha(typ, data)
    if how == "has":
        r = db.has_object(sha)
        if r not in (True, False):
            raise Violation("has_object returned %r" % r)
        return r
    if how == "iter":
        return sha in [bytes(s) for s in db.sha_iter()]
    try:
        if how == "info":
            i = db.info(sha)
            if (bytes(i.binsha), bytes(i.type), i.size) != (sha, typ, len(data)):
                raise Violation("info returned %r" % (tuple(i),))
        elif how == "stream":
            s = db.stream(sha)
            if (bytes(s.type), s.size, bytes(s.read())) != (typ, len(data), data):
                raise Violation("stream delivered something else")
        elif how == "prefix":
            r = bytes(db.partial_to_complete_sha_hex(sha.hex()[:8].encode()))
            if r != sha:
                raise Violation("prefix resolved to %s" % r.hex())
        return True
    except BadObject:
        return False


def mk_query(name, *hows):
    def act(db, note):
        for how in hows:
            start = note.now()
            try:
                seen = query(db, OBJ[name], how)
            except Violation as e:
                note("problem", str(e))
                return
            note("seen" if seen else "missed", g.obj_sha(*OBJ[name]), start)
    return act


def seq(*acts):
    def act(db, note):
        for a in acts:
            a(db, note)
    return act


STORES = {"sA": mk_store(A), "rA": mk_store(A, True), "cA": mk_copy(A), "sB": mk_store(B), "rB": mk_store(B, True), "sC": mk_store(C),
          "sAhA": seq(mk_store(A), mk_query("A", "has", "stream")), "sAsA": seq(mk_store(A), mk_store(A))}
QUERIES = {"hA": mk_query("A", "has"), "iA": mk_query("A", "info"), "tA": mk_query("A", "stream"), "eA": mk_query("A", "iter"), "pA": mk_query("A", "prefix"),
           "hiA": mk_query("A", "has", "info"), "htA": mk_query("A", "has", "stream", "iter"), "etA": mk_query("A", "iter", "stream"),
           "hhB": mk_query("B", "has", "has")}
ACTS = dict(STORES, **QUERIES)
STORED = {"sA": "A", "rA": "A", "cA": "A", "sB": "B", "rB": "B", "sC": "C", "sAhA": "A", "sAsA": "A"}


class Note(list):
    def __init__(self, now):
        self.now = now

    def __call__(self, what, sha, start=None):
        self.append((what, sha, self.now() if start is None else start, self.now()))


def scenario(ctx, actors, sharing, init, mode, root_init=True):
    from gitdb.db import LooseObjectDB, GitDB
    import time
    time.sleep = lambda s: None
    name = "%s/%s/%s/%s" % ("+".join(actors), sharing, init, mode)
    base = {"A": [A], "B": [B], "none": [], "neighbour": [c10.same_fanout(B)], "other": [C], "packed": [A]}[init]
    want = {g.obj_sha(*o): o for o in base}
    for a in actors:
        if a in STORED:
            want[g.obj_sha(*OBJ[STORED[a]])] = OBJ[STORED[a]]
    old = {g.obj_sha(*o) for o in base}
    known = {g.obj_sha(*o): n for n, o in OBJ.items()}

    def start(now):
        d = ctx.fresh_dir("o") + "/objects"
        os.makedirs(d)
        for o in base:
            if init == "packed":
                c10.write_pack(d, [o])
            else:
                c10.write_loose(d, o)

        def open_db():
            if sharing.startswith("git"):
                db = GitDB(d)
                db.databases()
                if init == "packed":
                    db.has_object(g.obj_sha(*A))
                return db
            return LooseObjectDB(d)
        one = open_db()
        fns = []
        for a in actors:
            db = one if sharing in ("one", "gitone") else open_db()

            def fn(a=a, db=db):
                note = Note(now)
                try:
                    ACTS[a](db, note)
                except Exception as e:
                    note("problem", "%s: %s" % (type(e).__name__, e))
                return list(note)
            fns.append(fn)
        return d, fns, d

    def finish(d, results, trace):
        events = []
        for a, notes in zip(actors, results):
            for what, sha, t0, t1 in notes:
                if what == "problem":
                    raise Violation("%s: %s" % (a, sha))
            events.append([(a,) + n for n in notes])
        stored = {sha: min([n[4] for ns in events for n in ns if n[1] == "stored" and n[2] == sha] or [1 << 30]) for sha in known}
        for ns in events:
            seen = set()
            for a, what, sha, t0, t1 in ns:
                if what in ("seen", "stored"):
                    seen.add(sha)
                    expect(sha in want, "%s: %s is seen, but nobody stores it", a, known[sha])
                if what == "missed":
                    expect(sha not in seen, "%s: object %s disappeared", a, known[sha])
                    expect(sha not in old, "%s: object %s, which was there before, is missed", a, known[sha])
                    expect(stored[sha] > t0, "%s: object %s is missed, although its store was complete before", a, known[sha])
        now = check_objects_dir(d, [], "at the end", prefixes=False)
        expect_eq(sorted(now), sorted(want), "objects at the end")
        expect_eq(debris(d), [], "temporary files at the end")
        shutil.rmtree(os.path.dirname(d))
        if init == "packed":
            release_maps()
        ctx.count("calls_per_execution_total", len(trace))
    Explorer(ctx, start, finish, mode).explore(name)
    ctx.count("scenarios")


def units(tier, seed):
    quick = tier == "quick"
    out = {}

    def add(actors, sharing, init, mode="threads"):
        n = "%s-%s-%s-%s" % ("+".join(actors), sharing, init, mode)
        out[n] = (n, scenario, dict(actors=list(actors), sharing=sharing, init=init, mode=mode))
    inits = ("none", "neighbour", "A")
    for a, b in itertools.combinations_with_replacement(list(STORES), 2):
        if quick and (a, b) in (("sAsA", "sAsA"), ("sAhA", "sAsA")):
            continue
        for init in inits:
            add((a, b), "each", init)
            add((a, b), "one", init)
    for a in STORES:
        for q in QUERIES:
            for init in inits:
                add((a, q), "each", init)
                add((a, q), "one", init)
            add((a, q), "gitone", "none")
            add((a, q), "git", "packed")
    for a, b in (("sA", "sA"), ("sA", "rA"), ("sA", "sB"), ("rA", "rA"), ("cA", "sA")):
        for init in inits if not quick else ("none", "A"):
            add((a, b), "each", init, "processes")
        add((a, b), "git", "packed", "processes")
    for a, q in (("sA", "htA"), ("rA", "htA"), ("sA", "etA"), ("sA", "pA")):
        add((a, q), "each", "none", "processes")
    triples = list(itertools.combinations_with_replacement(("sA", "rA", "sB"), 2))
    for a, b in triples:
        for q in ("hA", "tA") if quick else ("hA", "iA", "tA", "htA", "pA"):
            add((a, b, q), "each", "none")
            if not quick:
                add((a, b, q), "one", "none")
                add((a, b, q), "each", "A")
    if not quick:
        for t in itertools.combinations_with_replacement(("sA", "rA", "sB", "sC"), 3):
            add(t, "each", "none")
            add(t, "one", "neighbour")
    return list(out.values())
