"""C31: a Music plays the notes of its MIDI file at their ticks.

The library that reads MIDI files (mido, not part of the compiler) is
represented by a stand-in with the same interface that serves songs from
memory. Every bounded song is compiled and the reachable states of the world
(operations: a game tick, play, stop) explored to the fixpoint; the sounds
every tick makes are compared with a reference that computes the absolute
time of every event with exact fractions."""
import itertools
import json
import sys
import types
from fractions import Fraction

from .. import cases, core, mc

ME = __name__

# ---------------------------------------------------------------------------
# The stand-in for mido

SONGS = {}


class Message:
    is_meta = False

    def __init__(self, type, time=0, **k):
        self.type, self.time = type, time
        self.__dict__.update(k)

    def is_cc(self, control=None):
        return self.type == "control_change" and (
            control is None or self.control == control)

    def copy(self, **k):
        d = dict(self.__dict__)
        d.update(k)
        return type(self)(**d)

    def dict(self):
        return dict(self.__dict__)


class MetaMessage(Message):
    is_meta = True


class MidiTrack(list):
    @property
    def name(self):
        return ""

    def copy(self):
        return MidiTrack(self)


META = {"set_tempo", "track_name", "end_of_track"}


class MidiFile:
    def __init__(self, filename=None, *a, **k):
        if filename not in SONGS:
            raise FileNotFoundError(2, "No such file or directory", filename)
        s = SONGS[filename]
        self.filename = filename
        self.type = s.get("type", 1)
        self.ticks_per_beat = s["tpb"]
        self.charset = "latin1"
        self.tracks = [MidiTrack((MetaMessage if m["type"] in META else
                                  Message)(**m) for m in t)
                       for t in s["tracks"]]


def stub():
    m = types.ModuleType("mido")
    m.MidiFile, m.MidiTrack = MidiFile, MidiTrack
    m.Message, m.MetaMessage = Message, MetaMessage
    m.tempo2bpm = lambda t, *a: 6e7 / t
    m.bpm2tempo = lambda b, *a: int(round(6e7 / b))
    sys.modules["mido"] = m


# ---------------------------------------------------------------------------
# Reference

def sound(i):
    """The sound of MIDI program i, from the documentation of the module"""
    from acaciamc.modules import music
    return music.ID2INSTRUMENT[i]


HALF = Fraction(1, 2)


def reference(song, o):
    """-> (events [(tick, sound, volume, pitch)], (least, greatest) length),
    or None when an event lies on the boundary of two ticks"""
    speed = Fraction(str(o.get("speed", 1.0)))
    evs = []
    for i, t in enumerate(song["tracks"]):
        mt = 0
        for j, m in enumerate(t):
            mt += m["time"]
            evs.append((mt, i, j, m))
    evs.sort(key=lambda x: x[:3])
    tempo = 500000
    at, now = Fraction(0), 0     # game time of MIDI tick `now`
    prog = {c: 0 for c in range(16)}
    prog[9] = 127
    vol = {c: 100 for c in range(16)}
    chan = o.get("channel_volume", {})
    inst = o.get("instrument", {})
    res = []

    def per():
        return Fraction(1200) / (Fraction(60000000, tempo) * song["tpb"]
                                 * speed)

    def rnd(x):
        f = x + HALF
        k = f.numerator // f.denominator
        return None if abs(f - round(f)) < Fraction(1, 10 ** 6) else k
    for mt, _, _, m in evs:
        at += per() * (mt - now)
        now = mt
        ty = m["type"]
        if ty == "set_tempo":
            tempo = m["tempo"]
        elif ty == "control_change" and m["control"] == 7:
            vol[m["channel"]] = m["value"]
        elif ty == "program_change":
            prog[m["channel"]] = m["program"]
        elif ty == "note_on" and m["velocity"]:
            c = m["channel"]
            v = (m["velocity"] / 127 * vol[c] / 127 * chan.get(c, 1.0)
                 * o.get("volume", 1.0))
            if v == 0:
                continue
            t = rnd(at)
            if t is None:
                return None
            p = prog[c]
            res.append((t, inst.get(p) or sound(p), v,
                        2 ** ((m["note"] + o.get("note_offset", 0) - 54)
                              / 12 - 1)))
    lo, hi = rnd(at), rnd(at + per())
    if lo is None or hi is None:
        return None
    return res, (lo, hi) if evs else (0, 0)


# ---------------------------------------------------------------------------

LISTEN = 'Enfilter().all_players().has_tag("fan")'


def source(o):
    args = ['"song"']
    for k, v in o.items():
        if k == "_cfg":
            continue
        if k == "listener":
            args.append("listener=ls")
        elif isinstance(v, dict):
            args.append("%s={%s}" % (k, ", ".join(
                "%d: %s" % (a, json.dumps(b)) for a, b in v.items()) or ":"))
        else:
            args.append("%s=%s" % (k, json.dumps(v) if isinstance(v, str)
                                   else v))
    pre = []
    if "listener" in o:
        pre = ["ls := Engroup[Entity]()", "interface fans:",
               "    ls.clear()", "    ls.select(%s)" % LISTEN]
    return "\n".join(["import music"] + pre + [
        "const m = music.Music(%s)" % ", ".join(args),
        "interface len:", '    scb("len", "io") = m.LENGTH',
        "interface stop:", "    m.stop()",
        "interface play:", "    m.play()",
        "interface playat:", '    m.play(scb("k", "io"))',
        "interface playx:", '    m.play(scb("k", "io") * 2 - 3)',
        "interface play2:", "    m.play(timer=2)",
        "interface late:", "    m.play(-2)"]) + "\n"


def parse(w):
    """the sounds in the log -> sorted [(entity, sound, pos, vol, pitch)]"""
    res = []
    for e in w.log:
        f = e[1].split() if e[0] == "raw" else []
        if not f or f[0] != "playsound" or len(f) != 8 or f[2] != "@s":
            return repr(e)
        ent = e[2][0]
        if ent is None or ent not in w.entities:
            return "sound without a listener"
        if f[3:6] != ["~", "~", "~"] or \
                w.entities[ent].pos != e[2][1]:
            return "sound at another place: " + e[1]
        res.append((ent, f[1].strip('"'), float(f[7]), float(f[6])))
    return sorted(res)


def same(a, b):
    return len(a) == len(b) and all(
        x[:2] == y[:2] and abs(x[2] - y[2]) <= 0.0006
        and abs(x[3] - y[3]) <= 0.006 for x, y in zip(a, b))


def run(song, o, st, trace=None):
    """-> None or (what, trace, files)"""
    stub()
    SONGS.clear()
    SONGS["song"] = song
    ref = reference(song, o)
    if ref is None:
        st.count("skipped")
        return None
    events, (lo, hi) = ref
    out = core.compile_files({"main.aca": source(o)},
                             cfg=o.get("_cfg") or None)
    st.programs += 1
    if not out.ok:
        return "does not compile: %s" % (out.error or out.crash), (), {}
    prog = mc.Program(out.files)
    bad = cases.check_output(prog)
    if bad:
        return bad, (), out.files
    w0 = cases.base_world(prog)
    w0.scores["io"]["k"] = 1
    ann = w0.spawn("player", name="Ann", pos=(0.5, 64.0, 0.5), tags=("fan",))
    bob = w0.spawn("player", name="Bob", pos=(9.5, 70.0, -4.5))
    w0.spawn("pig", name="pig", tags=("fan",))
    if "listener" in o:
        prog.run(w0, "fans")
        who = [ann]
    else:
        who = [ann, bob]
    if "len" not in prog.files:
        return "no LENGTH", (), out.files
    prog.run(w0, "len")
    length = w0.scores["io"]["len"]
    if not lo <= length <= hi:
        return "LENGTH is %d, the last event is at %d" % (length, lo), (), \
            out.files
    by = {}
    for t, s, v, p in events:
        by.setdefault(t, []).append((s, p, v))
    loop = o.get("loop_interval", 50) if o.get("looping") else None
    tick = "_acacia/tick" if "_acacia/tick" in prog.files else None

    def step(w, t, op):
        w = w.copy()
        w.ncmds = 0
        want = []
        if op == "tick":
            if tick:
                prog.run(w, tick)
            if t is not None:
                want = sorted((e,) + x for e in who for x in by.get(t, ()))
                t += 1
                if t > length:
                    t = None if loop is None else -loop
        else:
            path, k = op.split(" ") if " " in op else (op, None)
            if k:
                w.scores["io"]["k"] = int(k)
            prog.run(w, path)
            t = {"stop": lambda: None, "play": lambda: 0,
                 "playat": lambda: int(k), "late": lambda: -2,
                 "playx": lambda: int(k) * 2 - 3,
                 "play2": lambda: 2}[path]()
            w.scores["io"]["k"] = 1
            if t is not None and t > length:
                t = None
        st.transitions += w.ncmds
        got = parse(w)
        del w.log[:]
        if isinstance(got, str):
            return w, t, "unexpected: " + got
        if not same(got, want):
            return w, t, "heard %r, expected %r (listener, sound, pitch, " \
                "volume)" % (got, want)
        return w, t, None
    ks = sorted({-3, 0, length // 2, length - 1, length})
    ops = ["tick", "stop", "play", "late", "playx 1"] + [
        "playat %d" % k for k in ks if k <= length]
    if length >= 2:
        ops.append("play2")
    if loop is None:    # a finished music stays finished
        ops.append("playat %d" % (length + 1))
        ops.append("playat %d" % (length + 7))
    if trace is not None:
        w, t = w0, None
        for op in trace:
            w, t, what = step(w, t, op)
            if what:
                return what, trace, out.files
        return None
    seen = {w0.key()}
    todo = [(w0, None, ())]
    while todo:
        nxt = []
        for w, t, path in todo:
            for op in ops:
                w2, t2, what = step(w, t, op)
                if what:
                    return what, path + (op,), out.files
                key = (w2.key(), t2)
                if key in seen or len(seen) > 400:
                    continue
                seen.add(key)
                st.states += 1
                nxt.append((w2, t2, path + (op,)))
        todo = nxt
    st.outcome(repr((sorted(by), length, loop)))
    st.sample({"source": source(o), "song": song})
    return None


def batch(chunk, st):
    for song, o in chunk:
        r = run(song, o, st)
        if r:
            what, path, files = r
            st.violations.append(core.Violation({
                "key": json.dumps([song, o, path]), "kind": "music",
                "what": what + " after " + ", ".join(path), "song": song,
                "opts": o, "trace": list(path), "source": source(o),
                "output": files}))


def deintkeys(o):
    return {k: {int(a): b for a, b in v.items()}
            if k in ("channel_volume", "instrument") else v
            for k, v in o.items()}


def replay(v):
    st = core.Stats()
    if "song" not in v:
        errors([v["err"]], st)
        r = st.violations[0]["what"] if st.violations else None
    else:
        r = run(v["song"], deintkeys(v["opts"]), st, v["trace"])
        r = r and r[0]
    print(r or "no violation")
    return 1 if r else 0


# ---------------------------------------------------------------------------
# Songs

def on(t, n=54, v=100, c=0):
    return {"type": "note_on", "time": t, "velocity": v, "channel": c,
            "note": n}


def off(t, c=0):
    return {"type": "note_off", "time": t, "velocity": 0, "channel": c,
            "note": 54}


def cc(t, value, c=0, control=7):
    return {"type": "control_change", "time": t, "channel": c,
            "control": control, "value": value}


def pc(t, p, c=0):
    return {"type": "program_change", "time": t, "channel": c, "program": p}


def tempo(t, v):
    return {"type": "set_tempo", "time": t, "tempo": v}


def meta(t):
    return {"type": "track_name", "time": t, "name": "x"}


def timing(chk):
    """times only: two tracks"""
    ds = (0, 1, 3)
    seqs = [s for n in range(4) for s in itertools.product(ds, repeat=n)]
    k = 0
    opts = [{}, {"speed": 0.5}, {"chunk_size": 1}, {"chunk_size": 2},
            {"speed": 2.5, "looping": True, "loop_interval": 2},
            {"looping": True, "loop_interval": 0, "chunk_size": 1},
            {"_cfg": {"optimizer": False}, "speed": 2.0, "chunk_size": 3},
            {"_cfg": {"debug_comments": True}, "chunk_size": 1}]
    for a, b in itertools.product(seqs, seqs):
        if not chk.thorough and len(a) + len(b) > 4:
            continue
        k += 1
        ta = [on(d, 40 + 3 * i) for i, d in enumerate(a)]
        tb = [on(d, 60 + 2 * i, c=1) for i, d in enumerate(b)]
        tpb = (2, 25, 1, 5)[k % 4]
        yield {"tpb": tpb, "tracks": [ta, tb]}, opts[k // 4 % len(opts)]
        if chk.thorough:
            yield ({"tpb": tpb, "tracks": [ta + [meta(2)], tb]},
                   opts[(k // 4 + 3) % len(opts)])


def tempos(chk):
    """tempo changes between, before and after notes of another track"""
    vs = (500000, 250000, 1000000)
    for a in itertools.product((0, 1, 2), vs, repeat=2):
        for b in itertools.product((0, 1, 2), repeat=3):
            if not chk.thorough and sum(b) + a[0] + a[2] != 4:
                continue
            t = [tempo(a[0], a[1]), on(0, 30), tempo(a[2], a[3]),
                 on(1, 33)]
            n = [on(d, 50 + 5 * i, c=2) for i, d in enumerate(b)]
            for tpb in (5, 25):
                yield {"tpb": tpb, "tracks": [t, n], "type": 1}, {}
                yield {"tpb": tpb, "tracks": [n, t], "type": 1}, \
                    {"speed": 0.5}


ALPHA = [
    on(0), on(1, 60, 64, 1), on(0, 66, 127, 9), on(1, 54, 0), off(1),
    cc(0, 50), cc(0, 0), cc(0, 127, 1), cc(0, 3, 0, 10), pc(0, 9), pc(1, 24),
    pc(0, 113, 9), pc(0, 127, 1), meta(1), tempo(0, 250000)]
OPTS = [
    {}, {"listener": 1}, {"note_offset": -12}, {"note_offset": 5},
    {"volume": 0.5}, {"volume": 2.5}, {"channel_volume": {0: 0.5, 1: 0.0}},
    {"channel_volume": {9: 0.25}, "volume": 0.5},
    {"instrument": {0: "x.y", 127: "z"}}, {"instrument": {9: "q"}},
    {"listener": 1, "looping": True, "loop_interval": 3, "chunk_size": 1,
     "instrument": {24: "w"}, "channel_volume": {}},
]


def states(chk):
    n = 4 if chk.thorough else 3
    k = 0
    for ln in range(1, n):
        for s in itertools.product(ALPHA, repeat=ln):
            if ln == 3 and not chk.thorough:
                continue
            k += 1
            song = list(s) + [on(1, 57), on(0, 57, 90, 1), on(0, 57, 80, 9)]
            yield {"tpb": 2, "tracks": [song], "type": 0}, \
                OPTS[k % len(OPTS)]
    for x in ALPHA:
        for o in OPTS:
            yield {"tpb": 2, "tracks": [[x, on(1), on(0, 59, 80, 9)],
                                        [on(0, 50, 70, 1), on(0, 47)]]}, o
    for p in range(128):    # every program
        yield {"tpb": 2, "tracks": [[pc(0, p), on(0)]]}, \
            {"instrument": {p ^ 1: "other"}}
    for ctl in range(128):  # every control, and none but the volume counts
        yield {"tpb": 2, "tracks": [[cc(0, 3, 0, ctl), on(0)]]}, {}
    for v in range(128):    # every velocity and volume
        yield {"tpb": 2, "tracks": [[on(0, 60, v), on(2, 61, 127 - v, 9)]]}, {}
        yield {"tpb": 2, "tracks": [[cc(0, v, 2), on(0, 60, 99, 2)]]}, {}
    for nt in range(0, 128, 1 if chk.thorough else 6):
        yield {"tpb": 2, "tracks": [[on(0, nt)]]}, {}
    for tracks in ([], [[]], [[], [on(1)]], [[meta(0)], [meta(3)]]):
        yield {"tpb": 2, "tracks": tracks}, {}
    for loop in (0, 1, 5, 50):
        yield {"tpb": 2, "tracks": [[on(0), on(2)]]}, \
            {"looping": True, "loop_interval": loop}
    yield {"tpb": 2, "tracks": [[on(0), on(2)]]}, {"looping": True}
    yield {"tpb": 2, "tracks": [[on(0), on(2)]]}, {"looping": False,
                                                   "loop_interval": 1}


def growing(chk):
    """One number grows: notes, tracks, notes at once, tempo changes, programs,
    ticks of a pause."""
    top = 40 if chk.thorough else 20
    prime = (1, 0, 2, 0, 0, 3, 1, 4, 0, 1)
    for n in range(1, top + 1):
        many = [on(prime[i % 10], 30 + i * 7 % 60, 20 + i * 5, i % 3)
                for i in range(n)]
        for o in ({}, {"chunk_size": 3}, {"chunk_size": 7, "speed": 1.5},
                  {"chunk_size": n},
                  {"looping": True, "loop_interval": n, "chunk_size": 4}):
            yield {"tpb": 5, "tracks": [many]}, o
        yield {"tpb": 5, "tracks": [
            [on(i % 3, 40 + i, c=i % 16), on(2, 40 + i, c=i % 16)]
            for i in range(n)]}, {"chunk_size": 5}
        yield {"tpb": 5, "tracks": [[on(0, 40 + i) for i in range(n)]]}, \
            {"chunk_size": 2}
        yield {"tpb": 25, "tracks": [sum((
            [tempo(prime[i % 10], 200000 + 100000 * (i % 7)), on(i % 4)]
            for i in range(n)), [])]}, {}
        yield {"tpb": 5, "tracks": [sum((
            [pc(0, i * 11 % 128, i % 4), cc(0, 127 - i * 5, i % 4),
             on(i % 2, c=i % 4)] for i in range(n)), [])]}, \
            {"instrument": {11: "x", 33: "y"}, "channel_volume": {2: 0.5}}
        yield {"tpb": 2, "tracks": [[on(0), on(n), off(n), on(0, 61)]]}, \
            {"looping": True, "loop_interval": 2}


# ---------------------------------------------------------------------------
# Refused

BAD = ['"none"', "5", '"song", speed=0.0', '"song", speed=-1.0',
       '"song", volume=0.0', '"song", volume=-0.5',
       '"song", channel_volume={0: -1.0}', '"song", channel_volume={16: 1.0}',
       '"song", channel_volume={-1: 1.0}', '"song", instrument={128: "x"}',
       '"song", instrument={-1: "x"}', '"song", instrument={1: 2}',
       '"song", chunk_size=0', '"song", chunk_size=-4', '"song", looping=1',
       '"song", loop_interval="x"', '"song", listener="Ann"',
       '"song", note_offset=1.5', '"two"', "", '"song", speed="x"',
       '"song", volumes=1.0']


def errors(chunk, st):
    stub()
    SONGS.clear()
    SONGS["song"] = {"tpb": 2, "tracks": [[on(0)]]}
    SONGS["two"] = {"tpb": 2, "tracks": [[on(0)]], "type": 2}
    for a in chunk:
        src = "import music\nconst m = music.Music(%s)\n" % a
        out = core.compile_files({"main.aca": src})
        st.programs += 1
        st.states += 1
        what = None
        if out.crash:
            what = "compiler crashed: " + out.crash
        elif out.ok:
            what = "accepted, but must be refused"
        elif out.loc != ("main.aca", (2, out.loc[1] and out.loc[1][1])):
            what = "error at %r: %s" % (out.loc, out.error)
        if what:
            st.violations.append(core.Violation({
                "key": "error " + a, "kind": "music", "what": what,
                "err": a, "source": src, "output": {}}))


def check(chk):
    chk.map(ME, "errors", BAD, 8)
    items = itertools.chain(timing(chk), tempos(chk), states(chk),
                            growing(chk))
    chk.map(ME, "batch", items, 12)
