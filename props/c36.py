"""C36: media and content-type attributes."""

import types

from .common import *

LABELS = ("tags", "audio", "video", "image", "both", "no tracks", "mime", "unreadable", "text duration", "spelled", "others")
BOUNDS = ("track lists of up to 3 (thorough 4) tracks of any type in any order, with every value missing or symbolic; content "
          "types of up to 4 symbolic characters; libmagic and pymediainfo are stand-ins that return these lists; ten spellings of the "
          "start directory")
ASSUME = ("libmagic (file-magic) and pymediainfo report what is in the file",)
BUDGET = {"quick": 200, "thorough": 3000}

_lib = {}
TAGS = {"artist": "performer", "album": "album", "title": "title", "genre": "genre", "date": "recorded_date"}


def warm():
    from . import common
    common.warm()
    media = types.ModuleType("pymediainfo")

    class Track:
        """Unknown attributes are None, as in the library."""

        def __init__(self, track_type, **values):
            self.track_type = track_type
            for k, v in values.items():
                setattr(self, k, v)

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return None

    class MediaInfo(core.Fake):
        @classmethod
        def parse(cls, path, **kw):
            if _lib.get("error"):
                raise _lib["error"]
            _lib["path"] = path
            self = cls()
            self.tracks = _lib["tracks"](path) if callable(_lib["tracks"]) else _lib["tracks"]
            for name in ("general", "audio", "video", "image"):
                setattr(self, name + "_tracks", [t for t in self.tracks if t.track_type == name.capitalize()])
            return self
    media.MediaInfo = MediaInfo
    media.Track = Track
    sys.modules["pymediainfo"] = media
    magic = types.ModuleType("magic")

    def detect(path):
        if _lib.get("error"):
            raise _lib["error"]
        return _lib["mime"](path) if callable(_lib["mime"]) else _lib["mime"]
    magic.detect_from_filename = detect
    sys.modules["magic"] = magic
    _lib["Track"] = Track


def cases(tier):
    kinds = ("General", "Audio", "Video", "Image", "Text")
    top = 4 if tier == "thorough" else 3

    def lists(n):
        if not n:
            yield ()
            return
        for rest in lists(n - 1):
            for k in kinds:
                if k == "General" and "General" in rest:
                    continue
                yield rest + (k,)
    for n in range(top + 1):
        for tracks in lists(n):
            yield ("tracks", tracks)
    yield ("text duration",)
    yield ("spelled",)
    yield ("others",)
    yield ("unreadable",)
    for t in (1, 2):
        for s in (0, 1, 2):
            yield ("mime", t, s)


def run(env, case):
    _lib.pop("error", None)
    globals()["run_" + case[0].replace(" ", "_")](env, *case[1:])


def read(name, plugin, *names):
    world = World(D({"w": D({name: F(b"x")})}))
    with active(world):
        ctx = context()
        e = entry(name, world.stat(name, False))
        return {n: attr(ctx, e, plugin + "." + n) for n in names}


ALL = ("duration", "artist", "album", "title", "genre", "date", "format", "width", "height")


def maybe_int(env, name, top):
    return env.int(name, 0, top) if env.flag(name + "?") else None


def run_tracks(env, kinds):
    tracks, first = [], {}
    for i, kind in enumerate(kinds):
        again = kind in first
        v = {}
        if kind == "General":
            env.reach("tags")
            tag = env.pick("tag", tuple(TAGS))
            value = env.pick("value", (None, "", "text"))
            if value == "text":
                value = env.text("value text", 2, "a\xe9/")
            v[TAGS[tag]] = value
            v["duration"] = 77000
            expected_tag = (tag, value)
        elif kind in ("Audio", "Video"):
            env.reach(kind.lower())
            v["duration"] = maybe_int(env, f"duration{i}", 20000) if not again else 5000
        if kind in ("Video", "Image"):
            env.reach(kind.lower())
            v["width"] = maybe_int(env, f"width{i}", 5000) if not again else 5
            v["height"] = maybe_int(env, f"height{i}", 5000) if not again else 5
        if kind == "Image":
            v["format"] = env.text(f"format{i}", 2, "aPN") if env.flag(f"format{i}?") else None
        if kind == "Text":
            v = {"duration": 1000, "width": 9, "height": 9, "format": "SRT"}
        tracks.append(_lib["Track"](kind, **v))
        first.setdefault(kind, tracks[-1])
    if not kinds:
        env.reach("no tracks")
    _lib["tracks"] = tracks
    got = read(env.pick("name", ("x.mp3", "x.mp4", "x.png")), "medium", *ALL)
    env.check(_lib["path"] is not None, "the library is not asked")
    # tags
    for tag in TAGS:
        want = expected_tag[1] if "General" in first and expected_tag[0] == tag else None
        if want is None or want == "":
            env.check(got[tag] is MISSING, "a tag that is not there")
        else:
            env.check(got[tag] is not MISSING and got[tag] == want, "wrong tag")
    audio, video, image = first.get("Audio"), first.get("Video"), first.get("Image")
    # duration
    ds = [t.duration for t in (video, audio) if t is not None and t.duration is not None]
    if len(ds) == 2:
        env.reach("both")
    if not ds:
        env.check(got["duration"] is MISSING, "a duration without a track that has one")
    else:
        env.check(got["duration"] is not MISSING, "no duration")
        r = False
        for d in ds:
            r = r | (got["duration"] == d // 1000)
        env.check(r, "wrong duration")
    # size: that of the video, or of the image if there is no video
    t = video if video is not None else image
    if video is not None and image is not None and (video.width is None or video.height is None):
        pass        # left open
    elif t is None or t.width is None or t.height is None:
        env.check(t is not None and (t.width is not None or t.height is not None) or
                  got["width"] is MISSING and got["height"] is MISSING, "a size that is not there")
    else:
        env.check(got["width"] is not MISSING and got["height"] is not MISSING, "no size")
        env.check((got["width"] == t.width) & (got["height"] == t.height), "wrong size")
    # format
    if image is None or image.format is None:
        env.check(got["format"] is MISSING, "an image format without an image")
    elif video is None:
        env.check(got["format"] is not MISSING, "no image format")
        env.check(got["format"] == image.format.lower(), "wrong image format")


def run_text_duration(env):
    env.reach("text duration")
    text, want = env.pick("duration", (("5000.000000", 5), ("999.9", 0), ("1999", 1), ("60000", 60)))
    _lib["tracks"] = [_lib["Track"](env.pick("kind", ("Audio", "Video")), duration=text)]
    env.check(read("x.mp3", "medium", "duration")["duration"] == want, "wrong duration")


def run_spelled(env):
    """However the start directory is written, it is the files below it that are analysed."""
    env.reach("spelled")
    value, other = env.int("value", 1, 5000), env.int("other", 1, 5000)
    world, root, top, make = spelled(env, lambda: {"k": D({"f.png": F(b"x")})}, lambda: {"k": D({"f.png": F(b"y")})})
    here = world.lookup(top.rstrip("/") + "/k/f.png")

    def tracks(path):
        v = value if world.lookup(path) is here else other
        return [_lib["Track"]("Image", width=v, height=v, format="PNG")]

    def mime(path):
        k = "a" if world.lookup(path) is here else "b"
        return types.SimpleNamespace(mime_type=k + "/" + k, encoding=k, name=k)
    _lib["tracks"], _lib["mime"] = tracks, mime
    with active(world):
        ctx = context()
        e = make("k/f.png")
        env.check(attr(ctx, e, "medium.width") == value, "the size of another image")
        env.check(attr(ctx, e, "mime.mime") == "a/a", "the type of another file")


def run_others(env):
    env.reach("others")
    names = ("f.mp3", "g.mp4", "h.png", "i.jpg")
    world, make = neighbours({n: F(b"x") for n in names}, {n: F(b"y") for n in names})
    kinds = {"one/f.mp3": [("General", {"performer": "a", "album": "b"}), ("Audio", {"duration": 5000.0, "format": "MP"})], "two/f.mp3": [],
             "one/g.mp4": [("Video", {"width": 1, "height": 2, "duration": 7000.0})], "two/g.mp4": [("Audio", {"duration": 9000.0})],
             "one/h.png": [("Image", {"width": 3, "height": 4, "format": "A"})], "two/h.png": [("Image", {"width": 5, "height": 6, "format": "B"})],
             "one/i.jpg": [("General", {"title": "c"}), ("Image", {"width": 5, "height": 6, "format": "C"})]}
    want = {"one/f.mp3": {"artist": "a", "album": "b", "title": MISSING, "duration": 5, "width": MISSING},
            "two/f.mp3": {"artist": MISSING, "album": MISSING, "duration": MISSING, "format": MISSING},
            "one/g.mp4": {"width": 1, "height": 2, "duration": 7, "artist": MISSING},
            "two/g.mp4": {"width": MISSING, "duration": 9}, "one/h.png": {"width": 3, "height": 4, "format": "a", "duration": MISSING},
            "two/h.png": {"width": 5, "format": "b", "title": MISSING},
            "one/i.jpg": {"title": "c", "format": "c", "artist": MISSING}}

    def where(path):
        here = world.lookup(path)
        return next(k for k in kinds if world.lookup("/w/" + k) is here)
    _lib["tracks"] = lambda path: [_lib["Track"](t, **v) for t, v in kinds[where(path)]]
    _lib["mime"] = lambda path: types.SimpleNamespace(mime_type=where(path), encoding=where(path)[:3], name=where(path)[4:])
    with active(world):
        visit(env, make, {k: {**{"medium." + a: v for a, v in want[k].items()}, "mime.mime": k, "mime.encoding": k[:3], "mime.subtype": k[4:]}
                          for k in want})


def run_unreadable(env):
    env.reach("unreadable")
    which = env.pick("which", ("medium", "mime"))
    _lib["error"] = env.pick("error", (OSError(errno.EACCES, "x"), FileNotFoundError(errno.ENOENT, "x"),
                                       RuntimeError("x") if which == "medium" else ValueError("x")))
    _lib["tracks"] = []
    for v in read("x.mp3", which, *(ALL if which == "medium" else ("mime", "type", "subtype", "encoding", "name"))).values():
        env.check(v is MISSING, "a value of an unreadable file")


def run_mime(env, t, s):
    env.reach("mime")
    left, right = env.text("type", t, "ab"), env.text("subtype", s, "a/-+;")
    enc, name = env.text("encoding", 1, "ub"), env.text("name", 2, "a /,")
    _lib["mime"] = types.SimpleNamespace(mime_type=left + "/" + right, encoding=enc, name=name)
    got = read("x", "mime", "mime", "type", "subtype", "encoding", "name")
    for k, want in (("mime", left + "/" + right), ("type", left), ("subtype", right), ("encoding", enc), ("name", name)):
        env.check(got[k] is not MISSING and got[k] == want, "wrong " + k)
