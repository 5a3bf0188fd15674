from .common import *
from .c13 import fmt_name

RULE = ("For every code 0..255 the conversion to the enumeration yields the value the format assigns to it, or an error carrying "
        "the code where it assigns none; for every enumeration value the code, channel count or frequency reported is the one "
        "the format assigns, and converting to the code and back yields the value again.")
MEDIA = {0: "Movie", 1: "Normal", 2: "AudioBook", 5: "WhackedBookmark", 6: "MusicVideo", 9: "ShortFilm", 10: "TvShow", 11: "Booklet"}
ADVIS = {0: "Inoffensive", 2: "Clean", 4: "Explicit"}
CHAN = {1: "Mono", 2: "Stereo", 3: "Three", 4: "Four", 5: "Five", 6: "FiveOne", 7: "SevenOne"}
COUNT = {"Mono": 1, "Stereo": 2, "Three": 3, "Four": 4, "Five": 5, "FiveOne": 6, "SevenOne": 8}
HZ = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350]
RATE = {i: "Hz%d" % h for i, h in enumerate(HZ)}


def from_code(ctx, path, table, fallible, default=None):
    fid = entry_of(ctx, path)
    if fid is None:
        return
    I, st0, args, info = fresh_call(ctx, fid, errs=True, nosum=True, inline=True)
    for c in range(256):
        st = st0.copy()
        st.add(c_eq(args[0].l - c))
        n = 0
        for s, v in I.run_fn(st, fid, list(args)):
            n += 1
            if fallible and is_err(v):
                k = err_kind(ctx.P, v)
                p = k[1][0] if k and k[1] else None
                ctx.ob(c not in table, "%s: code %d rejected" % (path, c), "the defined code %d (%s) is rejected" % (c, table.get(c)))
                ctx.ob(isinstance(p, Int) and eqv(I, s, p.l - c), "%s: error for undefined codes" % path, "the error for code %d carries %s" % (c, show(p)))
                continue
            x = v.fs[0] if fallible else v
            name = fmt_name(I, s, x)
            want = table.get(c, default)
            if name is None:
                ctx.undecided("%s: code %d yields %s" % (path, c, show(v, 100)))
                continue
            ctx.ob(name == want, "%s: code %d" % (path, c), "code %d is converted to %s instead of %s" % (c, name, want or "an error"))
        ctx.ob(n > 0, "%s: code %d has no outcome" % (path, c))
        ctx.count("codes")
    done(ctx, I, path)


def to_num(ctx, path, table, what, public=True):
    fid = entry_of(ctx, path) if public else internal(ctx, path)
    if fid is None:
        return
    for name, num in table.items():
        I, st, args, info = fresh_call(ctx, fid, nosum=True, inline=True)
        try:
            assume_variant(I, st, args[0], name)
        except KeyError:
            ctx.violation("value gone: " + name, "there is no value " + name)
            continue
        for s, v in I.run_fn(st, fid, args):
            ctx.ob(isinstance(v, Int) and eqv(I, s, v.l - num), "%s of %s" % (what, name), "the %s of %s is %s instead of %d" % (what, name, show(v), num))
        done(ctx, I, path)


def inv(t):
    return {v: k for k, v in t.items()}


def run(ctx):
    tf = "<types::%s as std::convert::TryFrom<u8>>::try_from"
    from_code(ctx, tf % "MediaType", MEDIA, True)
    from_code(ctx, tf % "ChannelConfig", CHAN, True)
    from_code(ctx, tf % "SampleRate", RATE, True)
    from_code(ctx, "<types::AdvisoryRating as std::convert::From<u8>>::from", ADVIS, False, "Explicit")
    to_num(ctx, "types::MediaType::code", inv(MEDIA), "code", public=False)
    to_num(ctx, "types::AdvisoryRating::code", inv(ADVIS), "code", public=False)
    to_num(ctx, "types::ChannelConfig::channel_count", COUNT, "channel count")
    to_num(ctx, "types::SampleRate::hz", {"Hz%d" % h: h for h in HZ}, "frequency")
