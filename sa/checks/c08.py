from .common import *

RULE = ("Every arithmetic overflow check, index, division, slice and explicit panic reachable from Tag::read_from, "
        "read_from_path and write_to_path (write_to included) is an obligation that must follow, for every content of the "
        "stream or file, from the conditions on the path to it.")
ASSUME = ["the reader returns what std::io documents (a seek position or read length is consistent with the stream)"]


def entry(ctx, I, outs, path):
    check_panics(ctx, I, "running " + path)
    ctx.count("functions", len(I.fns_seen))
    if path == READ_ENTRY:
        for s in sorted(I.fns_seen):
            ctx.sample(s)


def run(ctx):
    run_entries(ctx, (WRITE_PATH, READ_PATH, READ_ENTRY), entry)
