"""Scripts for the harness from the output of TLC on Store.tla (Emit)."""
import json, random, re, zlib

LINE = re.compile(r'^"(HEAD|SCRIPT|PROBE) (.*)"$')


def parse(text, seed=1):
    """-> (head, {prefix: [probes, changing operations]})"""
    head, by = None, {}
    every = 1 + len(text) // 80_000_000  # a part of them is enough then
    for line in text.splitlines():
        m = LINE.match(line)
        if not m or (every > 1 and m.group(1) != "HEAD" and (zlib.crc32(line.encode()) ^ seed) % every):
            continue
        js = m.group(2).replace('\\"', '"').replace("\\\\", "\\")
        if m.group(1) == "HEAD":
            head = js
            continue
        h = json.loads(js)
        k = json.dumps(h[:-1])
        by.setdefault(k, ([], []))[0 if m.group(1) == "PROBE" else 1].append(h[-1])
    return head, by


def write(text, path, limit, seed, ops=None):
    """Writes at most limit scripts, a random choice of all of them; with ops,
    only those operations are tried. Returns (written, all)."""
    head, by = parse(text, seed)
    if head is None or not by:
        return 0, 0
    res = []
    for k in sorted(by):
        probes, changes = ([x for x in sorted(xs, key=json.dumps) if (ops is None or x[0] in ops)] for xs in by[k])
        changes = [x for x in changes if x[0] not in ("die", "down", "up")]
        if not probes and not changes:
            continue
        res.append((k, probes + changes[:1]))
        res += [(k, [x]) for x in changes[1:]]
    n = len(res)
    if len(res) > limit:
        res = random.Random(seed).sample(res, limit)
    with open(path, "w") as fh:
        fh.write(head + "\n")
        for k, xs in res:
            fh.write('{"pre":%s,"ops":%s}\n' % (k, json.dumps(xs)))
    return len(res), n


if __name__ == "__main__":
    import sys
    print(write(open(sys.argv[1]).read(), sys.argv[2], int(sys.argv[3]), 1))
