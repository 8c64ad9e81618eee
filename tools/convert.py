"""Turns cases that TLC generated from the specification into scripts for the driver."""
import json

WM = 1000000000
HEADER = {"enc": "id", "k": "1000000", "wm": WM, "lim32": WM}


def script(name, ops):
    return {"h": dict(HEADER, id=name), "ops": ops}


def unique(items):
    seen, out = set(), []
    for x in items:
        k = json.dumps(x, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def groups(name, histories, tail, per):
    out = []
    for i in range(0, len(histories), per):
        ops = []
        for h in histories[i:i + per]:
            ops += h + tail
        out.append(script("%s-%d" % (name, i), ops))
    return out


def probe(i):
    return [{"o": "edges", "i": i}, {"o": "nn", "i": i}, {"o": "ne", "i": i}]


def protocol(items, rnd, tier):
    tail = [{"o": "str", "i": 0}, {"o": "thw", "i": 0}, {"o": "add", "i": 0, "f": 1, "t": 2, "w": 7},
            {"o": "frz", "i": 0}, {"o": "edges", "i": 0}, {"o": "nn", "i": 0}]
    return groups("protocol", unique(items), tail, 40)


def append(items, rnd, tier):
    # normal form with everything added, then again after one more edge that changes the last one
    tail = [{"o": "thw", "i": 0}, {"o": "frz", "i": 0}] + probe(0) + [
        {"o": "thw", "i": 0}, {"o": "add", "i": 0, "f": 6, "t": 0, "w": 2}, {"o": "frz", "i": 0}] + probe(0)
    return groups("append", unique(items), tail, 40)


def files(items, rnd, tier):
    tail = [{"o": "cat", "file": "a"}, {"o": "tod", "i": 1, "file": "a"}, {"o": "cat", "file": "a"},
            {"o": "new", "i": 4}, {"o": "fromd", "i": 4, "file": "a"}, {"o": "edges", "i": 4}, {"o": "nn", "i": 4}]
    return groups("files", unique(items), tail, 40)


def calc(items, rnd, tier):
    return groups("calc", unique(items), [{"o": "all", "c": 0, "g": 0}], 40)


def prepared(items, rnd, tier):
    tail = [{"o": "dig", "g": 0}, {"o": "dig", "g": 1}, {"o": "fall", "g": 0}, {"o": "all", "c": 0, "g": 1},
            {"o": "ord", "g": 0}, {"o": "ord", "g": 1}, {"o": "cnt", "g": 0}, {"o": "cnt", "g": 1}]
    return groups("prepared", unique(items), tail, 40)


def orders(items, rnd, tier):
    items = unique(items)
    out = []
    for i in range(0, len(items), 60):
        n = max(k for k, o in enumerate(items[i]) if o["o"] == "build") + 1
        ops = list(items[i][:n])
        for j, h in enumerate(items[i:i + 60]):
            for o in h[n:]:
                # a slot of its own: it exists exactly if the ordering was accepted
                ops.append(dict(o, g=100 + j))
                ops.append({"o": "ord", "g": 100 + j, "need": 100 + j})
                ops.append({"o": "all", "c": -1, "g": 100 + j, "need": 100 + j})
        out.append(script("orders-%d" % i, ops))
    return out


def concurrent(items, rnd, tier):
    """histories of different threads at the same time, each with a calculator of its own"""
    items = unique(items)
    n = max(k for k, o in enumerate(items[0]) if o["o"] in ("build", "prep")) + 1
    rnd.shuffle(items)
    out = []
    for i in range(0, len(items) - 3, 4):
        threads = []
        for th, h in enumerate(items[i:i + 4]):
            ops = [{"o": "cal", "c": 10 + th, "g": th % 2}]
            for _ in range(3):
                ops += [dict(o, c=10 + th) for o in h[n:] if o["o"] != "cal"]
            # somebody prepares meanwhile
            if th == 3:
                ops.insert(2, {"o": "prep", "g": 50, "i": 0, "par": "default"})
                ops.append({"o": "dig", "g": 50})
            threads.append(ops)
        out.append(script("concurrent-%d" % i, items[i][:n] + [{"o": "par", "th": threads}]
                          + [{"o": "dig", "g": 0}, {"o": "all", "c": -1, "g": 0}, {"o": "all", "c": -1, "g": 1}]))
    return out


BADARC = ["a 1 2", "a 1 2 3 4", "a x 2 3", "a 1 y 3", "a 1 2 z", "a 1 2 -3", "a -1 2 3", "a 1 2 3.5",
          "a 1 2 99999999999999999999999", "a ", "a 1", "a 1 2 3 x", "a 18446744073709551616 1 1", "a 1,2,3"]
BADHDR = ["p sp 3", "p sp 3 2 1", "p sp x 2", "p sp -1 2", "p sp 3 -2", "p sp ", "p sp 2.0 1"]
JUNK = ["x", "ab 1 2 3", "p max 3 2", "b 1 2 3", "1 2 3", "e 1 2", "p", "#", "A 1 2 3", "P sp 2 1"]
CMT = ["c", "c comment", "c a 1 2 3", "c p sp 9 9"]


def readers(items, rnd, tier):
    items = unique(items)
    out = []
    texts = {"badarc": BADARC, "badhdr": BADHDR, "junk": JUNK, "cmt": CMT}
    for i in range(0, len(items), 40):
        ops = []
        for ls in items[i:i + 40]:
            ls = [dict(x, txt=rnd.choice(texts[x["k"]])) if x["k"] in texts else x for x in ls]
            nonl = bool(ls) and ls[-1]["k"] != "empty" and rnd.random() < 0.2
            ops += [{"o": "new", "i": 0}, {"o": "new", "i": 1}, {"o": "putf", "file": "a", "ls": ls, "nonl": nonl},
                    {"o": "fromd", "i": 0, "file": "a"}] + probe(0) + [{"o": "fromf", "i": 1, "file": "a"}] + probe(1)
        out.append(script("readers-%d" % i, ops))
    return out


QGRAPHS = {"a": [[0, 1, 2], [0, 2, 5], [1, 2, 2]], "b": [[0, 1, 1], [1, 0, 3], [1, 2, 1], [2, 0, 1]],
           "c": [[0, 2, WM - 1], [2, 1, 1], [1, 0, WM]]}


def queries(name):
    def conv(items, rnd, tier):
        items = unique(items)
        # weights below 2^63 add up without loss, the heavy graph uses the largest weights there are
        h = dict(HEADER)
        es = [list(e) for e in QGRAPHS[name]]
        if name == "c":
            h = {"enc": "max64", "k": str((2 ** 64 - 1) // 15), "wm": 15000000, "lim32": 500001}

        def w(x):
            return x if name != "c" else min(x, 15000000) if x < WM - 1 else 15000000 - (WM - x)
        es = [[f, t, w(x)] for f, t, x in es]
        out = []
        for i in range(0, len(items), 250):
            ops = [{"o": "build", "i": 0, "es": es}, {"o": "prep", "g": 0, "i": 0, "par": "default"},
                   {"o": "cal", "c": 0, "g": 0}, {"o": "cal", "c": 1, "n": 4}, {"o": "cal", "c": 2, "n": 2}]
            for j, x in enumerate(items[i:i + 250]):
                c = (0, -1, 0, 0, 1, -1, 0, 2)[(i + j) % 8]
                ops.append({"o": "mq", "c": c, "g": 0, "S": [[v, w(y)] for v, y in x["S"]],
                            "T": [[v, w(y)] for v, y in x["T"]]})
            out.append({"h": dict(h, id="queries-%s-%d" % (name, i)), "ops": ops})
        return out
    return conv


queries_a, queries_b, queries_c = queries("a"), queries("b"), queries("c")
