"""The blockchain, against the definition of a valid chain."""
import builtins
import hashlib
import json
import sys
import types


def shim():
    try:
        import requests
    except ImportError:
        m = types.ModuleType("requests")
        m.get = None
        sys.modules["requests"] = m
    try:
        import flask
    except ImportError:
        m = types.ModuleType("flask")

        class Flask:
            def __init__(self, *a, **k):
                pass

            def route(self, *a, **k):
                return lambda f: f
        m.Flask, m.jsonify, m.request = Flask, (lambda *a, **k: None), None
        sys.modules["flask"] = m


shim()
from run import load_path
B = load_path("pv_blockchain", "misc/blockchain.py")
B.print = lambda *a, **k: None


def digest(b):
    return hashlib.sha256(json.dumps(b, sort_keys=True).encode()).hexdigest()


def works(a, p, h):
    return hashlib.sha256(("%s%s%s" % (a, p, h)).encode()).hexdigest()[:4] == "0000"


def first(a, h):
    p = 0
    while not works(a, p, h):
        p += 1
    return p


def good(c):
    return all(c[i]["previous_hash"] == digest(c[i - 1]) and works(c[i - 1]["proof"], c[i]["proof"], digest(c[i - 1])) for i in range(1, len(c)))


class Answer:
    def __init__(self, status, body):
        self.status_code, self.body = status, body
        self.ok = status == 200

    def json(self):
        return json.loads(json.dumps(self.body))

    def raise_for_status(self):
        pass


def run(t):
    rng = t.rng

    def block(i, prev, p, h):
        txs = [{"sender": "a%d" % rng.randrange(9), "recipient": "b", "amount": rng.randrange(100)} for _ in range(rng.randrange(3))]
        return {"index": i, "timestamp": rng.random() * 1e9, "transactions": txs, "proof": p, "previous_hash": h}

    def grow(c):
        h = digest(c[-1])
        c.append(block(len(c) + 1, None, first(c[-1]["proof"], h), h))
        return c

    def verdict(c, label="valid_chain"):
        def f():
            keep = json.dumps(c)
            r, w = B.Blockchain().valid_chain(c), good(c)
            if json.dumps(c) != keep:
                return "the chain was changed"
            return bool(r) == w or "answers %r for a chain that is %svalid" % (r, "" if w else "not ")
        t.case(label, json.dumps(c), f)

    def books(txs, proofs):
        def f():
            o = B.Blockchain()
            if len(o.chain) != 1 or o.chain[0]["proof"] != 100 or o.chain[0]["previous_hash"] != "1" or o.chain[0]["index"] != 1 or o.current_transactions != []:
                return "the first block is %r" % (o.chain,)
            for n, (ts, p) in enumerate(zip(txs, proofs)):
                for x in ts:
                    r = o.new_transaction(*x)
                    if r != len(o.chain) + 1:
                        return "a transaction is announced for block %r of %d" % (r, len(o.chain))
                want = [{"sender": a, "recipient": b, "amount": m} for a, b, m in ts]
                if o.current_transactions != want:
                    return "pending transactions %r" % (o.current_transactions,)
                before = json.dumps(o.chain)
                h = None if n % 2 == 0 else "given%d" % n
                last = digest(o.chain[-1])
                r = o.new_block(p, h)
                if json.dumps(o.chain[:-1]) != before:
                    return "an earlier block changed"
                b = o.chain[-1]
                if b != r or b["index"] != n + 2 or b["transactions"] != want or b["proof"] != p or b["previous_hash"] != (h or last):
                    return "new block %r" % (b,)
                if o.current_transactions != []:
                    return "pending transactions stay after a block"
            return True
        t.case("books", (txs, proofs), f)

    def mine(b):
        def f():
            r, w = B.Blockchain().proof_of_work(b), first(b["proof"], digest(b))
            return r == w or "mines %r, the first proof is %r" % (r, w)
        t.case("proof_of_work", json.dumps(b), f)

    def hashes(b):
        def f():
            r = B.Blockchain.hash(b)
            c = dict(reversed(list(b.items())))
            return r == digest(b) == B.Blockchain.hash(c) or "hash %r" % (r,)
        t.case("hash", json.dumps(b), f)

    def consensus(mine_, answers):
        def f():
            o = B.Blockchain()
            o.chain = json.loads(json.dumps(mine_))
            table = {}
            for i, (s, c, n) in enumerate(answers):
                o.register_node("http://10.0.0.%d:5000" % i)
                table["http://10.0.0.%d:5000/chain" % i] = Answer(s, {"chain": c, "length": n})
            old = B.requests
            B.requests = types.SimpleNamespace(get=lambda u, *a, **k: table[u], exceptions=types.SimpleNamespace(RequestException=OSError))
            try:
                r = o.resolve_conflicts()
            finally:
                B.requests = old
            ok = [c for s, c, n in answers if s == 200 and len(c) > len(mine_) and good(c)]
            if bool(r) != bool(ok):
                return "answers %r with %d better chains" % (r, len(ok))
            if not ok:
                return o.chain == mine_ or "the chain changed to %r" % (o.chain,)
            best = max(map(len, ok))
            return any(o.chain == c for c in ok if len(c) == best) or "adopted a chain of length %d, the longest is %d" % (len(o.chain), best)
        t.case("resolve_conflicts", json.dumps([mine_, answers]), f)

    g = [{"index": 1, "timestamp": 0.0, "transactions": [], "proof": 100, "previous_hash": "1"}]
    verdict(g)
    main = list(g)
    for _ in range(4 if not t.thorough else 7):
        grow(main)
        verdict(list(main))
    mine(main[0])
    mine(main[-1])
    side = grow(list(main[:2]))
    side2 = grow(list(side))

    def broken(c, i, kind):
        c = json.loads(json.dumps(c))
        if kind == 0:
            c[i]["previous_hash"] = "0" * 64
        elif kind == 1:
            c[i]["proof"] += 1
        elif kind == 2:
            c[i]["transactions"].append({"sender": "x", "recipient": "y", "amount": 1})
        elif kind == 3:
            # relink everything after an edit, keeping the old proofs
            c[i]["timestamp"] += 1
            for j in range(i + 1, len(c)):
                c[j]["previous_hash"] = digest(c[j - 1])
        elif kind == 4:
            c[i]["timestamp"] += 1
        elif kind == 5:
            del c[i]
        return c
    for i in range(1, len(main)):
        for k in range(6):
            verdict(broken(main, i, k))
            verdict(broken(side, min(i, len(side) - 1), k))
    for i in range(3):
        for x in (g, main, side):
            hashes(x[min(i, len(x) - 1)])
    bad = broken(main, 1, 2)
    for c in (main[:1], main[:3], side, main):
        consensus(c, [])
        consensus(c, [(200, main, len(main))])
        consensus(c, [(500, main, len(main))])
        consensus(c, [(200, side, 99)])
        consensus(c, [(200, bad, len(bad)), (200, side, len(side))])
        consensus(c, [(200, main, 1), (200, side, 1), (200, side2, 1)])
    pool = [g, main, side, side2, main[:2], main[:3], main[:4], bad, broken(main, 2, 1), broken(main, len(main) - 1, 1), broken(side2, 3, 0), broken(main, 3, 3)]
    for _ in t.rounds(0.8, 60, 3000):
        a = [rng.choice(pool) for _ in range(rng.randrange(5))]
        consensus(rng.choice(pool[:7]), [(rng.choice([200, 200, 200, 404, 201]), c, rng.choice([len(c), len(c) + 5, 1])) for c in a])
        books([[("s%d" % rng.randrange(5), "r", rng.randrange(50)) for _ in range(rng.randrange(4))] for _ in range(4)], [rng.randrange(1000) for _ in range(4)])
        verdict(broken(rng.choice(pool[1:4]), 1 + rng.randrange(2), rng.randrange(6)))
