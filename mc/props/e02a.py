"""E02 under concurrency: exports racing with each other and with shutdown."""
import grpc
from mc import sched
from mc.explore import Harness, spawn
from mc.loader import M_time
from mc.props import _otlp as O
from mc.props._otlp import RESULT, Rpc, Server, make, payload, read
from mc.props.e02 import INFOS

G = grpc.StatusCode
R = {"grpc": Rpc(G.UNAVAILABLE), "http": 503}
P = {"grpc": Rpc(G.INTERNAL), "http": 400}
S = {"grpc": 0, "http": 200}
SLOW = {"grpc": Rpc(G.UNAVAILABLE, INFOS["100"][0]), "http": 503}


class H(Harness):
    fair_ticks = True

    def __init__(self, name, kind, script, exporters=1, shut=(0,), after=False, bound=2, slow=0, tbound=None):
        """script: letters; shut: delays in seconds before each shutdown call; slow: seconds a request takes"""
        self.name, self.kind, self.letters, self.exporters, self.shut, self.after, self.bound, self.slow = name, kind, script, exporters, shut, after, bound, slow
        self.thorough_bound = tbound or bound + 1

    def body(self):
        proto, sig = self.kind
        log = self.log = []

        def point(what):
            log.append(("send", sched.CLOCK.now))
            sched.RT.point((what,))
            if self.slow:
                M_time.sleep(self.slow)

        srv = self.srv = Server([{"R": R, "P": P, "S": S, "W": SLOW}[c][proto] for c in self.letters], point)
        x = make(self.kind, srv)
        self.wants = []
        self.res = []

        def export(i):
            data, want = payload(sig, i + 1)
            self.wants.append((i, want))
            log.append(("export", i))
            r = x.export(data)
            log.append(("exported", i))
            self.res.append((i, r))

        def shutdown(d):
            if d:
                M_time.sleep(d)
            t = sched.CLOCK.now
            log.append(("shut", t))
            x.shutdown()
            log.append(("down", sched.CLOCK.now - t))

        ts = [spawn(lambda i=i: export(i), f"x{i}") for i in range(self.exporters)]
        ts += [spawn(lambda d=d: shutdown(d), f"s{j}") for j, d in enumerate(self.shut[1:])]
        shutdown(self.shut[0])
        if self.after:
            export(self.exporters)
        for t in ts:
            t.join()
        return (sorted((i, str(r)) for i, r in self.res), len(srv.sent), [e[0] for e in log])

    def check(self, out):
        proto, sig = self.kind
        K = RESULT[sig]
        srv = self.srv
        if len(self.res) != self.exporters + self.after:
            return f"only {len(self.res)} exports returned"
        down = next((i for i, e in enumerate(self.log) if e[0] == "down"), None)
        late = [e for e in self.log[down:] if e[0] == "send"]
        gaveup = any(e[0] == "down" and e[1] >= 29 * 10**9 for e in self.log)
        running = sum(e[0] == "export" for e in self.log[:down]) - sum(e[0] == "exported" for e in self.log[:down])
        if len(late) > (running if proto == "http" else (1 if gaveup else 0)):
            return f"sent after shutdown: {len(late)} requests were sent after shutdown returned: {self.log}"
        if srv.bad and not gaveup:
            return f"broken: {srv.bad[0]} {self.log}"
        if any(e[0] == "down" and e[1] > 31 * 10**9 for e in self.log):
            return f"shutdown blocked: {self.log}"
        bodies = [read(sig, s["body"]) for s in srv.sent]
        if any(b not in [w for _, w in self.wants] for b in bodies):
            return f"payload: {bodies}"
        for i, want in self.wants:
            accepted = sum(b == want and self.letters[min(j, len(self.letters) - 1)] == "S" for j, b in enumerate(bodies))
            r = next(r for k, r in self.res if k == i)
            if accepted > 1:
                return f"duplicate: export {i} was accepted {accepted} times"
            if (r is K.SUCCESS) != (accepted == 1) or r not in (K.SUCCESS, K.FAILURE):
                return f"result: export {i} reported {r} although the server accepted it {accepted} times: {self.log}"
        if self.after and self.res[-1][1] is not K.FAILURE and self.exporters == 0:
            return "after shutdown: export succeeded"
        if not gaveup and proto == "grpc" and self.shut == (0,):
            # an export in progress when shutdown is called is not failed while its server would accept it
            k = next(i for i, e in enumerate(self.log) if e[0] == "shut")
            inflight = sum(e[0] == "send" for e in self.log[:k])
            if inflight and self.letters[:1] == "S" and not any(r is K.SUCCESS for _, r in self.res):
                return f"failed: an export whose request was accepted did not succeed: {self.log}"
        return None


def HARNESSES(tier):
    hs = []
    for kind in O.KINDS:
        n = "-".join(kind)
        hs.append(H(f"{n}-ok", kind, "S", bound=2))
        hs.append(H(f"{n}-retry", kind, "RRS", bound=2 if kind[0] == "grpc" else 1))
        hs.append(H(f"{n}-after", kind, "RS", after=True, bound=1))
    for kind in (("grpc", "span"), ("http", "span")) if tier == "quick" else O.KINDS:
        n = "-".join(kind)
        hs.append(H(f"{n}-two", kind, "SRS", exporters=2, bound=1))
        hs.append(H(f"{n}-two-shutdowns", kind, "RS", shut=(0, 0), bound=1))
        hs.append(H(f"{n}-give-up", kind, "RRRRRR", shut=(16,), bound=1))
        hs.append(H(f"{n}-long-wait", kind, "WS", shut=(1,), exporters=2, bound=1))
        hs.append(H(f"{n}-slow", kind, "RS", shut=(2,), slow=9, bound=1))
    return hs
