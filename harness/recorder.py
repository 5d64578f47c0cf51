"""Runs actions on the real code and records the observations as events."""
import contextlib
import copy
import http.server
import itertools
import io
import logging
import os
import pickle
import signal
import tempfile
import threading

import util
import project

from acltk.aclObjects import (
    ACLConfig, ACLNode, ACLParserOptions, ACLRule, NATObject, Network, NetworkAny, NetworkAny4, NetworkAny6, NetworkHost, NetworkInterface, NetworkWildcard,
)
from acltk.cafObjects import cafBlock, cafOpExcept, cafOpIntersect, cafOpUnion
from acltk.pfsenseObjects import pfsenseConfig, pfsenseParserOptions
from acltk.fwsmObjects import fwsmConfig
from acltk.iosObjects import iosConfig

logging.disable(logging.CRITICAL)

MARKERS = frozenset(
    "NetworkGroup PortGroup ServiceGroup ProtocolGroup ICMPGroup NetworkObject ServiceObject TimeRange Names Interface NAT".split()
)


class Timeout(Exception):
    pass


def err(e):
    return f"{type(e).__name__}: {e}".replace("\r", " ").replace("\n", " ")[:160]


os.environ["no_proxy"] = "*"


class Tables(http.server.ThreadingHTTPServer):
    """serves URL tables to the code under test, and counts who asks; the paths of a load begin with its number"""

    daemon_threads = True

    def __init__(self):
        super().__init__(("127.0.0.1", 0), TablesHandler)
        self.files, self.asked = {}, {}
        self.number = itertools.count(1)
        self.closed = "http://127.0.0.1:1"  # nobody listens there
        threading.Thread(target=self.serve_forever, args=(0.01,), daemon=True).start()

    def place(self, text, files):
        """(the text with its URLs, the number of the load)"""
        k = next(self.number)
        for path, (status, body) in files.items():
            self.files[f"/{k}/{path}"] = (status, bytes.fromhex(body))
        self.asked[k] = 0
        return text.replace("@TABLES@", f"http://127.0.0.1:{self.server_address[1]}/{k}").replace("@CLOSED@", self.closed), k


class TablesHandler(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        s = self.server
        try:
            s.asked[int(self.path.split("/")[1])] += 1
        except (ValueError, KeyError, IndexError):
            pass
        status, body = s.files.get(self.path, (404, b""))
        self.send_response(status)
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)

    def log_message(self, *a):
        pass


class File(io.BytesIO):
    """a file object with a name"""

    name = "config.txt"


class Recorder:
    def __init__(self, scratch=None):
        self.slots = {}
        self.filters = {}
        self.scratch = scratch
        self.tables = None

    # -- loading
    def load(self, a):
        cls = {"auto": ACLConfig, "asa": fwsmConfig, "ios": iosConfig, "pfsense": pfsenseConfig}[a.get("cls", "auto")]
        options = {"common": ACLParserOptions(), "trace": ACLParserOptions(trace=True), "pf": pfsenseParserOptions()}.get(a.get("options"))
        if a.get("nofetch"):
            options = pfsenseParserOptions(fetch_urltable=False)
        text, via = a["text"], a.get("via", "string")
        if a.get("tables"):
            if self.tables is None:
                self.tables = Tables()
            text, a["load"] = self.tables.place(text, a["tables"])
        if via == "string":
            return cls.fromString(text, options=options)
        data = (b"\xef\xbb\xbf" if a.get("bom") else b"") + text.encode("utf-8")
        if via == "file":
            return cls.fromFile(File(data), options)
        with tempfile.NamedTemporaryFile(dir=self.scratch, suffix=".txt") as f:
            f.write(data)
            f.flush()
            return cls.fromPath(f.name, options)

    def do_load(self, a):
        self.slots.pop(a["s"], None)
        try:
            cfg = self.load(a)
            obs = project.config(cfg)
            self.slots[a["s"]] = cfg
        except Timeout:
            raise
        except Exception as e:
            obs = {"ok": False, "err": err(e)}
        return {"e": "load", "s": a["s"], "dia": a["dia"], "cmds": a["cmds"], "obs": obs, "asked": self.asked(a)}

    def asked(self, a):
        """the number of URL tables the load of the action asked for"""
        return self.tables.asked[a.pop("load")] if a.get("tables") and self.tables else 0

    def do_same(self, a):
        try:
            obs = project.config(self.load(a))
        except Timeout:
            raise
        except Exception as e:
            obs = {"ok": False, "err": err(e)}
        return {"e": "same", "dia": a["dia"], "cmds": a["cmds"], "obs": obs}

    # -- looking
    def do_look(self, a):
        e = {"e": "look", "s": a["s"], "obs": {}}
        if a["s"] in self.slots:
            e["obs"] = project.config(self.slots[a["s"]])
        return e

    def do_groups(self, a):
        e = {"e": "groups", "s": a["s"], "obs": {}}
        if a["s"] in self.slots:
            e["obs"] = project.groups(self.slots[a["s"]])
        return e

    # -- filters
    def caf(self, a):
        text, via = a["text"], a.get("via", "string")
        if a.get("reuse") and (text, via) in self.filters:
            return self.filters[text, via]
        if via == "string":
            f = cafBlock.fromString(text)
        else:
            data = (b"\xef\xbb\xbf" if a.get("bom") else b"") + text.encode("utf-8")
            if via == "file":
                f = cafBlock.fromFile(File(data))
            else:
                with tempfile.NamedTemporaryFile(dir=self.scratch, suffix=".caf") as t:
                    t.write(data)
                    t.flush()
                    f = cafBlock.fromPath(t.name)
        if a.get("stored"):
            f = pickle.loads(pickle.dumps(f)) if a["stored"] == "pickle" else copy.deepcopy(f)
        self.filters[text, via] = f
        return f

    def index(self, cfg):
        ri = {id(r): i for i, r in enumerate(cfg.rules.rules, 1)}
        ni = {id(n): f"{s}.{i}" for s in (1, 2, 3) for i, n in enumerate(cfg.nat[s], 1)}
        return ri, ni

    def selected(self, cfg, sel):
        ri, ni = self.index(cfg)
        r, n = [], []
        for x in sel:
            if id(x) in ri:
                r.append(ri[id(x)])
            elif id(x) in ni:
                n.append(ni[id(x)])
            else:
                raise ValueError(f"selected {type(x).__name__} is not of the configuration")
        return {"st": "ok", "r": sorted(r), "n": sorted(n)}

    def do_filter(self, a):
        e = {"e": "filter", "s": a["s"], "f": a["f"], "obs": {"st": "none", "r": [], "n": []}}
        try:
            f = self.caf(a)
        except Timeout:
            raise
        except Exception:
            e["obs"]["st"] = "parse"
            return e
        cfg = self.slots.get(a["s"])
        if cfg is None:
            return e
        try:
            e["obs"] = self.selected(cfg, cfg.filter(f))
        except Timeout:
            raise
        except Exception as x:
            e["obs"]["st"] = "run " + err(x)
        return e

    # -- criteria made by hand
    def hand(self, cfg, q):
        if q["k"] == "rule":
            return cfg.rules.rules[q["i"] - 1]
        return ACLRule(id="".join(chr(c) for c in q["id"]) or None, src=ACLNode(self.term(cfg, q["src"])), dst=ACLNode(self.term(cfg, q["dst"])))

    def term(self, cfg, j):
        t = j["t"]
        if t in ("any", "any4", "any6"):
            return {"any": NetworkAny, "any4": NetworkAny4, "any6": NetworkAny6}[t]()
        if t == "if":
            return NetworkInterface(j["n"])
        if t == "host":
            return NetworkHost(project.address(j["a"]))
        if t == "net":
            return Network(project.address(j["a"]), j["p"] if j["p"] >= 0 else project.address(j["m"]))
        if t == "wild":
            return NetworkWildcard(project.address(j["a"]), project.address(j["w"]))
        return (cfg.objects if t == "obj" else cfg.groups).network[j["n"]]

    def do_hand(self, a):
        e = {"e": "hand", "s": a["s"], "via": a["via"], "q": a["q"], "ops": a["ops"], "obs": {"st": "none", "r": [], "n": []}}
        cfg = self.slots.get(a["s"])
        if cfg is None:
            return e
        try:
            qs = [self.hand(cfg, q) for q in a["q"]]
            if a["via"] == "caf":
                f = cafBlock(qs[0])
                for o, q in zip(a["ops"], qs[1:]):
                    f = cafBlock({"union": cafOpUnion, "intersect": cafOpIntersect, "except": cafOpExcept}[o](f, q))
                sel = cfg.filter(f)
            else:
                sel = cfg.rules.filter(qs)
            e["obs"] = self.selected(cfg, sel)
        except Timeout:
            raise
        except (KeyError, IndexError) as x:
            e["obs"]["st"] = "unknown " + err(x)
        except Exception as x:
            e["obs"]["st"] = "run " + err(x)
        return e

    # -- copies
    def do_copy(self, a):
        e = {"e": "copy", "s": a["s"], "t": a["t"], "how": a["how"], "ok": True, "err": "", "obs": {}}
        cfg = self.slots.get(a["s"])
        if cfg is None:
            return e
        try:
            c = copy.deepcopy(cfg) if a["how"] == "deepcopy" else pickle.loads(pickle.dumps(cfg))
            e["obs"] = project.config(c)
            self.slots[a["t"]] = c
        except Timeout:
            raise
        except Exception as x:
            e["ok"], e["err"] = False, err(x)
        return e

    # -- groups
    def do_expand(self, a):
        e = {"e": "expand", "s": a["s"], "ok": True, "err": ""}
        if a["s"] in self.slots:
            try:
                self.slots[a["s"]].expand()
            except Timeout:
                raise
            except Exception as x:
                e["ok"], e["err"] = False, err(x)
        return e

    def do_gop(self, a):
        e = {"e": "gop", "s": a["s"], "op": a["op"], "ins": a["ins"], "k": a["k"], "n": a["n"], "ok": True, "err": "", "ret": []}
        if a["s"] in self.slots:
            try:
                kind, attr = project.KINDS[a["k"]]
                g = getattr(getattr(self.slots[a["s"]], kind), attr)[a["n"]]
                r = getattr(g, a["op"])(a["ins"])
                if (r is g) != a["ins"]:
                    raise ValueError("not in place" if a["ins"] else "not a copy")
                e["ret"] = [project.toks(o) for o in r.objects]
            except Timeout:
                raise
            except Exception as x:
                e["ok"], e["err"] = False, err(x)
        return e

    def do_resolve(self, a):
        e = {"e": "resolve", "s": a["s"], "r": a["r"], "n": a["n"], "ok": True, "err": "", "obs": [], "marks": []}
        cfg = self.slots.get(a["s"])
        if cfg is None:
            return e
        try:
            sel = {cfg.rules.rules[k - 1] for k in a["r"]} | {cfg.nat[s][k - 1] for s, k in a["n"]}
            ri, ni = self.index(cfg)
            for x in cfg.resolve(set(sel)):
                if x is None:
                    continue
                if isinstance(x, str) and x in MARKERS:
                    e["marks"].append(x)
                    continue
                if isinstance(x, ACLRule):
                    t = ["rule", str(ri.get(id(x), 0))]
                elif isinstance(x, NATObject):
                    t = ["nat", ni.get(id(x), "0")]
                else:
                    t = project.toks(x)
                    if t == ["binding"]:
                        continue
                e["obs"].append(t)
        except Timeout:
            raise
        except Exception as x:
            e["ok"], e["err"], e["obs"], e["marks"] = False, err(x), [], []
        return e

    # -- running
    def do(self, a):
        return getattr(self, "do_" + a["a"])(a)

    def par(self, acts):
        """the actions in threads; loads, filters and copies do not depend on each other"""
        out = [None] * len(acts)
        start = threading.Barrier(len(acts))

        def one(i, a):
            start.wait()
            out[i] = self.do(a)

        ts = [threading.Thread(target=one, args=(i, a), daemon=True) for i, a in enumerate(acts)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out

    def run(self, acts):
        try:
            return self.run_(acts)
        finally:
            if self.tables is not None:
                self.tables.shutdown()
                self.tables.server_close()
                self.tables = None

    def run_(self, acts):
        ev = [{"e": "begin"}]
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            for a in acts:
                if a["a"] == "par":
                    ev += self.par(a["acts"])
                else:
                    ev.append(self.do(a))
        return ev


def with_timeout(seconds, f, *args):
    def handler(sig, frame):
        raise Timeout()

    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f(*args)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
