"""C01: nothing is done for a request before the peer's uid was found equal to ours."""
from .common import *

EXPLAIN = ("Path-sensitive taint/typestate analysis of every connection handling path: after a ConnectHeader was decoded, no session "
           "table / variable / session lock, fork, signal, log level change, file system change, channel send, event or hook may be reached "
           "unless the path took the 'equal' branch of a comparison between the uid in this socket's SO_PEERCRED and the daemon's own uid.")
ASSUME = ["the kernel's SO_PEERCRED is truthful", "unwinding paths are not followed"]

FS = {"write", "create_dir_all", "create_dir", "remove_file", "remove_dir_all", "set_permissions", "rename", "symlink", "copy", "hard_link"}
VARS = "HashMap<std::string::String, std::string::String"


def protected(s, site=False):
    p = s.p
    if p.endswith("Fork::from_ptmx"):
        return "fork"
    if "tracing_subscriber::reload::Handle" in p and p.rsplit("::", 1)[-1] in ("modify", "reload"):
        return "log level"
    if p.startswith("std::fs::") and p.rsplit("::", 1)[-1] in FS or p in ("std::os::unix::fs::symlink",):
        return "file system"
    if p in ("nix::sys::signal::kill", "libc::kill", "nix::sys::signal::killpg"):
        return "signal"
    if p.startswith("crossbeam_channel::Sender") and p.rsplit("::", 1)[-1] in ("send", "send_timeout", "try_send", "send_deadline"):
        return "message"
    if "libshpool::hooks::Hooks" in s.q or "libshpool::hooks::Hooks" in p:
        return "hook"
    if p.startswith(BUS + "::") and publish_site(s) if site else is_publish(s):
        return "event"
    return None


def locksite(s):
    from ..models import LOCKS
    L = LOCKS.get(s.p)
    return L is not None and L[0] < len(s.ta) and lock_cls(s.ta[L[0]].s)


def lock_cls(c):
    if "shell::Session>" in c and "HashMap" in c:
        return "session table"
    if VARS in c:
        return "variables"
    if c.endswith("shell::SessionInner"):
        return "session"
    return None


def is_header(s):
    return s.p.startswith("libshpool::protocol::decode_from") and s.ta and s.ta[0].d == "shpool_protocol::ConnectHeader"


class R(SliceRule):
    name = "peer-uid"

    def start(self, root):
        return "none"

    def on_spawn(self, S, ev, clo):
        return S.st

    def relevant(self, s):
        return bool(protected(s, True)) or bool(locksite(s)) or is_header(s) or "PeerCredentials" in str(s.ta) or "UnixCredentials" in s.p

    def result_tags(self, S, ev):
        p = ev.p
        if "PeerCredentials" in str(ev.ta) or "peer_cred" in p:
            return ["cred"]
        if p.endswith("UnixCredentials::uid") and "cred" in self.E.deep_tags(S.env, ev.args[0]):
            return ["peeruid"]
        if p in ("nix::unistd::Uid::current", "nix::unistd::Uid::effective", "nix::unistd::getuid", "nix::unistd::geteuid", "libc::getuid", "libc::geteuid"):
            return ["myuid"]
        return None

    def on_result(self, S, ev, ret):
        if is_header(ev):
            self.headers.add(ev.body.p)
            if S.st == "none":
                S.st = "req"

    def on_branch(self, S, v, val):
        if val == 1 and v.k == "op" and v.a[0] == "Eq":
            a, b = v.a[1].tags, v.a[2].tags
            if ("peeruid" in a and "myuid" in b and "cred" not in b) or ("peeruid" in b and "myuid" in a and "cred" not in a):
                self.checks.add(S.frame.body.p)
                if S.st == "req":
                    S.st = "ok"

    def use(self, S, what, ev):
        if S.st == "req":
            self.E.report(S, "unchecked-peer", "%s:%s" % (what, self.ctx.G.owner(ev.body.p)),
                          "%s is reached for a request whose sender was not shown to be the daemon's own user on this path" % what)
        elif S.st == "ok":
            self.guarded.add((what, self.ctx.G.owner(ev.body.p)))

    def on_call(self, S, ev):
        w = protected(ev)
        if w:
            self.use(S, w, ev)
            if w in ("event", "hook"):
                return Act(opaque=True)
        return None

    def on_acquire(self, S, g, ev, trying):
        w = lock_cls(g.a[0])
        if w:
            self.use(S, w + " lock", ev)


def run(ctx):
    ctx.rule("after decode_from::<ConnectHeader>, every protected operation is dominated by the equal branch of peer uid == own uid")
    r = R(ctx)
    r.headers, r.checks, r.guarded = set(), set(), set()
    ctx.engine(r)
    for w, f in sorted(r.guarded):
        ctx.ok("peer-checked-before", "%s in %s" % (w, f))
    ctx.floor("connect header decoders", len(r.headers), 1)
    ctx.floor("uid comparisons", len(r.checks), 1)
    ctx.floor("guarded operations", len(r.guarded), 1)
