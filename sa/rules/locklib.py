"""What can wait, and for whom (C07, C08)."""
from .common import *
from ..models import LOCKS, TRYING

STREAMS = ("UnixStream", "fork::Master", "std::fs::File", "UnixListener", "TcpStream", "process::ChildStdout", "io::Stdin")
CRATES = ("std::", "core::", "alloc::")
# operations on a stream that return at once
NONIO = {"try_clone", "set_read_timeout", "set_write_timeout", "shutdown", "as_raw_fd", "as_fd", "set_nonblocking", "from", "into", "drop", "deref", "deref_mut",
         "clone", "fmt", "is_some", "is_none", "as_ref", "as_mut", "take", "raw_fd", "borrow", "borrow_mut", "by_ref", "get_ref", "get_mut", "peer_addr", "local_addr",
         "peer_cred", "take_error", "read_timeout", "write_timeout", "new", "map", "and_then", "unwrap", "expect", "ok", "err", "ok_or", "ok_or_else", "map_err",
         "unwrap_or", "unwrap_or_else", "replace", "insert", "get_or_insert", "branch", "from_residual", "context", "with_context", "as_deref", "as_deref_mut", "spawn",
         "is_parent", "with_struct_map", "with_bytes", "into_inner", "getsockopt", "metadata", "permissions", "set_permissions", "eq", "ne", "index", "next", "iter",
         "into_iter", "connect_timeout", "filter", "copied", "cloned", "or", "xor", "zip", "inspect", "is_some_and", "is_none_or", "map_or", "map_or_else"}
CHAN_UNBOUNDED = {"send", "recv", "iter", "into_iter", "try_iter"}


def blocking(s, site=False):
    """why the external call `s` can wait for something outside its thread without a bound of its own (or None)"""
    p = s.p
    last = p.rsplit("::", 1)[-1]
    n = len(s.t[2]) if site else len(s.ops)
    if p.startswith(("crossbeam_channel::", "<crossbeam_channel::")):
        if "Sender" in p and last == "send" or "Receiver" in p and last == "recv" or last == "next" and "Iter" in p or last in ("select", "ready") and ("internal" in p or "Select" in p):
            return "untimed channel operation"
        return None
    if p.startswith(("std::sync::mpsc::", "<std::sync::mpsc::")):
        if last == "recv" or last == "next" or last == "send" and "SyncSender" in p:
            return "untimed channel operation"
        return None
    if last == "join" and "JoinHandle" in p:
        return "thread join"
    if p in ("std::thread::sleep", "std::thread::sleep_until", "std::thread::park", "libc::sleep", "libc::usleep", "libc::nanosleep", "nix::unistd::sleep", "nix::unistd::pause"):
        return "sleep"
    if last in ("waitpid", "wait_for_exit", "waitid", "wait4") or p.startswith("std::process::Child::wait") or p.startswith("std::process::Command::") and last in ("output", "status"):
        return "process wait"
    if "Condvar" in p and last in ("wait", "wait_while"):
        return "untimed wait for a condition"
    if p.startswith("std::sync::Barrier::"):
        return "barrier"
    if p in ("nix::poll::poll", "libc::poll", "libc::select", "nix::sys::select::select", "nix::poll::ppoll"):
        return "poll"
    if p in ("nix::unistd::read", "nix::unistd::write", "libc::read", "libc::write", "std::os::unix::net::UnixListener::accept", "std::os::unix::net::UnixStream::connect"):
        return "untimed i/o"
    if last in NONIO:
        return None
    for i in range(n):
        t = s.argty(i)
        if any(x in t.s for x in STREAMS) and not t.s.startswith("std::option::Option<std::fs"):
            if "std::fs::File" in t.s and not any(x in t.s for x in STREAMS if x != "std::fs::File"):
                continue
            if t.k == "closure" or t.peel().k == "closure":
                continue
            return "stream i/o"
    return None


TIMED = {"send_timeout", "recv_timeout", "send_deadline", "recv_deadline", "wait_for", "wait_while_for", "wait_timeout", "wait_timeout_while", "select_timeout", "wait_until"}


def strip(v):
    while v.k in ("dc", "fld", "vf", "drf") and v.a and isinstance(v.a[0], V):
        v = v.a[0]
    return v


def lock_class(s):
    L = LOCKS[s.p]
    return re.sub(r"[A-Za-z_0-9]+::", "", s.ta[L[0]].s) if L[0] < len(s.ta) else "?"


def is_table_lock(s):
    L = LOCKS[s.p]
    return L[0] < len(s.ta) and "HashMap" in s.ta[L[0]].s and "shell::Session" in s.ta[L[0]].s


def cls(g):
    return re.sub(r"[A-Za-z_0-9]+::", "", g.a[0])
