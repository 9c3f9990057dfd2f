#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (run by hand when a property is edited)."""
import json, os
P = []
L = "libshpool/src/"
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

S, D, PR = L+"daemon/server.rs", L+"daemon/shell.rs", L+"protocol.rs"

p("C01", "Only the daemon's own user can make it do anything",
  "The daemon acts on a request only after the kernel's peer credentials for that connection were compared with the daemon's own user id and found equal. A connection from any other user, or one whose credentials cannot be read, causes no session to be created, attached, listed, resized, detached or killed and no variable or log level to be read or changed; the connection is closed.",
  ["inputs", "schedules"], "every connection, every request kind, every order of arrival",
  "Tests always connect as the daemon's own uid, so the refusing branch and every path around it is never executed.",
  [S], [("peer credential check before dispatch", S+" handle_conn / check_peer")],
  observe=["control socket"])
p("C02", "Unusable or escaping session names are refused with no side effect",
  "An attach request whose session name is empty, is '.' or '..', or contains '/', a NUL byte or any whitespace gets an error answer and nothing else: no shell, table entry, directory, file or link is created for it. The command line client refuses the same names before it sends an attach request.",
  ["inputs"], "every string a client can send as a session name, including from clients that skip the command line checks",
  "Tests try a few names through the well behaved client; the daemon side check guards against arbitrary clients and every later use of the name as a path component.",
  [S, L+"attach.rs"], [("server side validation", S+" handle_attach"), ("client side validation", L+"attach.rs attach_resolved")])
p("C03", "A live session is never taken over or replaced by another attach",
  "At most one client is attached to a session at a time: an attach to a session somebody is attached to is answered 'busy' without waiting and without changing the session, and attaches racing to create the same name end with one session. A table entry may only be replaced when the shell it describes has already exited.",
  ["schedules", "histories"], "every interleaving of concurrent attaches, creations, kills and exits on the same name",
  "Tests attach twice in a fixed order; the create/create race and the window between lookup and insert are never scheduled.",
  [S], [("non-blocking probe of the per-session lock", S+" select_shell_desc"), ("re-check under the table lock before insert", S+" select_shell_desc")],
  [("session table", "name -> session", S+" Server.shells"), ("attach lock", "held by the attached client's handler for as long as it is attached", D+" Session.inner")])
p("C04", "A session disappears only because of its own exit, kill or ttl",
  "The daemon drops a session from its table, or signals its shell, only because that very session's shell exited, its own time-to-live ran out, or a kill request named it. Cleanup or a timer that belongs to an earlier session never removes, kills or marks detached a later session that reuses the name.",
  ["histories", "schedules"], "every history of create / exit / kill / ttl / re-create with the same name",
  "Tests never reuse a name while the previous owner's cleanup or timer is still pending.",
  [S, L+"daemon/ttl_reaper.rs"], [("identity check before removal", S+" handle_attach"), ("identity of the scheduled session", L+"daemon/ttl_reaper.rs run")])
p("C05", "Every change of the session set is announced, in commit order",
  "Whenever an entry enters, leaves or is replaced in the session table, exactly the matching created/removed event is published, and an attach that succeeded publishes an attached event; nothing is announced for a change that did not happen. The announcement is made before the table lock is released, so subscribers see events in the order the changes took effect.",
  ["schedules", "histories"], "every handler, every interleaving of handlers, every early return",
  "The events tests run one history at a time; ordering between concurrent handlers and rarely taken paths are not sampled.",
  [S, L+"daemon/ttl_reaper.rs", L+"daemon/events.rs"], [("publish under the table lock next to each insert/remove", S), ("reaper removal", L+"daemon/ttl_reaper.rs run")])
p("C06", "A client that goes away is always recorded as gone",
  "Once a client has been recorded as attached to a session, every way its connection handling can end either removes the session or records the client as detached and announces it. No error, early return or refused takeover leaves a session reported with an attachment that no longer exists.",
  ["fault_sequences", "schedules"], "every error and early return between attaching and the end of the stream, including pager hangups and file system errors",
  "Tests detach cleanly; failures between attach and streaming are not injected.",
  [S], [("record/undo of the attachment", S+" handle_attach, select_shell_desc"), ("lifecycle", D+" SessionLifecycle")])
p("C07", "No one client or session can stall the whole daemon",
  "While the session table is locked the daemon performs no operation that can wait without bound for a client, a shell or another thread: no untimed channel operation, socket or terminal read or write without a timeout, thread join, sleep, process wait, or blocking acquisition of a session's attach lock. Waiting that is needed there is bounded by a constant timeout.",
  ["schedules", "fault_sequences"], "every client or shell that stops reading, writing or responding while any request is processed",
  "Needs a stuck client at a precise moment; tests use responsive clients.",
  [S, L+"daemon/ttl_reaper.rs", D], [("timeouts on channel operations with the lock held", S+" SESSION_MSG_TIMEOUT"), ("reply write timeout", S+" write_reply")])
p("C08", "The daemon's locks cannot deadlock",
  "All daemon threads take locks in one acyclic order, no thread takes a lock it already holds (including a second read of the configuration while a read guard is live), and no thread waits for an answer from another thread while holding a lock that thread needs to produce it.",
  ["schedules"], "every interleaving of the daemon's threads",
  "Deadlocks need particular interleavings (a config reload between two reads, two attaches crossing); tests do not schedule them.",
  ["libshpool/src"], [("lock acquisitions", S), ("session locks", D), ("config lock", L+"config.rs")])
p("C09", "Event subscribers never slow down or break the daemon or each other",
  "Publishing an event never blocks, whatever subscribers do, and the daemon holds at most a fixed number of undelivered events per subscriber. A subscriber that is slow, stuck, half closed or misbehaving is dropped on its own; the others keep receiving every event whole and in publication order.",
  ["schedules", "inputs", "fault_sequences"], "every subscriber behaviour and count, every publication rate",
  "Tests use a handful of well behaved or simply slow subscribers.",
  [L+"daemon/events.rs"], [("non-blocking hand-off to the sink thread", L+"daemon/events.rs EventBus::publish"), ("bounded per-subscriber queue and non-blocking writes", L+"daemon/events.rs Sink")])
p("C10", "The shell's exit status reaches the attached user's process",
  "However a session's shell ends, the daemon records its end exactly once it has been reaped, delivers the shell's own exit code (1 if it has none) to the attached client in an exit frame before closing the connection, and the attach command exits with exactly that code. No path lets a shell end without the recorders being woken.",
  ["schedules", "fault_sequences"], "every way a shell can end and every order in which the daemon's threads notice it",
  "Tests run a couple of exit codes with one thread ordering.",
  [S, D, PR, L+"attach.rs", L+"daemon/exit_notify.rs"],
  [("child watcher", S+" spawn_subshell"), ("exit frame", D+" spawn_shell_to_client/bidi_stream"), ("client exit", PR+" pipe_bytes, "+L+"attach.rs attach_resolved")])
p("C11", "Kill always ends the shell, politely first",
  "Killing a session sends the shell a hangup signal, gives it a bounded time to exit, and sends an unconditional kill only if it has not exited by then. A shell already known to be dead is never signalled, and 'no such process' counts as success.",
  ["schedules", "inputs"], "every shell behaviour on hangup, every race between exit and kill",
  "Tests kill ordinary shells; the escalation and the already-dead race depend on timing.",
  [D], [("escalation", D+" Session::kill")])
p("C12", "Client input is handed to the shell chunk by chunk, none skipped",
  "Every non-empty block of bytes read from an attached client is written to the session's terminal before the next block is read, except for bytes withheld as part of a configured key binding, and bytes withheld for a binding that turns out not to match are released. The only ways out of this relay are end of file, an I/O error, a stop request, or a detach binding.",
  ["inputs", "schedules"], "every byte stream and every way it is split into reads",
  "Tests send short inputs in one or two reads.",
  [D], [("client->shell relay", D+" spawn_client_to_shell")])
p("C13", "Shell output reaches both the screen model and the client, whole",
  "Once the prompt is ready, every block read from the shell's terminal is recorded in the session's output history and, if a client is attached, sent to it whole and flushed, before the next block is read; recording does not depend on a client being there. Output still pending when the shell hangs up is delivered before the session's relay ends.",
  ["inputs", "schedules"], "every output stream, attached or detached, including output written just before the shell exits",
  "Tests compare a few lines of output; losses need bursts at particular moments.",
  [D], [("shell->client relay", D+" spawn_shell_to_client")])
p("C14", "Reattaching restores the screen before anything new is shown",
  "When a client attaches to a running session the recorded history is resized to that client's terminal, the shell is made to redraw by a size change that ends at the client's real size, and the restore data (screen or lines plus the terminal's input modes, according to the configured mode) is sent in full before any later shell output.",
  ["schedules", "configurations", "inputs"], "every reattach at every moment, every restore mode, every terminal size",
  "Tests reattach to a few simple sessions with one size.",
  [D, L+"session_restore.rs"], [("reattach protocol", D+" spawn_shell_to_client"), ("restore engines", L+"session_restore.rs")])
p("C15", "Frames written by one side are always acceptable to the other",
  "Each frame kind has the same tag and the same layout on the writing and on the reading side, no side ever emits a data frame larger than the receiver's buffer, and the receiver refuses an unknown tag or an over-long length before reading the payload instead of overrunning or misparsing the stream.",
  ["inputs", "programs"], "every frame either side can emit and every byte string either side can receive",
  "Round-trip tests use small frames; size limits and unknown kinds are reached only by unusual data.",
  [PR, "shpool-protocol/src/lib.rs", D, L+"daemon/show_motd.rs", L+"daemon/pager.rs"],
  [("framing", PR+" ChunkExt"), ("tag table", "shpool-protocol/src/lib.rs ChunkKind"), ("emitters", D)])
p("C16", "Every request is answered with the reply its sender waits for",
  "For each request kind the daemon writes, on every path that is not a transport or internal failure, exactly one reply, and that reply has exactly the type that each client decoding an answer to this request kind expects. In particular requests naming unknown sessions are answered, with those names listed or a 'not found' reply.",
  ["inputs", "histories"], "every request kind, every target state",
  "The encoding is self describing, so a mismatched or missing reply only shows up on the paths a test happens to take.",
  [S, L+"attach.rs", L+"detach.rs", L+"kill.rs", L+"list.rs", L+"var.rs", L+"set_log_level.rs"],
  [("handlers", S), ("clients", PR+" Client::read_reply")])
p("C17", "One bad session does not spoil a request that covers several",
  "A request that concerns several sessions (detach, kill, variable broadcast) is carried out for each of them independently: a failure on one is logged and the rest are still processed and a reply is still sent.",
  ["fault_sequences", "histories"], "every subset of sessions being dead, stuck or unreachable when the request arrives",
  "Tests use healthy sessions only.",
  [S], [("per-session error handling", S+" handle_detach, handle_kill, handle_modify_var")])
p("C18", "Setting or unsetting a variable takes effect everywhere at once",
  "A successful variable change stores or deletes exactly that variable, sends the complete new variable set to every session in the table, and is acknowledged only after that; reading variables returns exactly the stored set. An attached client moves to another session only when its session name template evaluates to a different name under the new set.",
  ["histories", "inputs"], "every sequence of set/unset requests with any number of sessions",
  "Tests use one session and one variable.",
  [S, L+"attach.rs", PR], [("store and broadcast", S+" handle_modify_var"), ("switch decision", L+"attach.rs attach_resolved"), ("client handling", PR+" pipe_bytes")])
p("C19", "Layered configuration: every option merges, higher priority wins",
  "For every configuration option, the value from the higher priority file is used if it sets the option and the next lower priority file's value otherwise; no option is dropped, crossed with another option, or takes its value from the wrong layer.",
  ["configurations"], "every option and every combination of layers setting it",
  "Tests set two or three of the options.",
  [L+"config.rs"], [("merge", L+"config.rs Config::merge"), ("layer order", L+"config.rs Manager::load")])
p("C20", "A broken configuration edit never takes the daemon down",
  "When configuration files change the running daemon re-reads them; if a file cannot be parsed it keeps the last good configuration and keeps watching (a file that cannot be opened counts as absent). After any file event every affected path is put back under watch, so that later edits are still noticed.",
  ["fault_sequences", "histories"], "every sequence of edits, deletions, re-creations and parse errors",
  "Tests do a few single edits.",
  [L+"config.rs", L+"config_watcher.rs"], [("reload", L+"config.rs Manager"), ("rewatch", L+"config_watcher.rs ConfigWatcherInner")])
p("C21", "The user's terminal settings are restored however attach ends",
  "Once the attach command has changed the terminal's settings, every way it can stop (detach, shell exit, lost connection, error, panic, deliberate process exit, switching sessions) first puts the original settings back.",
  ["fault_sequences", "schedules"], "every exit path of the attach command",
  "Tests run without a real terminal, so the settings are never observed.",
  [PR, L+"tty.rs", L+"attach.rs"], [("guard", L+"tty.rs AttachFlagsGuard"), ("scope of the guard", PR+" pipe_bytes")])
p("C22", "No value a client can send panics the daemon",
  "No numeric or textual value carried by a request (sizes, time-to-live, names, commands, variables) can make a daemon thread panic by arithmetic overflow, out of range time, slicing, or unwrapping a parse failure, nor by a name an operating system interface refuses; a value the daemon cannot use gives an error answer or is clamped.",
  ["inputs"], "every encodable request",
  "Tests use ordinary sizes and durations.",
  [S, D, L+"daemon/pager.rs", L+"duration.rs", L+"session_restore.rs"], [("time-to-live arithmetic", S+" spawn_subshell"), ("terminal size arithmetic", D+" spawn_shell_to_client")])
p("C23", "A resize is acknowledged only after it took effect",
  "A resize request for a session reaches the component that currently owns the client's screen (the motd pager or the shell relay), which applies the new size to the terminal and to the recorded history, and the request is answered positively only after that component has acknowledged it. A resize for an unknown session is answered 'not found'.",
  ["schedules", "inputs"], "every resize at every moment of a session's life",
  "Tests resize an idle, attached session.",
  [S, D, L+"daemon/pager.rs"], [("dispatch", S+" dispath_session_message"), ("apply", D+" spawn_shell_to_client"), ("pager apply", L+"daemon/pager.rs")])
p("C24", "A session's shell starts from a clean, correct environment",
  "The shell is started with the daemon's own environment cleared and then only the session's variables: home, path, shell, user, session name and directory, configured extras (the system environment file, the configuration's variables and the user's runtime directory) and the variables the client forwarded. The client's own agent socket path and terminal type never override the stable agent link and the resolved terminal type, and the shell starts in the requested directory or the user's home.",
  ["inputs", "configurations"], "every client environment and configuration",
  "Tests check a few variables; leakage of any other variable is invisible to them.",
  [S], [("command construction", S+" spawn_subshell"), ("environment", S+" build_shell_env")])
p("C25", "A forked child never runs on as a second daemon",
  "After forking a process to run a shell or pager, the child does nothing but prepare its descriptors and terminal and then either becomes the requested program or exits with a failure status; on no path, error or not, does it return into daemon code. The program it becomes inherits no daemon descriptor beyond its own standard streams.",
  ["fault_sequences"], "every failure of every step between fork and exec",
  "Steps between fork and exec practically never fail in tests.",
  [S, L+"daemon/pager.rs", L+"daemonize.rs"], [("child branch", S+" spawn_subshell"), ("pager child branch", L+"daemon/pager.rs")])
p("C26", "Sockets and pid file are cleaned up on every orderly end",
  "A daemon that is told to stop by any termination signal while it is serving removes the control socket it created, the events socket and its pid file before it exits; none of these steps is skipped because another failed. Objects that stand for such a file remove it when they go away.",
  ["schedules", "fault_sequences"], "every termination signal at every moment, every failure of a cleanup step",
  "Only one signal and one configuration are tested.",
  [L+"daemon/signals.rs", L+"daemon/mod.rs", L+"daemon/events.rs", L+"daemonize.rs"],
  [("signal handler", L+"daemon/signals.rs"), ("list of files", L+"daemon/mod.rs run"), ("guards", L+"daemon/events.rs ListenerGuard, "+L+"daemonize.rs PidFileGuard")])
p("C27", "Old and new clients and daemons understand each other's messages",
  "Every message either side decodes tolerates missing and unknown fields: a field the peer did not send takes its default, a field it does not know is skipped, and messages are written with named fields. Adding a field therefore never breaks a peer of another version.",
  ["programs", "inputs"], "every message type and every subset of its fields",
  "Cross-version tests are impossible with one build; the few compatibility tests cover a handful of fields.",
  ["shpool-protocol/src/lib.rs", PR], [("field defaults", "shpool-protocol/src/lib.rs"), ("named encoding", PR+" encode_to")])
p("C28", "A protocol version mismatch is reported, never ignored or fatal",
  "The daemon announces its protocol version first on every connection; every client compares it with its own, and on a mismatch or an unreadable version it warns the user (or deliberately stays silent after the first dial) and can still continue.",
  ["programs", "inputs"], "every pair of versions and every malformed version header",
  "Tests fake one mismatching version.",
  [S, PR, L+"attach.rs", L+"list.rs", L+"kill.rs", L+"detach.rs", L+"var.rs", L+"set_log_level.rs"],
  [("announcement", S+" handle_conn"), ("comparison", PR+" Client::new"), ("handling", "each client module")])
p("C29", "Each lifecycle hook fires on its own transition and cannot break it",
  "An embedder's hook is called exactly on its transition: new session when one is being created and never for a takeover, reattach on a confirmed takeover, busy when an attach is answered busy, client disconnect when an attached client leaves a running session, shell disconnect when an attached client's shell ended. A hook that returns an error is logged and changes nothing else.",
  ["histories", "fault_sequences"], "every transition, every hook outcome",
  "The default hooks do nothing; the tests' hooks never fail.",
  [S, L+"hooks.rs"], [("call sites", S)])
p("C30", "Every key name stands for the byte its terminal sends",
  "In key binding notation each control chord denotes exactly the control code a terminal sends for it (Ctrl-a 1 through Ctrl-z 26, and the usual codes for the other control chords). Every documented chord is accepted and a plain key stands for its own byte.",
  ["inputs", "configurations"], "every key name the notation accepts",
  "Tests use three or four chords out of the whole table.",
  [L+"daemon/keybindings.rs"], [("chord table", L+"daemon/keybindings.rs CONTROL_CODES"), ("tokenizer/parser", L+"daemon/keybindings.rs")])
p("C31", "Starting a second daemon leaves a running one untouched",
  "A daemon that cannot obtain the control socket because another daemon is serving it exits with an error and has changed nothing the running daemon uses: not its control socket, not its events socket, not its pid file. The control socket's file is removed at start-up only after a connection attempt was refused, any other file only once the control socket is held.",
  ["schedules", "histories"], "every start of a daemon while another is running or starting",
  "Tests start one daemon per runtime directory.",
  [L+"daemon/mod.rs", L+"daemon/events.rs", L+"daemonize.rs"],
  [("start-up order", L+"daemon/mod.rs run"), ("pid lock", L+"daemonize.rs")])
p("C32", "Per-session runtime files are private to the user",
  "Before the daemon stores anything derived from a client's environment (forwarded variables, agent link) under the sessions directory, that directory is accessible by its owner only; a daemon that put itself in the background creates files and starts shells with the file creation mask it was started with.",
  ["inputs", "configurations"], "every attach, with or without an agent socket, every configuration, every umask",
  "Tests do not look at permissions, and always run with one umask.",
  [S, L+"daemonize.rs"], [("lock down", S+" link_ssh_auth_sock"), ("env file", S+" populate_session_env_file"), ("umask", L+"daemonize.rs daemonize")])
p("C33", "A motd pager never outlives its client and never blocks the session",
  "However the motd pager ends (normal exit, client hangup, I/O error, timeout) its process is ended and reaped, its control slot is cleared so that resizes reach the shell again, and its terminal is closed before the session goes on.",
  ["fault_sequences", "schedules"], "every way a pager can end",
  "Tests quit the pager normally or hang up once.",
  [L+"daemon/pager.rs", L+"daemon/show_motd.rs"], [("process guard and control slot guard", L+"daemon/pager.rs")])
p("C34", "Command line results tell the truth",
  "A detach, kill, variable or log-level command exits successfully only if the daemon answered and reported no session as missing or not attached; otherwise it names the offending sessions and exits unsuccessfully. Without explicit names the session the command runs in is used, and with none it fails without contacting anybody's session.",
  ["inputs", "histories"], "every reply the daemon can give",
  "Tests check the common replies only.",
  [L+"kill.rs", L+"detach.rs", L+"common.rs", L+"lib.rs", "shpool/src/main.rs"],
  [("reply inspection", L+"kill.rs, "+L+"detach.rs"), ("exit code", L+"lib.rs run")])
p("C35", "Listing never waits and reports what the table holds",
  "Listing sessions reports every session in the table exactly once with its own name, and reports it attached exactly when its attach lock is taken at that moment, without ever waiting for a session.",
  ["schedules", "histories"], "every table content and every concurrent attach, detach or exit",
  "Tests list a few idle sessions.",
  [S], [("handle_list", S)])
p("C36", "Requested log levels are applied exactly",
  "A request to change the daemon's log level sets exactly the requested level, for each level the protocol can carry, and the levels offered on the command line map one to one to the protocol's.",
  ["inputs"], "every log level",
  "Tests set one level.",
  [S, L+"set_log_level.rs", L+"lib.rs"], [("mapping", S+" handle_set_log_level")])
p("C37", "Forced attach detaches the current client, at most once, then retries",
  "With force, an attach that finds the session busy asks the daemon to detach exactly that session once and then retries a bounded number of times; without force it never disturbs the attached client. Background mode never leaves its own client attached.",
  ["schedules", "histories"], "every interleaving with the attached client's departure",
  "Tests force-attach against one idle client.",
  [L+"attach.rs"], [("retry loop", L+"attach.rs attach_resolved")])
p("C38", "Test hooks are inert in release builds",
  "In a build without the testing feature, none of the test hook points has any effect: no environment variable, file or thread can make them delay, signal, or change anything.",
  ["configurations"], "every environment of a release build",
  "The test suite only ever runs builds with the feature on.",
  [L+"test_hooks.rs"], [("no-op versions", L+"test_hooks.rs")])
p("C39", "A session with a time-to-live is reaped when that time has passed",
  "A ttl given to attach reaches the daemon as exactly the number of seconds it stands for: one that cannot be parsed or is too large to represent is refused, never ignored or wrapped around. Every new session created with a ttl is registered with that deadline, and the daemon kills it when, and not before, the deadline has passed (unless it is gone by then), however many other deadlines are pending.",
  ["inputs", "histories"], "every ttl text and every set of pending deadlines",
  "Tests use one or two sessions with short ttls.",
  [L+"duration.rs", L+"attach.rs", S, L+"daemon/ttl_reaper.rs"], [("parsing a ttl", L+"duration.rs"), ("reaper queue", L+"daemon/ttl_reaper.rs run")])
p("C40", "A client passes on every change of its terminal's size to the session it shows",
  "An attach request carries the size of the client's own terminal. While a client is attached (not in the background), every change of its terminal's size leads to one resize request with the size the terminal then has, addressed to the session the client is attached to at that time, also after it has moved to another session; a request that fails does not stop later ones.",
  ["histories", "fault_sequences"], "every sequence of size changes, moves between sessions and failing requests",
  "Tests resize once, in one session.",
  [L+"attach.rs", L+"tty.rs"], [("signal handler", L+"attach.rs SignalHandler"), ("size of the terminal", L+"tty.rs")])
p("C41", "A new session runs what it was created for",
  "The name, command, directory and start command given to attach each reach the daemon as their own part of the request, with variables filled in, and are left out only when they were not given; the directory asked for is the client's own only for '.', and the configured default only when none was given. The daemon runs the first word of the requested command with exactly the remaining words as arguments, and without a command it runs the configured shell, or the user's if none is configured, as a login shell. A start command is typed into exactly such a shell (if it can take one), never into a custom command.",
  ["inputs", "configurations"], "every combination of attach options, variables and configured shell and directory",
  "Tests use a handful of commands, directories and start commands, mostly with bash.",
  [L+"attach.rs", S, L+"daemon/shell_inject.rs"], [("attach request", L+"attach.rs dial_attach"), ("spawned program", S+" spawn_subshell"), ("start command", L+"daemon/shell_inject.rs maybe_setup")])
# ---- properties this technique does not decide
p("N01", "The byte arithmetic of key binding removal is exact",
  "For every configured set of bindings, every input stream and every way it is split into reads, the bytes that reach the shell are exactly the input minus the bytes of matched bindings, in order.",
  ["inputs"], "every byte stream, split and binding set",
  "Tests sample a few offsets.", [D, L+"daemon/keybindings.rs"], [("snip_buf and the binding trie", D)])
p("N02", "Restored screens look exactly like the screen that was left",
  "For every output history, the restore data makes a terminal of the client's size show the same screen, colours and cursor as the session had.",
  ["inputs"], "every output history and pair of sizes", "Tests compare a few screens.", [L+"session_restore.rs"], [("vt100 model", L+"session_restore.rs")])
p("N03", "Control operations finish within their time budget",
  "Attach, detach, resize, kill and list complete within a fixed latency under any load.",
  ["schedules"], "every load", "Timing is not sampled.", [S, D], [("timeouts", S)])
p("N04", "Template and duration evaluation give the documented values",
  "For every template and variable set, and every duration string, the computed text or duration equals the documented meaning.",
  ["inputs"], "every template, variable set and duration string", "Table tests only.", [L+"template.rs", L+"duration.rs"], [("template engine", L+"template.rs"), ("duration parser", L+"duration.rs")])
p("N05", "Control messages are matched with their own acknowledgement",
  "After any timeout of a control message, later control messages still receive their own acknowledgements and never a stale one.",
  ["schedules", "histories"], "every sequence of timeouts", "Needs timeouts at exact moments.", [D, S], [("rendezvous channels", D+" ShellToClientCtl")])
p("N06", "Environment file parsing agrees with the system's",
  "For every content of the system environment file the variables read equal those the login system would set.",
  ["inputs"], "every file content", "A table of examples only.", [L+"daemon/etc_environment.rs"], [("parser", L+"daemon/etc_environment.rs")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        assert d["statement"].count(". ") <= 2, (d["id"], d["statement"].count(". "))
        f.write(json.dumps(d) + "\n")
print(len(P))
