"""Crash and fault points at the effects a process has on files and databases.

The n-th effect (file removed, renamed, created or opened for writing, directory
made or removed, SQL statement that writes, commit) is where the process dies or gets an error.
"""
from __future__ import annotations

import os
import sys
import threading

STATE = None   # the active Points
FILE_EVENTS = {"os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.link", "os.symlink", "os.truncate", "shutil.move", "shutil.copyfile", "shutil.rmtree"}
_installed = False


class Points:
    def __init__(self, root, at=None, action="exit", marker=None):
        self.root, self.at, self.action, self.marker = root, at, action, marker
        self.n = 0
        self.log = []
        self.lock = threading.Lock()
        self.busy = threading.local()

    def hit(self, what):
        if getattr(self.busy, "on", False):
            return
        with self.lock:
            n = self.n
            self.n += 1
            if len(self.log) < 5000:
                self.log.append(what)
        if self.at is not None and n == self.at:
            self.busy.on = True
            try:
                if self.marker:
                    with open(self.marker, "w") as f:
                        f.write(what)
                if self.action == "exit":
                    os._exit(9)
            finally:
                self.busy.on = False
            raise PermissionError(13, f"injected at {what}")


def _audit(event, args):
    s = STATE
    if s is None or getattr(s.busy, "on", False):
        return
    if event in FILE_EVENTS:
        p = str(args[0])
        if any(isinstance(a, (str, bytes, os.PathLike)) and os.fspath(a).startswith(s.root) for a in args if not isinstance(a, bytes)):
            s.hit(f"{event} {os.path.relpath(p, s.root)}")
    elif event == "open" and isinstance(args[0], str) and args[0].startswith(s.root):
        if isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR):
            s.hit(f"open {os.path.relpath(args[0], s.root)}")


def install(points):
    """Activate in this (child) process; cannot be undone."""
    global STATE, _installed
    if not _installed:
        sys.addaudithook(_audit)
        import sqlalchemy
        from sqlalchemy.engine import Engine

        def execute(conn, cursor, statement, parameters, context, executemany):
            w = statement.lstrip().split(None, 1)[0].upper()
            if STATE is not None and w in ("INSERT", "UPDATE", "DELETE", "CREATE", "DROP", "BEGIN", "COMMIT", "SAVEPOINT", "RELEASE"):
                STATE.hit("sql " + " ".join(statement.split())[:60])

        def commit(conn):
            if STATE is not None:
                STATE.hit("sql commit")
        sqlalchemy.event.listen(Engine, "before_cursor_execute", execute)
        sqlalchemy.event.listen(Engine, "commit", commit)
        _installed = True
    STATE = points
