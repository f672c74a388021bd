"""W04: the notebook buttons are small state machines driven by clicks and by the outcome of the commands they run; every
history of clicks and outcomes is replayed on the real buttons. `pip` and `python` are stand-ins in a scratch directory."""
import html.parser
import importlib.util
import itertools
import os
import shutil
import sys
import tempfile

from ..engine import Out, Space
from .. import env

ASSUMPTIONS = ["pip and python are the commands of these names on the search path (stand-ins here: nothing is installed)",
               "packages that have a version; buttons created with their documented arguments"]

VERSIONS = {"alpha": "1.2.3", "beta": "0.9", "gamma": "10.0rc1", "delta": "2024.1"}
# (name for pip, name for import or None if it is the same)
PACKAGES = (("alpha", None), ("beta", None), ("gam-ma", "gamma"), ("Delta", "delta"))
OPTIONS = (None, "--user", "--no-deps --upgrade")
PIP = """#!/bin/sh
for a in "$@"; do printf '%s\\n' "$a" >> "$STANDIN/pip.log"; done
echo == >> "$STANDIN/pip.log"
exit $(cat "$STANDIN/pip.exit")
"""
PYTHON = """#!/bin/sh
exec "{exe}" "$@"
"""


class Cells(html.parser.HTMLParser):
    def __init__(self, text):
        super().__init__()
        self.rows, self.text = [], None
        self.feed(text)

    def handle_starttag(self, tag, attrs):
        if tag == "tr":
            self.rows.append([])
        self.text = None

    def handle_data(self, data):
        if data.strip() and self.rows:
            self.rows[-1].append(data.strip())


SHELL = None


def shell():
    """the notebook: records what is displayed and the cells that are run"""
    global SHELL
    if SHELL is None:
        os.environ["IPYTHONDIR"] = tempfile.mkdtemp(prefix="w04-ipython")
        from IPython.core.displaypub import CapturingDisplayPublisher
        from IPython.core.interactiveshell import InteractiveShell
        from traitlets.config import Config

        class Shell(InteractiveShell):
            def run_cell(self, cell, *args, **kwargs):
                ran.append(cell.strip())

            def run_line_magic(self, name, line="", *args, **kwargs):
                ran.append(("%%%s %s" % (name, line)).strip())

            def magic(self, line):
                ran.append("%" + line.strip().lstrip("%"))

        class Publisher(CapturingDisplayPublisher):
            def clear_output(self, wait=False):
                pass
        ran = []
        conf = Config()
        conf.HistoryManager.enabled = False
        SHELL = Shell.instance(config=conf)
        shutil.rmtree(os.environ.pop("IPYTHONDIR"), ignore_errors=True)
        SHELL.display_pub = Publisher()
        SHELL.ran = ran
    SHELL.display_pub.outputs.clear()
    SHELL.ran.clear()
    return SHELL


MODULE = None


def buttons():
    global MODULE
    if MODULE is None:
        spec = importlib.util.spec_from_file_location("notebook_widgets", os.path.join(env.REPO, "widgets.py"))
        MODULE = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(MODULE)
    return MODULE


class World:
    """a scratch directory with stand-ins for pip and python"""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="w04-")
        for name, text in (("pip", PIP), ("python", PYTHON.format(exe=sys.executable))):
            with open(os.path.join(self.dir, name), "w") as fh:
                fh.write(text)
            os.chmod(os.path.join(self.dir, name), 0o755)
        for name, v in VERSIONS.items():
            os.mkdir(os.path.join(self.dir, name))
            with open(os.path.join(self.dir, name, "__init__.py"), "w") as fh:
                fh.write("__version__ = %r\n" % v)
        self.keep = {k: os.environ.get(k) for k in ("PATH", "PYTHONPATH", "STANDIN")}
        os.environ["PATH"] = self.dir + os.pathsep + os.environ["PATH"]
        os.environ["PYTHONPATH"] = self.dir
        os.environ["STANDIN"] = self.dir
        return self

    def exit_code(self, code):
        with open(os.path.join(self.dir, "pip.exit"), "w") as fh:
            fh.write("%d\n" % code)
        if os.path.exists(os.path.join(self.dir, "pip.log")):
            os.remove(os.path.join(self.dir, "pip.log"))

    def calls(self):
        p = os.path.join(self.dir, "pip.log")
        if not os.path.exists(p):
            return []
        return [c.split() for c in open(p).read().split("==\n")[:-1]]

    def __exit__(self, *exc):
        for k, v in self.keep.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(self.dir)


def visit_pip(st):
    """two buttons side by side: the second one shows whether buttons share anything"""
    (packs, option), word = st
    out = Out()
    sh = shell()
    with World() as world:
        args = [PACKAGES[k][0] for k in packs if PACKAGES[k][1] is None]
        more = {PACKAGES[k][0]: PACKAGES[k][1] for k in packs if PACKAGES[k][1] is not None}
        kw = {} if option is None else dict(option=option)
        button = buttons().PipButton(*args, **kw, **more)
        other = buttons().PipButton("beta")
        rest = (other.description, other.button_style)
        want = {name: VERSIONS[mod or name] for name, mod in (PACKAGES[k] for k in packs)}
        if world.calls():
            out.fail("create", "pip runs before the button is clicked")
        for k, code in enumerate(word):
            world.exit_code(code)
            sh.display_pub.outputs.clear()
            tag = "click %d of %s, packages %s, option %r" % (k + 1, word, packs, option)
            button.click()
            calls = world.calls()
            flags = (option or "").split()
            if len(calls) != 1 or calls[0][:1] != ["install"]:
                out.fail("command", "%s: pip was run with %s" % (tag, calls))
                break
            names = [a for a in calls[0][1:] if not a.startswith("-")]
            if sorted(names) != sorted(want):
                out.fail("packages", "%s: pip installs %s" % (tag, names))
            if [a for a in calls[0][1:] if a in flags] != flags:
                out.fail("option", "%s: pip got %s" % (tag, calls[0]))
            shown = [c for o in sh.display_pub.outputs for c in Cells(o["data"].get("text/html", "")).rows]
            shown = [tuple(c[:2]) for c in shown if c and c[0] in {p for p, _ in PACKAGES}]
            if code == 0:
                if (button.description, button.button_style) != ("Installed", "success"):
                    out.fail("state", "%s: %r, %r after a successful installation" % (tag, button.description, button.button_style))
                if sorted(shown) != sorted(want.items()):
                    out.fail("versions", "%s: the table shows %s instead of %s" % (tag, shown, want))
            else:
                if (button.description, button.button_style) != ("Not Installed", "danger"):
                    out.fail("state", "%s: %r, %r after a failed installation" % (tag, button.description, button.button_style))
                if shown:
                    out.fail("versions", "%s: a failed installation shows versions %s" % (tag, shown))
            if (other.description, other.button_style) != rest:
                out.fail("other", "%s: another button changed" % tag)
        out.outcome = (button.description, tuple(sorted(want)), option)
    out.traces = len(word)
    out.states = len(word) + 1
    out.note = repr(st)
    if len(word) < DEPTH:
        out.succ = [(("click", code), ((packs, option), word + (code,))) for code in (0, 1, 2)]
    return out


def visit_mode(word):
    """a word over two display buttons: the button clicked at every step"""
    out = Out()
    sh = shell()
    both = []
    state = []
    for k in range(2):
        sh.ran.clear()
        both.append(buttons().MatplotlibButton(**({} if k == 0 else dict(tooltip="mode"))))
        state.append("inline")
        if sh.ran != ["%matplotlib inline"]:
            out.fail("start", "a new button runs %s" % sh.ran)
    for step, k in enumerate((None,) + word):
        tag = "step %d of %s" % (step, word)
        if k is not None:
            sh.ran.clear()
            both[k].click()
            state[k] = "qt" if state[k] == "inline" else "inline"
            if sh.ran != ["%matplotlib " + state[k]]:
                out.fail("mode", "%s: the notebook runs %s, the button should switch to %s" % (tag, sh.ran, state[k]))
        for b, m in zip(both, state):
            if (b.description, b.value, b.button_style) != ("%matplotlib " + m, "%matplotlib " + m, dict(inline="primary", qt="success")[m]):
                out.fail("label", "%s: a button shows %r, %r, %r in mode %s" % (tag, b.description, b.value, b.button_style, m))
    out.traces = 1 + len(word)
    out.states = 1 + len(word)
    out.outcome = tuple(state)
    out.note = repr(word)
    if len(word) < MODES:
        out.succ = [(("click", k), word + (k,)) for k in (0, 1)]
    return out


DEPTH, MODES = 2, 6


def spaces(tier):
    global DEPTH, MODES
    th = tier == "thorough"
    DEPTH, MODES = (4, 10) if th else (2, 6)
    packs = [p for n in (1, 2, 3, 4) for p in itertools.permutations(range(len(PACKAGES)), n) if th or n < 3 or list(p) == sorted(p)]
    return [Space("install", [((p, o), ()) for p in packs for o in OPTIONS], visit_pip,
                  "every choice of packages and options, all histories of %d clicks and outcomes" % DEPTH),
            Space("display", [()], visit_mode, "all words of %d clicks on two buttons" % MODES)]
