"""L07: the shell script generated for a test runs its commands in order, stops at the first failure, and reports it."""
import itertools
from kit import *
from rules import rule, Anchor
from strs import text_call, parts_of
from props.lit_exec import FORMATS, get, put
from props.lit_fmt import Fmt, run_fmt, STOP


class Bad(Exception):
    """The generated text is not something the evaluator can show to be right: (key, message)."""


# ---- a small shell: lists, and-or, groups, subshells, if, simple commands; a test's own command is an opaque token
def lex(parts):
    toks, word, quote = [], None, None
    flat = []
    for p in parts:
        flat += list(p) if isinstance(p, str) else [p]
    i, n = 0, len(flat)

    def flush():
        nonlocal word
        if word is not None:
            toks.append(("w", tuple(word)))
            word = None
    while i < n:
        ch = flat[i]
        nx = flat[i + 1] if i + 1 < n else None
        if isinstance(ch, tuple):
            if ch[0] == "sym" and ch[1][0] == "cmd" and not ch[2]:
                if quote:
                    raise Bad(("quoted", "a test's command is pasted inside a quoted string"))
                if word is not None:
                    raise Bad(("glued", "a test's command is glued to other text"))
                prev = flat[i - 1] if i else "\n"
                j = i - 1
                while j >= 0 and flat[j] == " ":
                    j -= 1
                if j >= 0 and prev not in (" ", "\n"):
                    raise Bad(("glued", "a test's command is glued to the text before it"))
                if nx is not None and nx != "\n":
                    raise Bad(("glued-end", "a test's command is not followed by a line break, so a comment or trailing backslash in it swallows what follows"))
                toks.append(("cmd", ch[1][1]))
            else:
                word = (word or []) + [ch]
            i += 1
            continue
        if quote:
            if ch == quote:
                quote = None
            else:
                word.append(ch)
            i += 1
            continue
        if ch in "'\"":
            quote = ch
            word = word or []
        elif ch == "\\" and nx is not None:
            if nx != "\n":
                word = (word or []) + [nx]
            i += 1
        elif ch in " \t":
            flush()
        elif ch == "\n":
            flush()
            toks.append(("nl",))
        elif ch == "#" and word is None:
            while i < n and flat[i] != "\n":
                i += 1
            continue
        elif ch in ";&|":
            flush()
            if nx == ch:
                toks.append(("op", ch + ch))
                i += 1
            else:
                toks.append(("op", ch))
        elif ch in "()":
            flush()
            toks.append(("op", ch))
        elif ch in "<>":
            # a redirection: an optional digit word before it, its target after it
            if word is not None and all(x in "0123456789&" for x in word if isinstance(x, str)):
                word = None
            else:
                flush()
            op = ch
            while i + 1 < n and flat[i + 1] in (">", "<", "&"):
                i += 1
                op += flat[i]
            toks.append(("redir", op))
        elif ch == "&":
            flush()
            toks.append(("op", "&"))
        else:
            word = (word or []) + [ch]
        i += 1
    flush()
    if quote:
        raise Bad(("quotes", "the generated script has unbalanced quotes"))
    return toks


class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("eof",)

    def word(self):
        t = self.peek()
        return "".join(x if isinstance(x, str) else "\0" for x in t[1]) if t[0] == "w" else None

    def skip(self, *ks):
        while self.peek() in [("nl",)] + [("op", k) for k in ks]:
            self.i += 1

    def lst(self, stop=()):
        """list of complete commands: [(andor, line group)]"""
        out, grp = [], 0
        self.skip()
        while True:
            t = self.peek()
            if t[0] == "eof" or t == ("op", ")") or self.word() in stop:
                return out
            out.append((self.andor(), grp))
            t = self.peek()
            if t == ("op", ";"):
                self.i += 1
                if self.peek() == ("nl",):
                    grp += 1
                self.skip()
            elif t == ("nl",):
                grp += 1
                self.skip()
            elif t == ("op", "&"):
                raise Bad(("background", "the generated script runs a part of itself in the background"))
            elif t[0] == "eof" or t == ("op", ")"):
                return out
            else:
                raise Bad(("syntax", "the generated script is not well formed near %s" % (t,)))

    def andor(self):
        x = [(None, self.pipeline())]
        while self.peek() in (("op", "&&"), ("op", "||")):
            op = self.peek()[1]
            self.i += 1
            self.skip()
            x.append((op, self.pipeline()))
        return x

    def pipeline(self):
        neg = False
        while self.word() == "!":
            neg = not neg
            self.i += 1
        c = self.command()
        if self.peek() == ("op", "|"):
            raise Bad(("pipe", "the generated script pipes a command's output, which loses its exit status"))
        return (neg, c)

    def command(self):
        t, w = self.peek(), self.word()
        if t[0] == "cmd":
            self.i += 1
            r = ("cmd", t[1])
            if self.peek() != ("nl",) and self.peek()[0] != "eof":
                raise Bad(("glued-end", "a test's command is followed by %s on its own line" % (self.peek(),)))
            # an opaque command may be a list of its own: only a following line break ends it
            return r
        if w == "{":
            self.i += 1
            b = self.lst(stop=("}",))
            if self.word() != "}":
                raise Bad(("syntax", "the generated script leaves a group open"))
            self.i += 1
            self.redirs()
            return ("group", b)
        if t == ("op", "("):
            self.i += 1
            b = self.lst()
            if self.peek() != ("op", ")"):
                raise Bad(("syntax", "the generated script leaves a subshell open"))
            self.i += 1
            self.redirs()
            return ("sub", b)
        if w == "if":
            self.i += 1
            arms, els = [], None
            c = self.lst(stop=("then",))
            while True:
                self.i += 1
                b = self.lst(stop=("elif", "else", "fi"))
                arms.append((c, b))
                w = self.word()
                if w == "elif":
                    self.i += 1
                    c = self.lst(stop=("then",))
                    continue
                if w == "else":
                    self.i += 1
                    els = self.lst(stop=("fi",))
                self.i += 1
                return ("if", arms, els)
        words = []
        while True:
            if self.peek()[0] == "w":
                words.append(self.word())
                self.i += 1
            elif self.peek()[0] == "redir":
                self.redirs()
            else:
                break
        if not words:
            raise Bad(("syntax", "the generated script is not well formed near %s" % (t,)))
        return ("simple", words)

    def redirs(self):
        while self.peek()[0] == "redir":
            self.i += 1
            if self.peek()[0] == "w":
                self.i += 1


class Exit(Exception):
    def __init__(self, st):
        self.st = st


class Shell:
    """Evaluates a parsed script for one assignment of exit statuses to the test's commands."""

    def __init__(self, fails):
        self.fails, self.ran, self.errexit, self.pipefail, self.last, self.pf = fails, [], False, False, 0, {}

    def lst(self, b, cond=False):
        for x, _ in b:
            self.last = self.andor(x, cond)
        return self.last

    def andor(self, x, cond):
        st = None
        for j, (op, (neg, c)) in enumerate(x):
            if op == "&&" and st != 0 or op == "||" and st == 0:
                continue
            final = j == len(x) - 1
            st = self.command(c, cond or not final or neg)
            if neg:
                st = 0 if st else 1
            self.last = st
            if st and self.errexit and final and not cond and not neg:
                raise Exit(st)
        return st

    def command(self, c, cond):
        k = c[0]
        if k == "cmd":
            self.ran.append(c[1])
            self.pf[c[1]] = self.pipefail
            return 1 if c[1] in self.fails else 0
        if k == "group":
            return self.lst(c[1], cond)
        if k == "sub":
            s = (self.errexit, self.pipefail)
            try:
                return self.lst(c[1], cond)
            except Exit as x:
                return x.st
            finally:
                self.errexit, self.pipefail = s
        if k == "if":
            for cd, b in c[1]:
                if self.lst(cd, True) == 0:
                    return self.lst(b, cond)
            return self.lst(c[2], cond) if c[2] is not None else 0
        w = c[1]
        if w[0] == "set":
            i = 1
            while i < len(w):
                on = w[i][:1] == "-"
                if w[i][1:] == "o":
                    i += 1
                    if i < len(w) and w[i] == "pipefail":
                        self.pipefail = on
                    elif i < len(w) and w[i] == "errexit":
                        self.errexit = on
                else:
                    if "o" in w[i][1:] and i + 1 < len(w) and w[i + 1] == "pipefail":
                        self.pipefail = on
                    if "e" in w[i][1:]:
                        self.errexit = on
                i += 1
            return 0
        if w[0] in ("echo", "printf", ":", "true", "export", "unset", "umask"):
            return 0
        if w[0] == "false":
            return 1
        if w[0] == "exit":
            st = self.last if len(w) == 1 or w[1] == "$?" else int(w[1]) if w[1].isdigit() else None
            if st is not None:
                raise Exit(st)
        if re.fullmatch(r"[A-Za-z_]\w*=\$\?", w[0]) or re.fullmatch(r"[A-Za-z_]\w*=\w*", w[0]):
            return 0
        raise Bad(("unknown|" + w[0], "the generated script runs `%s`, whose effect on the verdict is unknown" % " ".join(w)))

    def run(self, b):
        try:
            return self.lst(b)
        except Exit as x:
            return x.st


def complete_commands(b, out):
    """line groups in which each test command lies, at the top level"""
    def cmds(x):
        if isinstance(x, tuple) and x and x[0] == "cmd":
            yield x[1]
        elif isinstance(x, (tuple, list)):
            for y in x:
                yield from cmds(y)
    for a, g in b:
        for k in cmds(a):
            out[k] = g
    return out


def lone(b, msgs):
    """A test's command (which may be a list itself) must be alone in its and-or list."""
    for x, _ in b:
        for j, (op, (neg, c)) in enumerate(x):
            if c[0] == "cmd" and (len(x) > 1 or neg):
                msgs.append(c[1])
            if c[0] in ("group", "sub"):
                lone(c[1], msgs)
            if c[0] == "if":
                for cd, bb in c[1]:
                    lone(cd, msgs)
                    lone(bb, msgs)
                if c[2] is not None:
                    lone(c[2], msgs)
    return msgs


class Gen(Fmt):
    lists = ()
    max_states = 120000

    def script_value(self):
        return ("sym", ("script",), ())

    def inline(self, eng, fn):
        # whatever handles the script or its commands may write part of the text
        if not fn.ext and any(re.search(r"TestScript\b|ScriptCommand\b|directives::Run\b|alloc::string::String", fn.locals[i][1]) for i in range(0, fn.argc + 1)) \
                and fn.name.startswith("litcheck_lit::formats"):
            return True
        return Fmt.inline(self, eng, fn)

    def before_call(self, e, st, c):
        nm = c.name
        if nm.endswith("TestScript::parse"):
            return [(st, ok(self.script_adt(e, st)))]
        if nm.endswith("TestScript::apply_substitutions"):
            return [(st, ok(UNIT))]
        if re.search(r"^shlex::(try_)?quote$", nm):
            v = ("sym", ("quoted", parts_of(e, st, c.args[0])), ())
            return [(st, ok(v) if "try" in nm else v)]
        if nm.endswith("ShellCommand::pipe_stdin") or re.search(r"ShellCommand::(arg|args|stdin)$", nm) and len(c.args) > 1:
            ps = parts_of(e, st, c.args[1])
            if any(isinstance(x, str) for x in ps):
                pf = self.flag(st, 1, self.pfi)
                if pf is None:
                    for (i, pth), f in st.facts.items():
                        if i == ("arg", 1) and self.pfi in pth:
                            pf = bool(f[1])
                self.texts.append((ps, pf, nm.endswith("pipe_stdin"), c.loc()))
                return []
        if nm.endswith("ShellCommand::wait_with_timeout"):
            return []
        r = text_call(e, st, c)
        if r is not None:
            return r
        return Fmt.before_call(self, e, st, c)

    def script_adt(self, e, st):
        r = self.r
        run_, cmd, sub = adt(r, "Run", "directives"), adt(r, "ScriptCommand"), adt(r, "Substitution", "directives")
        els, n = [], 0
        for k in self.layout:
            if k == "S":
                els.append(("adt", cmd, vidx(r, cmd, "Substitution"), (TOP,)))
                continue
            n += 1
            fs = [TOP] * len(r.p.adts[run_]["v"][0]["f"])
            fs[fidx(r, run_, "line")] = ("sym", ("line", n), ())
            fs[fidx(r, run_, "command")] = ("sym", ("cmd", n), ())
            els.append(("adt", cmd, vidx(r, cmd, "Run"), (("adt", run_, 0, tuple(fs)),)))
        sfs = [TOP] * len(r.p.adts[self.script]["v"][0]["f"])
        sfs[fidx(r, self.script, "commands")] = ("arr", tuple(els))
        for x in ("xfails", "requires", "unsupported"):
            sfs[fidx(r, self.script, x)] = ("arr", ())
        sfs[fidx(r, self.script, "allowed_retries")] = NONE
        return ("adt", self.script, 0, tuple(sfs))


@rule("L07")
def l07(r):
    sh = adt(r, "ShTest", "litcheck_lit")
    pfi = fidx(r, sh, "pipefail")
    for layout in ("R", "SR", "RR", "RSR", "RRR"):
        n = layout.count("R")
        texts = []
        fn, m, e, outs = run_fmt(r, *FORMATS[0], cls=Gen, layout=layout, texts=texts, pfi=pfi,
                                 stop=tuple(x for x in STOP if "write_script" not in x),
                                 watch=(r"ShellCommand::(pipe_stdin|wait_with_timeout)$",))
        r.need(texts, "the text handed to the shell for a script of %d commands" % n)
        seen = set()
        for ps, pf, stdin, loc in texts:
            if (ps, pf) in seen:
                continue
            seen.add((ps, pf))
            shown = "".join(x if isinstance(x, str) else "<%s>" % (x[1][0] if x[0] == "sym" else "?",) for x in ps)
            try:
                unknown = [x for x in ps if isinstance(x, tuple) and not (x[0] == "sym" and x[1][0] in ("cmd", "line", "quoted"))]
                if unknown:
                    raise Bad(("opaque", "a part of the generated script could not be determined"))
                prog = Parser(lex(ps)).lst()
            except Bad as x:
                r.ob("script", "%s" % layout, False, "script|" + x.args[0][0], "%s: %s (%r)" % (loc, x.args[0][1], shown))
                continue
            r.ob("script", "%s: %r" % (layout, shown[:300]), True)
            l = lone(prog, [])
            r.ob("isolated", layout, not l, "isolated", "%s: a test's command shares an and-or list with other commands, so a `;` or `||` in it changes what decides the verdict (%r)" % (loc, shown))
            groups = complete_commands(prog, {})
            if stdin:
                r.ob("one-command", layout, len(set(groups.values())) == 1, "one-command",
                     "%s: the script is read from standard input in several commands, so a test command that reads its input swallows the rest (%r)" % (loc, shown))
            for fails in itertools.product((False, True), repeat=n):
                bad = {i + 1 for i, f in enumerate(fails) if f}
                s = Shell(bad)
                try:
                    st = s.run(prog)
                except Bad as x:
                    r.ob("verdict", layout, False, "script|" + x.args[0][0], "%s: %s" % (loc, x.args[0][1]))
                    continue
                first = min(bad) if bad else n
                want = list(range(1, first + 1))
                desc = "%d commands, failing: %s" % (n, sorted(bad) or "none")
                r.ob("order", desc, s.ran == want, "order|" + ("skipped" if len(s.ran) < len(want) else "after-failure" if s.ran[:len(want)] == want else "order"),
                     "%s: with %s the generated script runs commands %s instead of %s (%r)" % (loc, desc, s.ran, want, shown))
                r.ob("verdict", desc, (st != 0) == bool(bad), "verdict|" + ("hides-failure" if bad else "fails-success"),
                     "%s: with %s the generated script exits with %d (%r)" % (loc, desc, st, shown))
                if pf is not None:
                    for i, on in s.pf.items():
                        r.ob("pipefail", "%s, pipefail=%s" % (desc, pf), on == pf, "pipefail|%s" % pf,
                             "%s: with pipefail %s the test's commands run %s it" % (loc, "on" if pf else "off", "with" if on else "without"))
            lines = [x[1][1] for x in ps if isinstance(x, tuple) and x[1][0] == "line"]
            cmds = [x[1][1] for x in ps if isinstance(x, tuple) and x[1][0] == "cmd"]
            r.ob("label", layout, not lines or lines == cmds, "label", "%s: the line announced for a command is another command's (%s for %s)" % (loc, lines, cmds))
        pfs = {t[1] for t in texts}
        r.ob("pipefail-option", layout, pfs == {True, False}, "pipefail|ignored", "%s: the pipefail option of the format does not influence the script" % fn.loc())
    r.floor("verdict", 20)
