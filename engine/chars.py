"""Texts whose characters are decided as the code reads them."""
from kit import TRUE, FALSE, NONE, some
from props.fc_report import get, put


def S(*k):
    return ("sym", k, ())


def white(c):
    return c.isspace() and c not in "\x1c\x1d\x1e\x1f"


TESTS = {"whitespace": white, "alphanumeric": str.isalnum, "alphabetic": str.isalpha, "digit": str.isdigit, "numeric": str.isnumeric,
         "hexdigit": lambda c: c in "0123456789abcdefABCDEF", "uppercase": str.isupper, "lowercase": str.islower, "punctuation": lambda c: 33 <= ord(c) < 127 and not c.isalnum()}


class Chars:
    """chars[i] are the characters the i-th may be; mon: 'text' those read, 'end' there are no more, 'at' how many were taken."""
    chars = ()

    def read(self, e, st, n):
        """The states in which it is known whether there is an n-th character; [(state, char | None)]."""
        text = get(st.mon, "text") or ""
        if n < len(text):
            return [(st, text[n])]
        if get(st.mon, "end"):
            return [(st, None)]
        outs = []
        for c in self.chars[n] if n < len(self.chars) else "":
            s = st.copy()
            s.mon = put(s.mon, text=text + c)
            outs.append((s, c))
        s = st.copy()
        s.mon = put(s.mon, end=True)
        return outs + [(s, None)]

    def char_call(self, e, st, c, nm, last, a):
        if last in ("next", "peek", "next_if", "next_if_eq") and a == S("chars"):
            n = get(st.mon, "at") or 0
            outs = []
            states = self.read(e, st, n)
            if last == "next_if":
                asked = []
                for s, ch in states:
                    if ch is None:
                        asked.append((s, ch))
                        continue
                    got = e.call_value(c.fr, c.blk, c.line, c.args[1], [("int", ord(ch))], s)
                    if got is None:
                        return None
                    for s2, v in got:
                        t = e.truth(s2, v)
                        if t is None:
                            return None
                        asked.append((s2, ch if t else None))
                states = asked
            for s, ch in states:
                if last == "next_if_eq" and ch is not None and e.deref_all(st, c.args[1]) != ("int", ord(ch)):
                    ch = None
                if last != "peek" and ch is not None:
                    s = s.copy()
                    s.mon = put(s.mon, at=n + 1)
                outs.append((s, NONE if ch is None else some(("int", ord(ch)))))
            return outs
        if a and last in ("copied", "cloned") and "Option" in nm:
            return [(st, a)]
        if a and a[0] == "int" and ("char" in nm or "u8" in nm):
            ch = chr(a[1])
            if last == "len_utf8":
                return [(st, ("int", len(ch.encode())))]
            f = TESTS.get(last.rsplit("_", 1)[-1])
            if f and last.startswith("is_"):
                return [(st, TRUE if f(ch) and ("ascii" not in last or ch.isascii()) and not (last == "is_ascii_whitespace" and ch == "\x0b") else FALSE)]
        return None
