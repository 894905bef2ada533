"""Exact construction of strings: literals, pushes and format strings are kept as a sequence of parts."""
import re
from absint import UNIT
from models import ok, strip

NEW = re.compile(r"(string::String|OsString)::(new|with_capacity)$|<alloc::string::String as core::default::Default>::default$"
                 r"|vec::Vec(<u8.*>)?::(new|with_capacity)$")
SAME = re.compile(r"::(to_string|to_owned|into_bytes|as_bytes|as_str|into_string|into_boxed_str|into_vec|to_vec|from|into|deref|as_ref|borrow|clone|into_owned|as_slice|from_utf8_unchecked|unwrap)$")


def text(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    if sum(len(p) if isinstance(p, str) else 1 for p in out) > 8000:
        out = [("sym", ("unknown",), ())]
    return ("sym", ("text", tuple(out)), ())


def parts_of(e, st, v):
    """Parts of a string value; an unknown string is a part of its own."""
    v = e.norm(st, v)
    for _ in range(6):
        if v[0] == "at":
            v = v[1]
        elif v[0] == "sym" and v[2] and v[2][-1] == "*":
            v = ("sym", v[1], v[2][:-1])
        else:
            break
    if v[0] == "str":
        return (v[1],)
    if v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] == "text" and not v[2]:
        return v[1][1]
    w = strip(v)
    if w != v:
        return parts_of(e, st, w)
    return (v,)


def template(t, specs=False):
    """Decode a compiled format template into literals and argument indices, or (index, flags, width, precision,
    whether these two are indices of arguments) with specs."""
    b = t.encode("latin-1") if all(ord(x) < 256 for x in t) else t.encode()
    out, i, n = [], 0, 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            return out
        if x < 0x80:
            out.append(b[i:i + x].decode("utf-8", "replace"))
            i += x
        elif x == 0x80:
            k = b[i] | b[i + 1] << 8
            out.append(b[i + 2:i + 2 + k].decode("utf-8", "replace"))
            i += 2 + k
        else:
            f = w = q = 0
            if x & 1:
                f = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if x & 2:
                w = b[i] | b[i + 1] << 8
                i += 2
            if x & 4:
                q = b[i] | b[i + 1] << 8
                i += 2
            if x & 8:
                n = b[i] | b[i + 1] << 8
                i += 2
            out.append((n, f, w, q, bool(x & 16), bool(x & 32)) if specs and x != 0xC0 else n)
            n += 1
    return out


def text_call(e, st, c):
    """Outcomes of a call that builds a string, or None."""
    nm, last = c.name, c.name.rsplit("::", 1)[-1]
    if NEW.search(nm):
        return [(st, text(()))]
    if re.search(r"fmt::rt::Argument(<.*>)?::(new_|from_usize)", nm):
        return [(st, ("sym", ("fmtarg", last, parts_of(e, st, c.args[0]) if last == "new_display" else (e.norm(st, c.args[0]),)), ()))]
    if re.search(r"fmt::Arguments(<.*>)?::(new|from_str|new_const|from_str_nonconst)$", nm):
        if len(c.args) == 1:
            return [(st, ("sym", ("fmtargs", parts_of(e, st, c.args[0])), ()))]
        t, a = e.deref_all(st, c.args[0]), e.deref_all(st, c.args[1])
        if t[0] != "str" or a[0] not in ("arr", "tup"):
            return None
        out = []
        specs = getattr(e.mon, "fmt_specs", False)
        for x in template(t[1], specs):
            if isinstance(x, str):
                out.append(x)
                continue
            spec = None
            if isinstance(x, tuple):
                n = [e.deref_all(st, a[1][i]) if ind and i < len(a[1]) else ("int", i) for i, ind in ((x[2], x[4]), (x[3], x[5]))]
                n = [e.norm(st, y[1][2][0]) if y[0] == "sym" and isinstance(y[1], tuple) and y[1][0] == "fmtarg" else y for y in n]
                spec, x = (x[1],) + tuple(n), x[0]
            y = e.deref_all(st, a[1][x]) if x < len(a[1]) else None
            if specs and y is not None and y[0] == "sym" and isinstance(y[1], tuple) and y[1][0] == "fmtarg" and (spec or y[1][1] != "new_display"):
                out.append(("sym", ("spec", y[1][1]) + (spec or (0, ("int", 0), ("int", 0))) + tuple(y[1][2]), ()))
            elif y is not None and y[0] == "sym" and isinstance(y[1], tuple) and y[1][0] == "fmtarg":
                out += [str(z[1]) if isinstance(z, tuple) and z[0] == "int" else z for z in y[1][2]]
            else:
                out.append(("sym", ("unknown",), ()))
        return [(st, ("sym", ("fmtargs", text(out)[1][1]), ()))]
    if re.search(r"fmt::format(::format_inner)?$|fmt::format$", nm) and c.args:
        v = e.deref_all(st, c.args[0])
        if v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] == "fmtargs":
            return [(st, text(v[1][1]))]
        return None
    if last in ("push", "push_str", "write_str", "write_fmt", "write_char", "extend_from_slice", "add_assign", "write_all", "add") and len(c.args) == 2:
        v = e.deref_all(st, c.args[0])
        if v[0] == "str" and last == "add" or v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] == "text" and not v[2]:
            a = e.deref_all(st, c.args[1])
            if last in ("push", "write_char"):
                add = (chr(a[1]),) if a[0] == "int" else (a,)
            elif last == "write_fmt":
                add = a[1][1] if a[0] == "sym" and isinstance(a[1], tuple) and a[1][0] == "fmtargs" else (("sym", ("unknown",), ()),)
            else:
                add = parts_of(e, st, c.args[1])
            nv = text(parts_of(e, st, c.args[0]) + add)
            if last == "add":
                return [(st, nv)]
            s = st.copy()
            x = c.args[0]
            while e.get(s, (x[1], x[2]))[0] == "ref":
                x = e.get(s, (x[1], x[2]))
            e.set(s, (x[1], x[2]), nv)
            return [(s, ok(UNIT) if last.startswith("write") else UNIT)]
    if SAME.search(nm) and c.args:
        v = e.deref_all(st, c.args[0])
        if v[0] == "str" or v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] == "text" and not v[2]:
            if last in ("deref", "as_ref", "borrow", "as_str", "as_bytes", "as_slice") or last == "clone":
                return [(st, v)]
            return [(st, text(parts_of(e, st, v)))]
    return None
