"""The scanner flex generated, read back from its tables as a deterministic automaton over bytes."""
import re


class Odd(Exception):
    """the generated scanner has a shape the decoder does not know"""


def arrays(text):
    r = {}
    for m in re.finditer(r"static\s+const\s+[\w ]+?\b(yy_\w+)\s*\[\s*(\d+)\s*\]\s*=\s*\{([^}]*)\}", text):
        r[m.group(1)] = [int(x) for x in re.findall(r"-?\d+", m.group(3))]
    return r


class Scanner(object):
    """start/step/accept: accept gives the number of the rule, 0 for none; states are ints, None is the jam"""

    def __init__(self, text):
        a = arrays(text)
        for n in ("yy_accept", "yy_ec", "yy_base", "yy_def", "yy_nxt", "yy_chk"):
            if n not in a:
                raise Odd("no table %s" % n)
        if "yy_acclist" in a or re.search(r"^#define\s+REJECT\s+(?!reject_used)", text, re.M):
            raise Odd("REJECT or variable trailing context")
        self.a = a
        m = re.search(r"#define\s+YY_NUM_RULES\s+(\d+)", text)
        e = re.search(r"#define\s+YY_END_OF_BUFFER\s+(\d+)", text)
        self.nrules, self.eob = int(m.group(1)), int(e.group(1))
        m = re.search(r"if\s*\(\s*yy_current_state\s*>=\s*(\d+)\s*\)", text)
        self.meta = int(m.group(1)) if m else None
        m = re.search(r"yy_try_NUL_trans.*?YY_CHAR\s+yy_c\s*=\s*(\d+)\s*;", text, re.S)
        if not m:
            raise Odd("no NUL transition")
        self.nul = int(m.group(1))
        m = re.search(r"while\s*\(\s*yy_base\[yy_current_state\]\s*!=\s*(\d+)\s*\)", text)
        k = re.search(r"while\s*\(\s*yy_current_state\s*!=\s*(\d+)\s*\)", text)
        if m:
            b = int(m.group(1))
            self.jams = {i for i, x in enumerate(a["yy_base"]) if x == b}
        elif k:
            self.jams = {int(k.group(1))}
        else:
            raise Odd("no jam state")
        m = re.search(r"yy_is_jam\s*=\s*\(yy_current_state\s*==\s*(\d+)\)", text)
        self.jam = int(m.group(1)) if m else None
        if "YY_AT_BOL" in text and re.search(r"yy_current_state\s*\+=\s*YY_AT_BOL", text):
            raise Odd("rules bound to the beginning of a line")
        self.conditions = re.findall(r"#define\s+(\w+)\s+\d+\s*$", re.search(r"#define INITIAL 0(?:\s*#define \w+ \d+)*", text).group(0), re.M)
        self.eol = a.get("yy_rule_can_match_eol")
        self.memo = {}

    def start(self):
        return 1

    def raw(self, s, c):
        a = self.a
        while a["yy_chk"][a["yy_base"][s] + c] != s:
            s = a["yy_def"][s]
            if self.meta is not None and s >= self.meta:
                c = a["yy_meta"][c]
        return a["yy_nxt"][a["yy_base"][s] + c]

    def step(self, s, byte):
        if s is None or s in self.jams:
            return None
        k = (s, byte)
        if k not in self.memo:
            n = self.raw(s, a_ec(self, byte))
            self.memo[k] = None if n == self.jam else n
        return self.memo[k]

    def accept(self, s):
        return 0 if s is None else self.a["yy_accept"][s]


def a_ec(sc, byte):
    return sc.nul if byte == 0 else sc.a["yy_ec"][byte]
