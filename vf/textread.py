"""Readers of the text that simpy prints: repr(e) and latex(e) -> reference tuples of the oracle.

The readers know nothing about how the text was produced.  A symbolic integer stands in the text as a token ⟦k⟧, a run of
two or more digits of unknown value."""
import re
from fractions import Fraction

class Unreadable(Exception): pass

NUM = r"\d+(?:\.\d+)?(?:e[+-]?\d+)?"
FUNCS = {"sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan", "ln", "sqrt", "abs"}
INV = {"sin": "asin", "cos": "acos", "tan": "atan", "sec": "asec", "csc": "acsc", "cot": "acot"}

def number(s):
    if "." in s or "e" in s: return float(s)
    return Fraction(int(s))

class Reader:
    def __init__(self, text, token):
        self.text, self.token = text, token
        self.ts = self.lex(text)
        self.i = 0

    def peek(self, k=0): return self.ts[self.i + k] if self.i + k < len(self.ts) else ("end", "")
    def next(self):
        t = self.peek()
        self.i += 1
        return t
    def at(self, v): return self.peek()[0] == "op" and self.peek()[1] == v
    def eat(self, v):
        if not self.at(v): raise Unreadable("expected %s at %r" % (v, self.peek()))
        self.i += 1

    def read(self):
        r = self.sum()
        if self.peek()[0] != "end": raise Unreadable("left over: %r" % (self.ts[self.i:],))
        return r

    def sum(self):
        r = self.term()
        while self.at("+") or self.at("-"):
            op = self.next()[1]
            r = (op, r, self.term())
        return r

    def unary(self):
        if self.at("-"):
            self.i += 1
            return ("neg", self.unary())
        if self.at("+"):
            self.i += 1
            return self.unary()
        return self.power()

class ReprReader(Reader):
    def lex(self, s):
        out, i = [], 0
        rx = re.compile(r"\s+|(?P<tok>⟦\d+⟧)|(?P<num>" + NUM + r")|(?P<name>[A-Za-z_]\w*)|(?P<op>\*\*|[-+*/^()|\[\]=])")
        while i < len(s):
            m = rx.match(s, i)
            if not m: raise Unreadable("character %r" % s[i])
            i = m.end()
            if m.lastgroup: out.append((m.lastgroup, m.group()))
        for a, b in zip(out, out[1:]):
            if a[0] in ("tok", "num") and b[0] in ("tok", "num"): raise Unreadable("two numbers side by side")
        return out

    def term(self):
        r = self.unary()
        while self.at("*") or self.at("/"):
            op = self.next()[1]
            r = (op, r, self.unary())
        return r

    def power(self):
        b = self.atom()
        if self.at("^") or self.at("**"):
            self.i += 1
            return ("^", b, self.unary())
        return b

    def atom(self):
        k, t = self.next()
        if k == "tok": return self.token(t)
        if k == "num": return number(t)
        if k == "op" and t == "(":
            r = self.sum()
            self.eat(")")
            return r
        if k == "op" and t == "|":
            r = self.sum()
            self.eat("|")
            return ("abs", r)
        if k == "name":
            if self.at("[") and t == "log":
                self.i += 1
                if self.next() != ("name", "base"): raise Unreadable("log[")
                self.eat("=")
                b = self.sum()
                self.eat("]")
                return ("log", self.arg(), b)
            if self.peek()[0] == "tok" and t == "log":
                b = self.token(self.next()[1])
                return ("log", self.arg(), b)
            if self.at("-") and t == "log":           # log-2(x)
                self.i += 1
                k, t = self.next()
                if k not in ("tok", "num"): raise Unreadable("log-")
                return ("log", self.arg(), ("neg", self.token(t) if k == "tok" else number(t)))
            if self.at("("):
                if t in FUNCS:
                    a = self.arg()
                    if t == "sqrt": return ("^", a, Fraction(1, 2))
                    return ("log" if t == "ln" else t, a)
                m = re.fullmatch(r"log(\d+)", t)
                if m: return ("log", self.arg(), Fraction(int(m.group(1))))
                raise Unreadable("unknown function %s" % t)
            if t in FUNCS: raise Unreadable("%s without argument" % t)
            if t == "e": return ("e",)
            if t == "pi": return ("pi",)
            return ("sym", t)
        raise Unreadable("unexpected %r" % t)

    def arg(self):
        self.eat("(")
        r = self.sum()
        self.eat(")")
        return r

class LatexReader(Reader):
    def lex(self, s):
        out, i = [], 0
        rx = re.compile(r"(?P<sp>\s+)|(?P<text>\\text\{[A-Za-z]+\})|(?P<cmd>\\[A-Za-z]+)|(?P<tok>⟦\d+⟧)|(?P<dig>\d)|(?P<dot>\.)|(?P<let>[A-Za-z])|(?P<op>[-+*/^_{}()|])")
        while i < len(s):
            m = rx.match(s, i)
            if not m: raise Unreadable("character %r" % s[i])
            k = m.lastgroup
            if k != "sp": out.append((k, m.group()))
            elif out and i and out[-1][0] in ("dig", "tok") : out.append(("sp", " "))
            i = m.end()
        # spaces matter only between digits, where they do not separate numbers either
        out2 = []
        for j, t in enumerate(out):
            if t[0] == "sp": continue
            out2.append(t)
        depth, lr = [], 0
        for k, t in out2:
            if t == "{": depth.append(t)
            elif t == "}":
                if not depth or depth.pop() != "{": raise Unreadable("braces do not balance")
            elif t == "\\left": depth.append(t)
            elif t == "\\right":
                if not depth or depth.pop() != "\\left": raise Unreadable("\\left and \\right do not balance")
        if depth: raise Unreadable("braces or \\left and \\right do not balance")
        return out2

    OPEN = {"(", "|"}

    def texarg(self):
        """one TeX argument: a group or a single token"""
        k, t = self.peek()
        if k == "op" and t == "{": return self.braces()
        self.i += 1
        if k == "dig": return Fraction(int(t))
        if k == "let": return ("e",) if t == "e" else ("sym", t)
        if k == "cmd" and t == "\\pi": return ("pi",)
        raise Unreadable("%r cannot stand as an argument without braces" % t)

    def braces(self):
        self.eat("{")
        r = self.sum()
        self.eat("}")
        return r

    def starts_atom(self):
        k, t = self.peek()
        if k in ("let", "text"): return True
        if k == "cmd": return t not in ("\\cdot", "\\right")
        return k == "op" and t in ("(", "{")

    def term(self):
        r = self.unary()
        while True:
            if self.peek() == ("cmd", "\\cdot") or self.at("*"):
                self.i += 1
                r = ("*", r, self.unary())
            elif self.at("/"):
                self.i += 1
                r = ("/", r, self.unary())
            elif self.starts_atom():
                r = ("*", r, self.power())
            else:
                return r

    def power(self):
        frac = self.peek() == ("cmd", "\\frac")
        b = self.atom()
        if self.at("^"):
            if frac: raise Unreadable("a fraction raised to a power without brackets")
            self.i += 1
            x = self.texarg()
            if self.at("^"): raise Unreadable("double superscript")
            return ("^", b, x)
        return b

    def bracketed(self):
        """( ), | |, with or without \\left \\right"""
        left = self.peek() == ("cmd", "\\left")
        if left: self.i += 1
        o = self.next()
        if o not in (("op", "("), ("op", "|")): raise Unreadable("bracket expected, got %r" % (o,))
        r = self.sum()
        if left and self.next() != ("cmd", "\\right"): raise Unreadable("\\right expected")
        self.eat(")" if o[1] == "(" else "|")
        return ("abs", r) if o[1] == "|" else r

    def arg(self):
        k, t = self.peek()
        if (k, t) == ("cmd", "\\left") or (k == "op" and t in self.OPEN): return self.bracketed()
        return self.texarg()

    def func(self, name):
        if name == "log":
            b = Fraction(10)
            if self.at("_"):
                self.i += 1
                b = self.texarg()
            return ("log", self.arg(), b)
        if name == "ln": return ("log", self.arg())
        if self.at("^"):
            self.i += 1
            x = self.texarg()
            if self.neg_one(x):
                return (INV[name], self.arg())
            return ("^", (name, self.arg()), x)
        return (name, self.arg())

    @staticmethod
    def neg_one(x): return x == ("neg", Fraction(1))

    def atom(self):
        k, t = self.peek()
        if k == "tok":
            self.i += 1
            if self.peek()[0] in ("tok", "dig", "dot"): raise Unreadable("two numbers side by side")
            return self.token(t)
        if k in ("dig", "dot"):
            s = ""
            while self.peek()[0] in ("dig", "dot"): s += self.next()[1]
            if self.peek()[0] == "tok": raise Unreadable("two numbers side by side")
            if not re.fullmatch(NUM, s): raise Unreadable("number %r" % s)
            return number(s)
        if k == "let":
            # a name of several letters is typeset as one run of letters
            s = ""
            while self.peek()[0] == "let": s += self.next()[1]
            return ("e",) if s == "e" else ("sym", s)
        if k == "op" and t == "{": return self.braces()
        if k == "op" and t in self.OPEN or (k, t) == ("cmd", "\\left"): return self.bracketed()
        self.i += 1
        if k == "text":
            n = t[6:-1]
            if n not in FUNCS: raise Unreadable("unknown function %s" % n)
            return (n, self.arg())
        if k == "cmd":
            if t == "\\frac":
                a = self.texarg()
                return ("/", a, self.texarg())
            if t == "\\sqrt": return ("^", self.texarg(), Fraction(1, 2))
            if t == "\\pi": return ("pi",)
            if t[1:] in ("ln", "log") or t[1:] in INV: return self.func(t[1:])
        raise Unreadable("unexpected %r" % t)
