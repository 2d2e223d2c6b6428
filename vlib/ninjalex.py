"""A reader of ninja manifests following the lexer and parser of ninja (evaluates $$, '$ ', $:, $newline; references kept as ${x})."""
import re


class Bad(Exception):
    pass


class Lexer:
    def __init__(self, text): self.t, self.i = text, 0

    def peek(self, s): return self.t.startswith(s, self.i)

    def eat_ws(self):
        while True:
            if self.peek(' '): self.i += 1
            elif self.peek('$\n'): self.i += 2
            elif self.peek('$\r\n'): self.i += 3
            else: return

    def eval_string(self, path):
        out = ''
        while True:
            if self.i >= len(self.t): raise Bad('unexpected end')
            c = self.t[self.i]
            if c in ' :|\n':
                if path or c == '\n':
                    if not path: self.i += 1
                    break
                out += c
                self.i += 1
            elif c == '\r':
                if self.peek('\r\n'):
                    if not path: self.i += 2
                    break
                raise Bad('carriage return')
            elif c == '\0': raise Bad('NUL')
            elif c == '$':
                n = self.t[self.i + 1:self.i + 2]
                if n and n in '$ :':
                    out += n
                    self.i += 2
                elif n == '\n' or self.peek('$\r\n'):
                    self.i += 2 if n == '\n' else 3
                    while self.peek(' '): self.i += 1
                else:
                    m = re.compile(r'\$(?:\{([a-zA-Z0-9_.-]+)\}|([a-zA-Z0-9_-]+))').match(self.t, self.i)
                    if not m: raise Bad('bad $-escape at %r' % self.t[self.i:self.i + 10])
                    out += '${%s}' % (m.group(1) or m.group(2))
                    self.i = m.end()
            else:
                out += c
                self.i += 1
        if path: self.eat_ws()
        return out

    def ident(self):
        m = re.compile(r'[a-zA-Z0-9_.-]+').match(self.t, self.i)
        if not m: raise Bad('expected a name at %r' % self.t[self.i:self.i + 20])
        self.i = m.end()
        self.eat_ws()
        return m.group()

    def expect(self, s):
        if not self.peek(s): raise Bad('expected %r at %r' % (s, self.t[self.i:self.i + 20]))
        self.i += len(s)
        if s != '\n': self.eat_ws()

    def indent(self):
        """at a line start: number of spaces when the line is indented and has content, else 0"""
        m = re.compile(r' *').match(self.t, self.i)
        n = m.end() - self.i
        if n and self.t[m.end():m.end() + 1] not in ('\n', ''):
            self.i = m.end()
            return n
        return 0


def parse(text):
    lx, out = Lexer(text), []
    while lx.i < len(text):
        m = re.compile(r'( *#[^\0\n]*)?\n').match(text, lx.i)
        if m:
            lx.i = m.end()
            continue
        if lx.peek(' '):
            n = re.compile(r' *').match(text, lx.i).end()
            if text[n:n + 1] in ('\n', ''):
                lx.i = n + 1
                continue
            raise Bad('unexpected indent')
        k = lx.ident()
        if k == 'build':
            outs = []
            while True:
                p = lx.eval_string(True)
                if not p: break
                outs.append(p)
            lx.expect(':')
            rule = lx.ident()
            parts = []
            for sep in ('', '|', '||'):
                ps = []
                if sep:
                    if sep == '|' and lx.peek('||') or not lx.peek(sep):
                        parts.append(ps)
                        continue
                    lx.i += len(sep)
                    lx.eat_ws()
                while True:
                    p = lx.eval_string(True)
                    if not p: break
                    ps.append(p)
                parts.append(ps)
            lx.expect('\n')
            out.append(('build', outs, rule) + tuple(parts) + (lets(lx),))
        elif k in ('rule', 'pool'):
            name = lx.ident()
            lx.expect('\n')
            out.append((k, name, lets(lx)))
        elif k == 'default':
            ps = []
            while True:
                p = lx.eval_string(True)
                if not p: break
                ps.append(p)
            lx.expect('\n')
            out.append((k, ps))
        elif k in ('include', 'subninja'):
            p = lx.eval_string(True)
            lx.expect('\n')
            out.append((k, p))
        else:
            lx.expect('=')
            out.append(('let', k, lx.eval_string(False)))
    return out


def lets(lx):
    out = []
    while lx.indent():
        if lx.peek('#'):
            lx.i = lx.t.index('\n', lx.i) + 1
            continue
        k = lx.ident()
        lx.expect('=')
        out.append((k, lx.eval_string(False)))
    return out
