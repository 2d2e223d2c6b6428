"""Readers: the rules by which the target languages read text back (written from their documentation, not from /repo)."""
from pyvc.strtrans import Reader, WEND, Compose

HEX = '0123456789abcdefABCDEF'


class PosixShell(Reader):
    """One simple command's words (POSIX shell token recognition and quote removal).  dollar: '$' may stand inside double quotes
    and is left to the shell.  Everything the shell would expand, split or treat as an operator is rejected."""
    start = 'gap'
    special = '\0 \t\n"\'\\`$#&()*;<>?[~|{}!=^'

    def __init__(self, dollar=False): self.dollar = dollar

    def step(self, q, c):
        if c == '\0': return None
        if q == 'gap':
            if c in ' \t': return ('', 'gap')
            if c in '#~}': return None
            return self.step('w', c)
        if q == 'w':
            if c in ' \t': return ([WEND], 'gap')
            if c == '"': return ('', 'dq')
            if c == "'": return ('', 'sq')
            if c == '\\': return ('', 'bs')
            if c in '\n`$&()*;<>?[|{': return None
            return (c, 'w')
        if q == 'bs': return ('', 'w') if c == '\n' else (c, 'w')
        if q == 'sq': return ('', 'w') if c == "'" else (c, 'sq')
        if q == 'dq':
            if c == '"': return ('', 'w')
            if c == '\\': return ('', 'dqbs')
            if c == '`' or c == '$' and not self.dollar: return None
            return (c, 'dq')
        if q == 'dqbs':
            if c == '\n': return ('', 'dq')
            if c in '"\\`$': return (c, 'dq')
            return ('\\' + c, 'dq')

    def final(self, q):
        if q == 'gap': return []
        return [WEND] if q == 'w' else None


class NinjaValue(Reader):
    """the right hand side of a variable: $$ is a dollar, no other reference is expected"""
    start, special = '', '$\n\0 {}:_.-'

    def step(self, q, c):
        if c in '\n\0': return None
        if q == '':
            return ('', '$') if c == '$' else (c, '')
        return ('$', '') if c == '$' else (c, '') if c in ' :' else None

    def final(self, q): return '' if q == '' else None


class NinjaPath(Reader):
    """one path of a build statement: ends at an unescaped space, ':' or '|'.  refs: '$x' and '${x}' are passed through"""
    start, special = '', '$\n\0 :|{}\r'

    def __init__(self, refs=True): self.refs = refs

    def step(self, q, c):
        if c in '\n\0\r': return None
        if q == '':
            if c == '$': return ('', '$')
            if c in ' :|': return None
            return (c, '')
        if c in '$ :': return (c, '')
        return None

    def final(self, q): return '' if q == '' else None


class CMakeQuoted(Reader):
    """a CMake quoted argument, read up to its closing quote.  Escaped semicolons stay escaped (they are unescaped when the
    list is used); variable references are left alone"""
    start, special = 'open', '"\\;\n$@#()^ \0trn'

    def __init__(self, refs=True): self.refs = refs

    def step(self, q, c):
        if c == '\0': return None
        if q == 'open': return ('', 'in') if c == '"' else None
        if q == 'in':
            if c == '"': return ('', 'end')
            if c == '\\': return ('', 'bs')
            if c == ';': return None              # would separate two list items
            return (c, 'in')
        if q == 'bs':
            if c in 'trn': return ({'t': '\t', 'r': '\r', 'n': '\n'}[c], 'in')
            if c == '\n': return ('', 'in')
            if c in '"\\;()#$@^ ': return (c, 'in')
            return None
        return None

    def final(self, q): return '' if q == 'end' else None


class XcodeString(Reader):
    """old style property list string: bare word or quoted with C escapes and \\Uxxxx"""
    start = ''
    special = ''.join(map(chr, range(32))) + '"\\_$./abfnrtvU' + HEX + "'(){},;=<>*-+ :~@!#%&^`?[]|"
    bare = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789$./_:')
    sets = [[(ord('a'), ord('z') + 1), (ord('A'), ord('Z') + 1), (ord('0'), ord('9') + 1)]]

    def step(self, q, c):
        if q == '':
            if c == '"': return ('', 'in')
            return (c, 'slash' if c == '/' else 'bare') if c in self.bare else None
        if q == 'slash' and c == '/': return None            # a comment
        if q in ('bare', 'slash'): return (c, 'bare') if c in self.bare else None
        if q == 'in':
            if c == '"': return ('', 'end')
            if c == '\\': return ('', 'bs')
            return (c, 'in')
        if q == 'bs':
            m = {'a': '\a', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', 'v': '\v', '"': '"', '\\': '\\', "'": "'", '\n': '\n'}
            if c in m: return (m[c], 'in')
            if c == 'U': return ('', 'U')
            return None
        if q[0] == 'U':
            if c not in HEX: return None
            h = q[1:] + c
            if len(h) < 4: return ('', 'U' + h)
            # read for control characters only: nothing else is ever written that way
            return (chr(int(h, 16)), 'in') if int(h, 16) < 32 else None
        return None

    def final(self, q): return '' if q in ('bare', 'slash', 'end') else None


class CString(Reader):
    """the inside of a C string literal (no trigraphs), up to the end of the text; octal escapes take up to three digits"""
    start, special = '', '"\\\n01234567abfnrtvx?'

    def step(self, q, c):
        if q == '':
            if c == '"' or c == '\n': return None
            if c == '\\': return ('', 'bs')
            return (c, '')
        if q == 'bs':
            m = {'a': '\a', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', 'v': '\v', '"': '"', '\\': '\\', "'": "'", '?': '?'}
            if c in '01234567': return ('', 'o' + c)
            if c in m: return (m[c], '')
            return None
        if q[0] == 'o':
            if c in '01234567' and len(q) < 4: return ('', q + c)
            r = self.step('', c)
            return None if r is None else (chr(int(q[1:], 8)) + r[0], r[1])

    def final(self, q): return '' if q == '' else chr(int(q[1:], 8)) if q[0] == 'o' else None


class XmlText(Reader):
    """character data or a double-quoted attribute value: entity and character references, line ends and (attributes) white space normalised"""
    start, special = '', '<>&;#"\'\r\n\tx0123456789abcdefABCDEFxqutposglm]'
    ENT = {'quot': '"', 'apos': "'", 'lt': '<', 'gt': '>', 'amp': '&'}

    def __init__(self, attr): self.attr = attr

    def step(self, q, c):
        if q in ('', ']', ']]'):
            if c == '<' or c == '"' and self.attr: return None
            if c == '>' and q == ']]' and not self.attr: return None
            if c == '&': return ('', '&')
            if c == '\r': return None                # a literal carriage return never survives
            if c in '\t\n' and self.attr: return (' ', '')
            return (c, ({'': ']', ']': ']]', ']]': ']]'}[q] if c == ']' and not self.attr else ''))
        name = q[1:]
        if c != ';': return ('', q + c) if len(name) < 7 and (c in 'x#' or c.isalnum() and ord(c) < 128) else None
        if name in self.ENT: return (self.ENT[name], '')
        if name.startswith('#x'): v = name[2:]; base = 16
        elif name.startswith('#'): v = name[1:]; base = 10
        else: return None
        try: return (chr(int(v, base)), '')
        except ValueError: return None

    def final(self, q): return '' if q in ('', ']', ']]') else None


class Argv(Reader):
    """CommandLineToArgvW / MSVCRT argument rules; a quoted part may not be followed at once by another quote.
    After '<' the backslashes of a run are guessed to be followed by a quote ('odd', 'even') or not ('lit')."""
    start, special = ('gap', 'n'), ' \t"\\\n\0'

    def step(self, q, c):
        if c == '\0': return None
        m, s = q
        if s == 'n':
            if c == '\\':
                m2 = 'out' if m in ('gap', 'closed') else m
                return [('\\', (m2, 'lit')), ('', (m2, 'odd'))]
            if c == '"':
                if m == 'closed': return None
                return ('', ('in', 'n')) if m in ('gap', 'out') else ('', ('closed', 'n'))
            if c in ' \t' and m != 'in':
                return ('', ('gap', 'n')) if m == 'gap' else ([WEND], ('gap', 'n'))
            return (c, ('in' if m == 'in' else 'out', 'n'))
        if s == 'lit':
            if c == '\\': return ('\\', q)
            if c == '"': return None
            return self.step((m, 'n'), c)
        if s == 'odd':
            if c == '\\': return ('\\', (m, 'even'))
            return ('"', (m, 'n')) if c == '"' else None
        if s == 'even':
            if c == '\\': return ('', (m, 'odd'))
            return self.step((m, 'n'), c) if c == '"' else None

    def final(self, q):
        m, s = q
        if s in ('odd', 'even') or m == 'in': return None
        return [] if m == 'gap' else [WEND]


class DoublePercent(Reader):
    """%% is a percent sign; a single one would start a variable"""
    start, special = '', '%'

    def step(self, q, c):
        if q == '%': return ('%', '') if c == '%' else None
        return ('', '%') if c == '%' else (c, '')

    def final(self, q): return '' if q == '' else None


class MsbuildEscapes(Reader):
    """%XX is the character XX; the characters special to MSBuild may not appear by themselves"""
    start, special = '', '%$@\';?*' + HEX

    def step(self, q, c):
        if q == '':
            if c == '%': return ('', '%')
            return None if c in "$@';?*" else (c, '')
        if c not in HEX: return None
        if q == '%': return ('', '%' + c)
        return (chr(int(q[1:] + c, 16)), '')

    def final(self, q): return '' if q == '' else None


class MakeRecipe(Reader):
    """text of a variable value expanded once: $$ is a dollar, \\# a hash, an unescaped hash a comment.
    Backslashes before an escaped hash pair up."""
    start, special = 'n', '$#\\\n'

    def step(self, q, c):
        if c == '\n': return None
        if q == 'n':
            if c == '\\': return [('\\', 'lit'), ('', 'odd')]
            if c == '$': return ('', '$')
            if c == '#': return None
            return (c, 'n')
        if q == '$': return ('$', 'n') if c == '$' else None
        if q == 'lit':
            if c == '\\': return ('\\', 'lit')
            return None if c == '#' else self.step('n', c)
        if q == 'odd':
            if c == '\\': return ('\\', 'even')
            return ('#', 'n') if c == '#' else None
        if q == 'even':
            return ('', 'odd') if c == '\\' else None

    def final(self, q): return '' if q in ('n', 'lit') else None
