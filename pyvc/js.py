"""JavaScript functions as Python text, extracted mechanically from the module in the repository on every run.

acorn gives the syntax tree; every statement is rewritten to the Python statement with the same meaning on the values below, at the same
line number; what has no such statement makes the function unavailable (an undischarged obligation, never a guess).

Values: strings are strings, numbers are integers (NaN is None), null and undefined are both None, arrays are lists, plain objects are
dictionaries (their own properties; a missing property is None), `this`, modules and the names in `objects` are objects with attributes.
Every array and object is true.

Dropped: calls and settings of log, this.log and this.addLog (what is printed), async and await (a function runs to its end, Promise.all runs
its functions one after the other), the difference between null and undefined, inherited properties of plain objects (for-in, o.name).
"""
import ast
import json
import keyword
import os
import re
import subprocess
import types
from . import jsrt

ACORN = '/opt/veriftools/node/node_modules/acorn'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TEXTS = {}            # file name of extracted text -> its Python tree


class NotTranslated(Exception): pass


class No(Exception): pass


def no(n, why=''): raise NotTranslated('line %s: %s %s' % (n['loc']['start']['line'], n['type'], why))


MUT = {'push', 'shift', 'splice', 'sort', 'unshift', 'pop', 'reverse'}
FUN = ('FunctionDeclaration', 'FunctionExpression', 'ArrowFunctionExpression')


def walk(n, stop=()):
    if isinstance(n, list):
        for x in n: yield from walk(x, stop)
    elif isinstance(n, dict) and 'type' in n:
        yield n
        if n['type'] in stop: return
        for k, x in n.items():
            if k != 'loc': yield from walk(x, stop)


def inner(n):
    """the nodes of a function body, without those of functions inside it"""
    for k, x in n.items():
        if k != 'loc':
            for y in (x if isinstance(x, list) else [x]):
                if isinstance(y, dict) and 'type' in y:
                    yield y
                    if y['type'] not in FUN: yield from inner(y)


def is_undef(n): return n['type'] == 'Literal' and n.get('raw') == 'null' or n['type'] == 'Identifier' and n['name'] == 'undefined'


def is_text(n): return n['type'] == 'TemplateLiteral' or n['type'] == 'Literal' and isinstance(n.get('value'), str)


def pattern(n):
    """a JavaScript regular expression as a Python one"""
    r, flags = n['regex']['pattern'], n['regex']['flags']
    if set(flags) - set('gm'): no(n, 'flags')
    out, i, cls = '', 0, False
    while i < len(r):
        c = r[i]
        if c == '\\':
            d = r[i + 1]
            i += 2
            if d == 'd': out += '0-9' if cls else '[0-9]'
            elif d == 's': out += ('' if cls else '[') + '\\t\\n\\x0b\\x0c\\r \\xa0\\u1680\\u2000-\\u200a\\u2028\\u2029\\u202f\\u205f\\u3000\\ufeff' + ('' if cls else ']')
            elif d in '/.\\[](){}*+?^$|-': out += re.escape(d)
            else: no(n, 'escape \\' + d)
            continue
        if cls:
            if c == ']': cls = False
            out += '\\[' if c == '[' else c
        elif c == '[':
            cls = True
            out += c
        elif c == '.': out += '[^\\n\\r\\u2028\\u2029]'
        elif c == '$': out += '(?=[\\n\\r\\u2028\\u2029]|\\Z)' if 'm' in flags else '\\Z'
        elif c == '^' and 'm' in flags: no(n, 'flags')
        elif c == '(' and r[i + 1:i + 2] == '?' and r[i + 2] not in ':=!': no(n, 'group')
        else: out += c
        i += 1
    re.compile(out)
    return out


class Function:
    """the translation of one function (and the functions inside it)"""

    def __init__(self, mod, objects, parent=None):
        self.mod, self.objects, self.parent = mod, set(objects), parent
        self.names, self.scopes, self.pre, self.n = set(), [{}], [], 0
        self.nonlocals = set()
        self.thunks, self.constants, self.thunk_names = [], set(), set()
        self.loops = []             # what `return` means: a loop made of forEach, or a function

    # ---- names
    def declare(self, name):
        p = name + '_' if keyword.iskeyword(name) or name in ('len', 'list', 'dict', 'max', 'min', 'range', 'str', 'text', 'at', 'self', 'index_of') else name
        q, i = p, 1
        while q in self.names or (len(self.scopes) > 1 and q in self.taken()):
            i += 1
            q = '%s_%d' % (p, i)
        self.names.add(q)
        self.scopes[-1][name] = q
        return q

    def taken(self): return set()

    def find(self, name):
        for s in reversed(self.scopes):
            if name in s: return s[name], self
        if self.parent: return self.parent.find(name)
        return None, None

    def name(self, n):
        if n == 'undefined': return 'None'
        p, f = self.find(n)
        if p is not None: return p
        if n in self.mod.toplevel: return n + '_' if keyword.iskeyword(n) else n
        if n in ('process', 'JSON', 'Buffer'): return n
        if n == '__dirname': return 'dirname_'
        raise No('unknown name ' + n)

    def fresh(self, hint):
        while True:
            self.n += 1
            q = '%s_%d' % (hint, self.n)
            if q not in self.names:
                self.names.add(q)
                return q

    # ---- expressions
    def obj(self, n):
        """denotes an object with attributes"""
        t = n['type']
        if t == 'ThisExpression': return True
        if t == 'Identifier':
            return n['name'] in self.objects or self.find(n['name'])[0] is None and (n['name'] in self.mod.modules or n['name'] in ('process', 'JSON'))
        if t == 'MemberExpression' and not n['computed']:
            return self.obj(n['object']) and n['property']['name'] in self.mod.object_fields
        return False

    def ex(self, n):
        f = getattr(self, 'e_' + n['type'], None)
        if not f: no(n)
        return f(n)

    def e_Identifier(self, n):
        try: return self.name(n['name'])
        except No as ex: no(n, str(ex))

    def e_ThisExpression(self, n): return 'self'

    def e_Literal(self, n):
        if 'regex' in n: no(n, 'regular expression')
        if n.get('raw') == 'null': return 'None'
        v = n['value']
        if isinstance(v, float):
            if v != int(v): no(n)
            v = int(v)
        return repr(v)

    def e_TemplateLiteral(self, n):
        parts = []
        for i, q in enumerate(n['quasis']):
            if q['value']['cooked']: parts.append(repr(q['value']['cooked']))
            if i < len(n['expressions']): parts.append('text(%s)' % self.ex(n['expressions'][i]))
        return '(' + ' + '.join(parts or ["''"]) + ')'

    def e_ArrayExpression(self, n):
        out, cur = [], []
        for x in n['elements']:
            if x is None: no(n)
            if x['type'] == 'SpreadElement':
                if cur: out.append('[%s]' % ', '.join(cur))
                cur = []
                a = x['argument']
                if a['type'] == 'ConditionalExpression': out.append(self.ex(a))
                else: out.append(self.ex(a))
            else: cur.append(self.ex(x))
        if cur or not out: out.append('[%s]' % ', '.join(cur))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]

    def e_ObjectExpression(self, n):
        out = []
        for p in n['properties']:
            if p['type'] == 'SpreadElement': out.append('**(%s or {})' % self.ex(p['argument']) if p['argument']['type'] == 'Identifier' else '**' + self.ex(p['argument']))
            else:
                if p['computed'] or p['kind'] != 'init': no(n)
                k = p['key'].get('name', p['key'].get('value'))
                out.append('%r: %s' % (str(k), self.thunk(p['value']) if 'thunk' in p['value'] else self.ex(p['value'])))
        return '{%s}' % ', '.join(out)

    # ---- functions without parameters kept in objects: records of which function it is and the variables it uses, called by a function that tells them apart
    def thunk(self, n):
        top = self
        while top.parent and top.parent.parent: top = top.parent
        caps = []
        for x in walk(n['body']):
            if x['type'] == 'Identifier' and x['name'] not in caps:
                q, owner = self.find(x['name'])
                if q is None or owner is top and x['name'] in top.scopes[0]: continue
                if x['name'] not in top.constants: no(n, 'closure of a variable that changes')
                caps.append(x['name'])
        k = len(top.thunks)
        top.thunks.append((n, caps))
        return '{%s}' % ', '.join(["'thunk': %d" % k] + ['%r: %s' % ('v_' + c, self.ex({'type': 'Identifier', 'name': c, 'loc': n['loc']})) for c in caps])

    def dispatch(self):
        """the functions, and the one that calls them"""
        out, tests = [], []
        for k, (n, caps) in enumerate(self.thunks):
            body = n['body'] if n['body']['type'] == 'BlockStatement' else {'type': 'BlockStatement', 'loc': n['loc'], 'body': [{'type': 'ReturnStatement', 'argument': n['body'], 'loc': n['loc']}]}
            out.append(self.define({'params': [{'type': 'Identifier', 'name': c, 'loc': n['loc']} for c in caps], 'body': body, 'loc': n['loc']}, 'thunk_%d' % k))
            tests.append("    if t.get('thunk') == %d: return thunk_%d(%s)" % (k, k, ', '.join("t.get('v_%s')" % c for c in caps)))
        d = ast.parse('def call_thunk(t=None):\n' + '\n'.join(tests)).body[0]
        for x in ast.walk(d):
            if hasattr(x, 'lineno'): x.lineno = x.end_lineno = self.thunks[0][0]['loc']['start']['line']
        return out + [d]

    def e_ConditionalExpression(self, n): return '(%s if %s else %s)' % (self.ex(n['consequent']), self.ex(n['test']), self.ex(n['alternate']))

    def e_LogicalExpression(self, n):
        op = {'&&': 'and', '||': 'or'}.get(n['operator'])
        if not op: no(n)
        return '(%s %s %s)' % (self.ex(n['left']), op, self.ex(n['right']))

    def e_UnaryExpression(self, n):
        if n['operator'] == '!': return '(not %s)' % self.ex(n['argument'])
        if n['operator'] == '-': return '(-%s)' % self.ex(n['argument'])
        if n['operator'] == 'void' and n['argument']['type'] in ('Literal', 'Identifier'): return 'None'
        no(n)

    def e_AwaitExpression(self, n): return self.ex(n['argument'])
    def e_ChainExpression(self, n): return self.ex(n['expression'])

    def index_compare(self, n):
        """x.indexOf(y) against -1"""
        l, r = n['left'], n['right']
        if l['type'] == 'CallExpression' and l['callee']['type'] == 'MemberExpression' and l['callee']['property'].get('name') == 'indexOf' and len(l['arguments']) == 1 \
                and r['type'] == 'UnaryExpression' and r['operator'] == '-' and r['argument'].get('value') == 1 and n['operator'] in ('===', '!=='):
            return '(%s %s %s)' % (self.ex(l['arguments'][0]), 'not in' if n['operator'] == '===' else 'in', self.ex(l['callee']['object']))

    def e_BinaryExpression(self, n):
        op = n['operator']
        if op in ('===', '!=='):
            x = self.index_compare(n)
            if x: return x
            if is_undef(n['right']) or is_undef(n['left']):
                return '(%s %s None)' % (self.ex(n['left'] if is_undef(n['right']) else n['right']), 'is' if op == '===' else 'is not')
            if n['left']['type'] == 'UnaryExpression' and n['left']['operator'] == 'typeof': no(n)
            return '(%s %s %s)' % (self.ex(n['left']), '==' if op == '===' else '!=', self.ex(n['right']))
        if op in ('<', '<=', '>', '>=', '-', '*'): return '(%s %s %s)' % (self.ex(n['left']), op, self.ex(n['right']))
        if op == 'in': return '(%s in %s)' % (self.ex(n['left']), self.ex(n['right']))
        if op == '+':
            ls = []
            def flat(x):
                if x['type'] == 'BinaryExpression' and x['operator'] == '+':
                    flat(x['left'])
                    ls.append(x['right'])
                else: ls.append(x)
            flat(n)
            if any(is_text(x) for x in ls[:2]) :
                return '(' + ' + '.join(self.ex(x) if is_text(x) else 'text(%s)' % self.ex(x) for x in ls) + ')'
            return '(' + ' + '.join(self.ex(x) for x in ls) + ')'
        no(n, op)

    def e_MemberExpression(self, n):
        o, p = n['object'], n['property']
        if n.get('optional'): no(n)
        if n['computed']:
            if p['type'] == 'BinaryExpression' and p['operator'] == '-' and p['right'].get('value') == 1 and p['left']['type'] == 'MemberExpression' \
                    and p['left']['property'].get('name') == 'length' and not p['left']['computed'] and self.ex(p['left']['object']) == self.ex(o):
                return '%s[-1]' % self.ex(o)
            if p['type'] == 'Literal' and isinstance(p['value'], (int, float)): return 'at(%s, %s)' % (self.ex(o), self.ex(p))
            if p['type'] == 'Identifier' and p['name'] in [x for l in self.index_vars for x in l]: return '%s[%s]' % (self.ex(o), self.ex(p))
            return '%s.get(%s)' % (self.ex(o), self.ex(p))
        if p['name'] == 'length': return 'len(%s)' % self.ex(o)
        if self.obj(o): return '%s.%s' % (self.ex(o), p['name'])
        return '%s.get(%r)' % (self.ex(o), p['name'])

    index_vars = ()

    def e_NewExpression(self, n):
        c = n['callee']
        if c['type'] == 'Identifier' and c['name'] == 'Error' and len(n['arguments']) == 1: return 'Error(%s)' % self.ex(n['arguments'][0])
        return '%s(%s)' % (self.ex(c), ', '.join(map(self.ex, n['arguments'])))

    def args(self, l):
        return ', '.join('*' + self.ex(a['argument']) if a['type'] == 'SpreadElement' else self.ex(a) for a in l)

    def e_ArrowFunctionExpression(self, n, hint='fn'):
        if n['body']['type'] != 'BlockStatement':
            f = Function(self.mod, self.objects, self)
            f.index_vars = self.index_vars
            ps = f.params(n['params'])
            e = f.ex(n['body'])
            if f.pre: no(n)
            return '(lambda %s: %s)' % (', '.join(ps), e)
        q = self.fresh(hint)
        d = self.define(n, q)
        self.pre.append(d)
        return q

    def e_FunctionExpression(self, n):
        if any(x['type'] == 'ThisExpression' for x in walk(n['body'])): no(n, 'this')
        return self.e_ArrowFunctionExpression(n)

    def params(self, ps):
        out = []
        for p in ps:
            if p['type'] == 'Identifier': out.append(self.declare(p['name']))
            elif p['type'] == 'ObjectPattern' and len(ps) == 1:
                for q in p['properties']:
                    if q['type'] != 'Property' or q['value']['type'] != 'Identifier' or q['value']['name'] != q['key']['name']: no(p)
                    out.append(self.declare(q['value']['name']))
            else: no(p)
        return out

    def e_CallExpression(self, n):
        c, a = n['callee'], n['arguments']
        if n.get('optional'): no(n)
        if self.mod.promises(n) and not n.get('settled'): no(n, 'a promise that nobody awaits')
        if c['type'] == 'Identifier':
            nm = c['name']
            if self.find(nm)[0] is None:
                if nm == 'parseInt':
                    if len(a) != 2 or a[1].get('value') != 10: no(n)
                    return 'parse_int(%s)' % self.ex(a[0])
                if nm == 'isNaN': return 'is_nan(%s)' % self.ex(a[0])
                if nm == 'String': return 'text(%s)' % self.ex(a[0])
                if nm == 'require': no(n)
            if len(a) == 1 and a[0]['type'] == 'ObjectExpression' and nm in self.mod.by_name:
                return '%s(%s)' % (self.ex(c), ', '.join('%s=%s' % (p['key']['name'], self.ex(p['value'])) for p in a[0]['properties']))
            return '%s(%s)' % (self.ex(c), self.args(a))
        if c['type'] == 'ArrowFunctionExpression' and not a and not c['params']: return '%s()' % self.ex(c)
        if c['type'] != 'MemberExpression' or c['computed']: no(n)
        o, m = c['object'], c['property']['name']
        top = self
        while top.parent and top.parent.parent: top = top.parent
        if m in top.thunk_names and o['type'] == 'Identifier' and not n['arguments']: return 'call_thunk(%s.get(%r))' % (self.ex(o), m)
        on = o.get('name') if o['type'] == 'Identifier' and self.find(o['name'])[0] is None else None
        E = lambda i: self.ex(a[i])
        k = len(a)
        if on == 'Object':
            if m == 'hasOwn': return '(%s in %s)' % (E(1), E(0))
            if m == 'keys': return 'list(%s)' % E(0)
            if m == 'assign' and a[0]['type'] == 'ObjectExpression' and not a[0]['properties'] and k == 2: return 'dict(%s)' % E(1)
            no(n)
        if on == 'Array' and m == 'isArray': return 'is_array(%s)' % E(0)
        if on == 'Math' and m in ('max', 'min'): return '%s(%s)' % (m, self.args(a))
        if on == 'Promise' and m == 'all' and k == 1: return E(0)
        if 'regex' in o:
            if m == 'exec' and k == 1: return 're_exec(%r, %s)' % (pattern(o), E(0))
            if m == 'test' and k == 1: return 're_test(%r, %s)' % (pattern(o), E(0))
            no(n)
        if on in self.mod.regexes and m in ('test', 'exec') and k == 1: return 're_%s(%r, %s)' % (m, pattern(self.mod.regexes[on]), E(0))
        if self.obj(o): return '%s.%s(%s)' % (self.ex(o), m, self.args(a))
        x = lambda: self.ex(o)
        if m == 'replace' and k == 2:
            if 'regex' in a[0]: rx = a[0]
            elif a[0]['type'] == 'Identifier' and a[0]['name'] in self.mod.regexes: rx = self.mod.regexes[a[0]['name']]
            elif a[0]['type'] == 'ConditionalExpression':
                t = a[0]
                return self.e_ConditionalExpression(dict(t, consequent=dict(n, arguments=[t['consequent'], a[1]]), alternate=dict(n, arguments=[t['alternate'], a[1]])))
            else: return 'str_replace(%s, %s, %s)' % (x(), E(0), E(1))
            if a[1]['type'] == 'Literal' and '$' in a[1]['value']: no(n)
            return 're_replace(%s, %r, %s, %r)' % (x(), pattern(rx), E(1), 'g' in rx['regex']['flags'])
        if m == 'match' and k == 1 and 'regex' in a[0] and not a[0]['regex']['flags']: return 're_exec(%r, %s)' % (pattern(a[0]), x())
        if m == 'split' and k == 1: return 're_split(%s, %r)' % (x(), pattern(a[0])) if 'regex' in a[0] else '%s.split(%s)' % (x(), E(0))
        if m == 'slice' and k == 0: return '%s[:]' % x()
        if m == 'includes' and k == 1: return '(%s in %s)' % (E(0), x())
        if m == 'indexOf' and k == 1: return 'index_of(%s, %s)' % (x(), E(0))
        if m == 'startsWith' and k == 1: return '%s.startswith(%s)' % (x(), E(0))
        if m == 'endsWith' and k == 1: return '%s.endswith(%s)' % (x(), E(0))
        if m == 'trim' and k == 0: return 'trim(%s)' % x()
        if m == 'toString' and k == 0: return 'text(%s)' % x()
        if m == 'substring' and k == 2 and all(y['type'] == 'Literal' for y in a) and a[0]['value'] <= a[1]['value']: return '%s[%d:%d]' % (x(), a[0]['value'], a[1]['value'])
        if m == 'substring' and k == 1: return 'substring(%s, %s)' % (x(), E(0))
        if m == 'join' and k == 1: return '%s.join(%s)' % (E(0), x())
        if m == 'concat' and k == 1 and a[0]['type'] == 'Identifier': return '(%s + [%s])' % (x(), E(0))
        if m in ('map', 'filter') and k == 1 and a[0]['type'] == 'ArrowFunctionExpression' and len(a[0]['params']) == 1:
            f = a[0]
            if f['body']['type'] != 'BlockStatement':
                g = Function(self.mod, self.objects, self)
                g.index_vars = self.index_vars
                [p] = g.params(f['params'])
                e = g.ex(f['body'])
                if g.pre: no(n)
                return '[%s for %s in %s]' % (e, p, x()) if m == 'map' else '[%s for %s in %s if %s]' % (p, p, x(), e)
            q = self.e_ArrowFunctionExpression(f, m)
            v = self.fresh('x')
            return '[%s(%s) for %s in %s]' % (q, v, v, x()) if m == 'map' else '[%s for %s in %s if %s(%s)]' % (v, v, x(), q, v)
        if m == 'splice' and k in (1, 2) and a[0].get('value') == 0:
            v = self.fresh('cut')
            if k == 1: self.stmts(n, '%s = %s[:]\ndel %s[:]' % (v, x(), x()))
            else:
                i = self.fresh('n')
                self.stmts(n, '%s = max(%s, 0)\n%s = %s[:%s]\ndel %s[:%s]' % (i, E(1), v, x(), i, x(), i))
            return v
        if m == 'shift' and k == 0:
            v = self.fresh('first')
            self.stmts(n, '%s = at(%s, 0)\ndel %s[:1]' % (v, x(), x()))
            return v
        if m in MUT: no(n, m)
        return '%s.get(%r)(%s)' % (x(), m, self.args(a))

    # ---- statements
    def stmts(self, n, text, bodies=None):
        """adds the statements of the text (placed at the line of n)"""
        t = ast.parse(text)
        ln = n['loc']['start']['line']
        for x in ast.walk(t):
            if hasattr(x, 'lineno'): x.lineno = x.end_lineno = ln
        self.pre += t.body
        return t.body[-1]

    def block(self, n, scope=True):
        """the Python statements of a JavaScript statement (or list)"""
        l = n if isinstance(n, list) else n['body'] if n['type'] == 'BlockStatement' else [n]
        if scope: self.scopes.append({})
        keep, self.pre = self.pre, []
        for x in l:                      # functions are there from the beginning
            if x['type'] == 'FunctionDeclaration': self.declare(x['id']['name'])
        for x in l:
            if x['type'] == 'FunctionDeclaration':
                self.pre.append(self.define(x, self.scopes[-1][x['id']['name']]))
        # let and const of the block shadow outer names in the whole block
        for x in l:
            if x['type'] != 'FunctionDeclaration': self.st(x)
        out, self.pre = self.pre, keep
        if scope: self.scopes.pop()
        return out or [ast.parse('pass').body[0]]

    def st(self, n):
        f = getattr(self, 's_' + n['type'], None)
        if not f: no(n)
        f(n)

    def dropped(self, e):
        """calls that only log"""
        while e['type'] == 'AwaitExpression': e = e['argument']
        if e['type'] == 'AssignmentExpression': e = e['left']
        elif e['type'] == 'CallExpression': e = e['callee']
        else: return False
        names = []
        while e['type'] == 'MemberExpression' and not e['computed']:
            names.append(e['property']['name'])
            e = e['object']
        if e['type'] == 'Identifier': return e['name'] in ('log', 'console') and bool(names) and self.find(e['name'])[0] is None
        return e['type'] == 'ThisExpression' and (names[-1] == 'log' and len(names) > 1 or names == ['addLog'])

    def s_ExpressionStatement(self, n):
        e = n['expression']
        if 'directive' in n or self.dropped(e): return
        while e['type'] == 'AwaitExpression': e = e['argument']
        if e['type'] == 'AssignmentExpression': return self.assign(n, e)
        if e['type'] == 'UpdateExpression':
            t = self.target(e['argument'])
            self.stmts(n, '%s = %s %s 1' % (t, t, e['operator'][0]))
            return
        if e['type'] == 'UnaryExpression' and e['operator'] == 'delete':
            a = e['argument']
            self.stmts(n, '%s.pop(%s, None)' % (self.ex(a['object']), self.ex(a['property']) if a['computed'] else repr(a['property']['name'])))
            return
        if e['type'] == 'CallExpression' and e['callee']['type'] == 'MemberExpression' and not e['callee']['computed']:
            o, m, a = e['callee']['object'], e['callee']['property']['name'], e['arguments']
            if m == 'push':
                for x in a:
                    if x['type'] == 'SpreadElement': self.emit(n, '%s.extend(%%s)' % self.ex(o), x['argument'])
                    else: self.emit(n, '%s.append(%%s)' % self.ex(o), x)
                return
            if m == 'unshift' and len(a) == 1:
                return self.emit(n, '%s.insert(0, %%s)' % self.ex(o), a[0])
            if m == 'forEach' and len(a) == 1 and a[0]['type'] in ('ArrowFunctionExpression', 'FunctionExpression') and len(a[0]['params']) == 1:
                return self.for_each(n, o, a[0])
            if m == 'sort' and len(a) == 1:
                f = a[0]
                b = f.get('body') or {}
                if f['type'] == 'ArrowFunctionExpression' and b['type'] == 'BinaryExpression' and b['operator'] == '-' and len(f['params']) == 2:
                    p, q = [x.get('name') for x in f['params']]
                    l, r = b['left'], b['right']
                    if all(x['type'] == 'MemberExpression' and not x['computed'] and x['object']['type'] == 'Identifier' for x in (l, r)) and l['property']['name'] == r['property']['name']:
                        k, v = l['property']['name'], self.fresh('x')
                        if (l['object']['name'], r['object']['name']) == (q, p): self.stmts(n, '%s.sort(key=lambda %s: -%s.get(%r))' % (self.ex(o), v, v, k))
                        elif (l['object']['name'], r['object']['name']) == (p, q): self.stmts(n, '%s.sort(key=lambda %s: %s.get(%r))' % (self.ex(o), v, v, k))
                        else: no(n)
                        return
                no(n, 'sort')
            if m in ('shift', 'splice'):
                self.ex(e)
                return
        self.emit(n, '%s', e)

    def emit(self, n, form, e):
        t = self.ex(e)
        return self.stmts(n, form % t)

    def for_each(self, n, o, f):
        keys = o['type'] == 'CallExpression' and o['callee']['type'] == 'MemberExpression' and o['callee']['object'].get('name') == 'Object' and o['callee']['property']['name'] == 'keys'
        if f['type'] == 'FunctionExpression' and any(x['type'] == 'ThisExpression' for x in walk(f['body'])): no(n, 'this')
        if not keys and not (o['type'] == 'CallExpression' and o['callee']['property'].get('name') == 'slice'):
            nm = self.ex(o)
            if any(x['type'] == 'CallExpression' and x['callee']['type'] == 'MemberExpression' and x['callee']['property'].get('name') in MUT and self.ex(x['callee']['object']) == nm
                   for x in inner(f) if x['type'] == 'CallExpression' and x['callee']['type'] == 'MemberExpression' and x['callee']['object']['type'] in ('Identifier', 'MemberExpression') and self.known(x['callee']['object'])): no(n, 'changed in the loop')
        it = self.ex(o)
        self.scopes.append({})
        [p] = self.params(f['params'])
        self.loops.append('each')
        body = f['body'] if f['body']['type'] == 'BlockStatement' else dict(type='ExpressionStatement', expression=f['body'], loc=f['loc'])
        b = self.block(body)
        self.loops.pop()
        self.scopes.pop()
        self.stmts(n, 'for %s in %s: pass' % (p, it)).body = b

    def known(self, e):
        try: self.ex(e)
        except NotTranslated: return False
        return True

    def target(self, t):
        if t['type'] == 'Identifier':
            p, f = self.find(t['name'])
            if p is None: no(t, 'assigned')
            if f is not self: self.nonlocals.add(p)
            return p
        if t['type'] == 'MemberExpression':
            if not t['computed'] and self.obj(t['object']): return '%s.%s' % (self.ex(t['object']), t['property']['name'])
            return '%s[%s]' % (self.ex(t['object']), self.ex(t['property']) if t['computed'] else repr(t['property']['name']))
        no(t)

    def assign(self, n, e):
        if e['right']['type'] == 'AssignmentExpression': no(n)
        if e['operator'] == '=':
            v = self.ex(e['right'])
            self.stmts(n, '%s = %s' % (self.target(e['left']), v))
        elif e['operator'] == '+=':
            t = self.target(e['left'])
            self.stmts(n, '%s = %s' % (t, self.e_BinaryExpression(dict(type='BinaryExpression', operator='+', left=e['left'], right=e['right'], loc=n['loc']))))
        else: no(n)

    def s_VariableDeclaration(self, n):
        for d in n['declarations']:
            t, v = d['id'], d['init']
            if t['type'] == 'Identifier':
                if v is not None and v['type'] == 'AssignmentExpression':      # const a = b.c = []
                    x = self.ex(v['right'])
                    p = self.declare(t['name'])
                    self.stmts(n, '%s = %s' % (p, x))
                    self.stmts(n, '%s = %s' % (self.target(v['left']), p))
                    continue
                x = self.ex(v) if v is not None else 'None'
                self.stmts(n, '%s = %s' % (self.declare(t['name']), x))
            elif t['type'] == 'ArrayPattern':
                x, q = self.ex(v), self.fresh('all')
                self.stmts(n, '%s = %s' % (q, x))
                for i, y in enumerate(t['elements']):
                    if y: self.stmts(n, '%s = at(%s, %d)' % (self.declare(y['name']), q, i))
            elif t['type'] == 'ObjectPattern':
                x, q = self.ex(v), self.fresh('all')
                self.stmts(n, '%s = %s' % (q, x))
                for y in t['properties']:
                    if y['type'] != 'Property' or y['value']['type'] != 'Identifier': no(n)
                    self.stmts(n, '%s = %s.get(%r)' % (self.declare(y['value']['name']), q, y['key']['name']))
            else: no(n)

    def s_BlockStatement(self, n): self.pre += self.block(n)
    def s_EmptyStatement(self, n): pass

    def s_IfStatement(self, n):
        t = self.ex(n['test'])
        b = self.block(n['consequent'])
        o = self.block(n['alternate']) if n['alternate'] else []
        s = self.stmts(n, 'if %s: pass' % t)
        s.body, s.orelse = b, o

    def loop_body(self, n):
        self.loops.append('loop')
        b = self.block(n['body'])
        self.loops.pop()
        return b

    def s_ForOfStatement(self, n, wrap='%s'):
        l = n['left']
        if l['type'] != 'VariableDeclaration' or l['declarations'][0]['id']['type'] != 'Identifier' or any(x['type'] in FUN and 'thunk' not in x and self.captures(x, n) for x in walk(n['body'])): no(n)
        it = self.ex(n['right'])
        self.scopes.append({})
        p = self.declare(l['declarations'][0]['id']['name'])
        b = self.loop_body(n)
        self.scopes.pop()
        self.stmts(n, 'for %s in %s: pass' % (p, wrap % it)).body = b

    def s_ForInStatement(self, n): self.s_ForOfStatement(n, 'list(%s)')

    def captures(self, f, loop):
        """the function uses a variable that is new in every round of the loop"""
        mine = {d['id'].get('name') for x in inner(loop) if x['type'] == 'VariableDeclaration' for d in x['declarations']}
        return any(x['type'] == 'Identifier' and x['name'] in mine for x in walk(f['body']))

    def s_ForStatement(self, n):
        i, t, u = n['init'], n['test'], n['update']
        ok = i and i['type'] == 'VariableDeclaration' and len(i['declarations']) == 1 and i['declarations'][0]['init'] and i['declarations'][0]['init'].get('value') == 0 \
            and t and t['type'] == 'BinaryExpression' and t['operator'] == '<' and u and u['type'] == 'UpdateExpression' and u['operator'] == '++'
        if not ok: no(n)
        v = i['declarations'][0]['id']['name']
        if t['left'].get('name') != v or u['argument'].get('name') != v: no(n)
        if t['right']['type'] != 'MemberExpression' or t['right']['property'].get('name') != 'length': no(n)
        o = t['right']['object']
        me = json.dumps(strip(o))
        for x in walk(n['body']):
            if x['type'] in FUN and 'thunk' not in x and self.captures(x, n): no(n, 'closure')
            if x['type'] == 'AssignmentExpression' and (x['left'].get('name') == v or json.dumps(strip(x['left'])) == me): no(n)
            if x['type'] == 'CallExpression' and x['callee']['type'] == 'MemberExpression' and x['callee']['property'].get('name') in MUT and json.dumps(strip(x['callee']['object'])) == me: no(n)
        s = self.ex(o)
        self.scopes.append({})
        p = self.declare(v)
        self.index_vars = tuple(self.index_vars) + ((v,),)
        b = self.loop_body(n)
        self.index_vars = self.index_vars[:-1]
        self.scopes.pop()
        self.stmts(n, 'for %s in range(len(%s)): pass' % (p, s)).body = b

    def s_ContinueStatement(self, n):
        if n['label'] or not self.loops or self.loops[-1] != 'loop': no(n)
        self.stmts(n, 'continue')

    def s_BreakStatement(self, n):
        if n['label'] or not self.loops or self.loops[-1] != 'loop': no(n)
        self.stmts(n, 'break')

    def s_ReturnStatement(self, n):
        if 'each' in self.loops:
            if self.loops[-1] != 'each': no(n, 'return from a loop in forEach')
            if n['argument']: self.emit(n, '%s', n['argument'])
            self.stmts(n, 'continue')
            return
        v = self.ex(n['argument']) if n['argument'] else 'None'
        self.stmts(n, 'return ' + v)

    def s_ThrowStatement(self, n): self.emit(n, 'raise %s', n['argument'])

    def s_TryStatement(self, n):
        body, h = n['block'], n['handler']
        # what an async function rejects with is not caught by the try it is returned from without await
        after = [r for r in walk(body, FUN) if r['type'] == 'ReturnStatement' and r['argument'] and any(self.mod.promises(x) and x.get('settled') == 'returned' for x in walk(r['argument'], FUN))]
        orelse = []
        if after and n['finalizer'] or len(after) > 1 or after and (after[0] is not body['body'][-1] or not self.mod.promises(after[0]['argument']) or any(not simple(x) for x in after[0]['argument']['arguments'])):
            no(n, 'a promise returned from within try')
        if after:
            self.scopes.append({})
            b = self.block(dict(body, body=body['body'][:-1]), scope=False)
            orelse = self.block(dict(body, body=body['body'][-1:]), scope=False)
            self.scopes.pop()
        else:
            b = self.block(body)
        s = None
        if h:
            self.scopes.append({})
            if h['param']:
                if h['param']['type'] != 'Identifier': no(n)
                q = self.declare(h['param']['name'])
                self.objects.add(h['param']['name'])
                c = self.block(h['body'])
                s = ast.parse('try: pass\nexcept Exception as %s: pass' % q).body[0]
            else:
                c = self.block(h['body'])
                s = ast.parse('try: pass\nexcept Exception: pass').body[0]
            self.scopes.pop()
            s.handlers[0].body = c
        f = self.block(n['finalizer']) if n['finalizer'] else []
        if s is None: s = ast.parse('try: pass\nfinally: pass').body[0]
        ln = n['loc']['start']['line']
        for x in ast.walk(s):
            if hasattr(x, 'lineno') and x is not s and x not in (c if h else []): pass
        s.lineno = s.end_lineno = ln
        for hh in s.handlers:
            hh.lineno = hh.end_lineno = h['loc']['start']['line']
            hh.type.lineno = hh.type.end_lineno = hh.lineno
        s.body, s.finalbody, s.orelse = b, f, orelse
        self.pre.append(s)

    # ---- functions
    def find_thunks(self, n):
        fs = [p['value'] for x in walk(n['body']) if x['type'] == 'ObjectExpression' for p in x['properties'] if p['type'] == 'Property' and p['value']['type'] == 'ArrowFunctionExpression' and not p['value']['params']]
        if not any(self.captures(f, l) for l in walk(n['body']) if l['type'] in ('ForStatement', 'ForOfStatement') for f in fs if any(f is x for x in walk(l))): return
        for f in fs: f['thunk'] = 1
        self.mod.later |= {'.' + p['key'].get('name') for x in walk(n['body']) if x['type'] == 'ObjectExpression' for p in x['properties'] if 'thunk' in p.get('value', ()) and any(self.mod.promises(y) for y in walk(p['value']['body']))}
        self.thunk_names = {p['key'].get('name') for x in walk(n['body']) if x['type'] == 'ObjectExpression' for p in x['properties'] if 'thunk' in p.get('value', ())}
        self.constants = {d['id'].get('name') for x in walk(n['body']) if x['type'] == 'VariableDeclaration' and x['kind'] == 'const' for d in x['declarations']}
        self.constants -= {d['id'].get('name') for x in walk(n['body']) if x['type'] == 'VariableDeclaration' and x['kind'] != 'const' for d in x['declarations']}

    def define(self, n, name, method=False):
        f = Function(self.mod, self.objects, self)
        f.index_vars = self.index_vars
        if n.get('generator'): no(n)
        ps = [p + '=None' for p in f.params(n['params'])]        # an argument that is not given is undefined
        if method: ps = ['self'] + ps
        if self.parent is None and method: f.find_thunks(n)
        body = f.block(n['body'], scope=False)
        if f.thunks: body = f.dispatch() + body
        if f.nonlocals:
            body.insert(0, ast.parse('nonlocal ' + ', '.join(sorted(f.nonlocals))).body[0])
        d = ast.parse('def %s(%s): pass' % (name, ', '.join(ps + []))).body[0]
        ln = n['loc']['start']['line']
        for x in ast.walk(d):
            if hasattr(x, 'lineno'): x.lineno = x.end_lineno = ln
        d.body = body
        d.end_lineno = n['loc']['end']['line']
        for x in body[:1]:
            if x.lineno < ln: x.lineno = x.end_lineno = ln
        return d


def simple(n):
    if n['type'] == 'MemberExpression': return not n['computed'] and simple(n['object'])
    return n['type'] in ('Identifier', 'Literal', 'ThisExpression')


def settle(n, how):
    """marks the calls whose result somebody awaits: settled here, or by whoever calls this function"""
    if not n: return
    t = n['type']
    if t == 'CallExpression': n['settled'] = how
    elif t == 'ConditionalExpression':
        settle(n['consequent'], how)
        settle(n['alternate'], how)
    elif t == 'LogicalExpression': settle(n['right'], how)


def settle_all(tree):
    for n in walk(tree):
        if n['type'] == 'ReturnStatement': settle(n['argument'], 'returned')
        elif n['type'] == 'ArrowFunctionExpression' and n['body']['type'] != 'BlockStatement': settle(n['body'], 'returned')
    for n in walk(tree):
        if n['type'] == 'AwaitExpression': settle(n['argument'], 'here')
        elif n['type'] == 'CallExpression' and n['callee']['type'] == 'MemberExpression' and n['callee']['object'].get('name') == 'Promise' and n['callee']['property'].get('name') == 'all':
            for x in n['arguments']:
                for y in x.get('elements', ()): settle(y, 'here')


def async_names(tree):
    out = set()
    for n in walk(tree):
        if n['type'] == 'FunctionDeclaration' and n['async']: out.add(n['id']['name'])
        elif n['type'] == 'VariableDeclarator' and n['init'] and n['init'].get('async') and n['id']['type'] == 'Identifier': out.add(n['id']['name'])
        elif n['type'] == 'MethodDefinition' and n['value'].get('async') and not n['computed']: out.add('this.' + n['key']['name'])
    return out


def strip(n):
    if isinstance(n, dict): return {k: strip(v) for k, v in n.items() if k != 'loc'}
    if isinstance(n, list): return [strip(x) for x in n]
    return n


class Module:
    """path: relative to the repository.  stubs: {name of the module level: Python object}; objects: names of parameters that are objects with
    attributes; object_fields: attributes of objects that are objects again"""

    def __init__(self, repo, path, stubs, objects=(), object_fields=()):
        self.path = path
        self.tree = json.loads(subprocess.check_output(['node', HERE + '/vlib/js/ast.js', ACORN, os.path.join(repo, path)]))
        self.file = 'js:' + os.path.join(repo, path)
        self.stubs = stubs
        self.objects, self.object_fields = set(objects), set(object_fields)
        self.modules, self.regexes, self.toplevel, self.by_name = set(), {}, set(), set()
        self.failed, self.consts = {}, {}
        settle_all(self.tree)
        self.later = async_names(self.tree)
        funs, classes = [], []
        for s in self.tree['body']:
            if s['type'] == 'FunctionDeclaration': funs.append(s)
            elif s['type'] == 'ClassDeclaration': classes.append(s)
            elif s['type'] == 'VariableDeclaration':
                for d in s['declarations']:
                    ids = [d['id']['name']] if d['id']['type'] == 'Identifier' else [x['name'] for x in self.bound(d['id'])]
                    self.toplevel |= set(ids)
                    if d['init'] and 'regex' in d['init']: self.regexes[ids[0]] = d['init']
                    elif s['kind'] == 'const' and d['init'] and d['init']['type'] == 'Literal' and isinstance(d['init'].get('value'), str): self.consts[ids[0]] = d['init']['value']
                    elif d['init'] and any(x['type'] == 'CallExpression' and x['callee'].get('name') == 'require' for x in walk(d['init'])): self.modules |= set(ids)
        for f in funs:
            self.toplevel.add(f['id']['name'])
            if len(f['params']) == 1 and f['params'][0]['type'] == 'ObjectPattern': self.by_name.add(f['id']['name'])
        for c in classes: self.toplevel.add(c['id']['name'])
        body = []
        top = lambda: Function(self, self.objects)
        for f in funs: self.add(body, lambda: top().define(f, f['id']['name']), f['id']['name'])
        for c in classes:
            k = ast.parse('class %s: pass' % c['id']['name']).body[0]
            k.body = [ast.parse('pass').body[0]]
            for m in c['body']['body']:
                nm = m['key'].get('name')
                if m['type'] == 'MethodDefinition' and m['kind'] == 'method' and not m['static'] and not m['computed']:
                    self.add(k.body, lambda: top().define(m['value'], nm, True), '%s.%s' % (c['id']['name'], nm))
            body.append(k)
        t = ast.Module(body=body, type_ignores=[])
        for x in ast.walk(t):
            if isinstance(x, (ast.stmt, ast.expr, ast.excepthandler, ast.arg, ast.keyword, ast.alias)) and not hasattr(x, 'end_lineno'): x.end_lineno = x.lineno
        ast.fix_missing_locations(t)
        self.py = t
        TEXTS[self.file] = t
        g = {n: getattr(jsrt, n) for n in dir(jsrt) if not n.startswith('_')}
        g['__name__'] = 'js:' + path
        g.update(self.consts)
        g.update(stubs)
        for n in self.toplevel - set(g): g.setdefault(n, None)
        exec(compile(t, self.file, 'exec'), g)
        self.ns = g

    def promises(self, n):
        """is this a call of an async function of the module"""
        if n['type'] != 'CallExpression': return False
        c = n['callee']
        if c['type'] == 'Identifier': return c['name'] in self.later
        return c['type'] == 'MemberExpression' and not c['computed'] and ('this' if c['object']['type'] == 'ThisExpression' else '') + '.' + c['property']['name'] in self.later

    def bound(self, p):
        for x in walk(p):
            if x['type'] == 'Property' and x['value']['type'] == 'Identifier': yield x['value']

    def add(self, body, make, name):
        try: body.append(make())
        except NotTranslated as ex: self.failed[name] = str(ex)
        except (KeyError, TypeError, AttributeError, IndexError) as ex: self.failed[name] = 'translation: %s: %s' % (type(ex).__name__, ex)

    def fn(self, name):
        if name in self.failed: raise NotTranslated('%s: %s' % (name, self.failed[name]))
        o = self.ns[name.split('.')[0]]
        for x in name.split('.')[1:]: o = o.__dict__[x]
        return o

    def text(self): return ast.unparse(self.py)
